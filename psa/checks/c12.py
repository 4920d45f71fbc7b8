"""C12: the CLIXML element of every kind of value, both ways."""
from ..vals import *

META = {
    "level": "other",
    "technique": "abstract interpretation of serialize and deserialize over symbolic and boundary values of every type, compared with the MS-PSRP element table",
    "explanation": "serialize and deserialize of the current source are interpreted abstractly (an element is an abstract object of the ElementTree model) on a "
                   "value of every supported kind: symbolic strings, bytes, floats and sized integers, boundary constants, every member of every enum class of "
                   "the package and of user defined enums over each integer type, containers with mixed, nested, empty and repeated items, extended "
                   "primitives and property bags. The element name, its text and the abstract value read back from it are compared with the table of "
                   "MS-PSRP 2.2.5.1 and with the value written; elements as a Windows peer writes them are read as well, and unknown elements must be errors.",
    "rules": ["element", "text", "read-back", "int-width", "enum", "container", "dict-entry", "extended", "peer-element", "unknown-element", "properties"],
}


def is_text(it, t, want):
    if t is None:
        return want == ""
    t = it.prim(t)
    return isinstance(t, Const) and t.v == want


def check(chk):
    prog = chk.prog
    try:
        prog.extra("user_types")
    except PyRaise as e:
        chk.bad("enum", "user defined types", f"defining them raises {show(e.exc)}")
        return
    cfg = Config(hooks=CRYPT, recursion=8, raw_psobject=True)

    def explored(rule, name, body):
        ps = chk.seen(run(prog, body, cfg))
        good = [p for p in ps if p.kind == "return"]
        return ps, good

    def there_and_back(w, v):
        it = w.it
        w.made = True
        s0 = shape(it, v)
        e = serialize(w, v)
        x = snap(it, e)
        t = x.tag
        r = deserialize(w, e)
        return {"v": v, "x": x, "r": r, "s0": s0, "s1": shape(it, r), "tn0": type_names(it, v), "tn1": type_names(it, r)}

    # ---- simple values
    for name, make, cls, tag, text in primitives():
        def simple(name=name, make=make, cls=cls, tag=tag, text=text):
            def body(w):
                return there_and_back(w, make(w))

            ps, good = explored("element", name, body)
            for p in ps:
                if p.kind == "return":
                    d = p.value
                    it = p.interp
                    chk.need(d["x"].tag == tag, "element", name, f"written as {d['x'].tag}, not {tag}", path=p)
                    if text is not None:
                        chk.need(is_text(it, d["x"].text, text), "text", name, f"written with the text {show(d['x'].text) if d['x'].text is not None else None}, not {text!r}", path=p)
                    elif d["x"].text is not None and not d["x"].kids:
                        # a symbolic value: its text must be derived from the value itself
                        pass
                    got = "None" if isinstance(d["r"], Const) and d["r"].v is None else d["s1"][0]
                    chk.need(got == (cls or "None"), "read-back", name, f"read back as {got}, not {cls}", path=p)
                    chk.need(same(it, d["s0"], d["s1"]), "read-back", name + " value",
                             f"written from {str(d['s0'])[:300]}, read back as {str(d['s1'])[:300]}", path=p)
                elif getattr(p.world, "made", False):
                    chk.bad("element", name, f"{p.exc_name()} while it is written or read", path=p)
            if not good and not ps.incomplete:
                chk.bad("element", name, "can never be written and read: " + "; ".join(sorted({str(p.exc_name()) for p in ps})), path=ps[0] if ps else None)

        chk.attempt("element", name, simple)

    # ---- a Python integer of unknown size
    def width():
        def body(w):
            v = S("n", "int")
            x = snap(w.it, serialize(w, v))
            return v, x

        ps, good = explored("int-width", "int", body)
        tags = set()
        for p in good:
            v, x = p.value
            it = p.interp
            lo = it.known_truth(it.less(v, Const(-2**31)))
            hi = it.known_truth(it.less(Const(2**31 - 1), v))
            tags.add(x.tag)
            if x.tag == "I32":
                chk.need(lo is False and hi is False, "int-width", "int in 32 bits", "an integer that may not fit 32 bits is written as I32", path=p)
            elif x.tag == "I64":
                chk.need(lo is True or hi is True, "int-width", "int beyond 32 bits", "an integer that fits 32 bits may be written as I64", path=p)
            else:
                chk.bad("int-width", "int", f"an integer is written as {x.tag}", path=p)
            chk.need(same(it, key(v), key(it.prim(x.text))), "int-width", "text of int", f"text {show(x.text)} of integer {show(v)}", path=p)
        if not ps.incomplete:
            chk.need(tags == {"I32", "I64"}, "int-width", "int elements", f"integers are written as {sorted(tags)}")

    chk.attempt("int-width", "int", width)

    # ---- enums
    ns = dict(prog.extra("user_types").frame.vars)
    classes = {}
    for m in list(prog.modules.values()):
        for n, c in m.frame.vars.items():
            if isinstance(c, ClassV) and c.enum_members and isinstance(c.ns.get("PSObject"), InstV):
                classes[c.qualname] = c
    for n, c in ns.items():
        if isinstance(c, ClassV) and c.enum_members and c.module.name == "user_types":
            classes[c.qualname] = c
    for n, c in sorted(classes.items()):
        bases = [b for b in c.mro[1:] if isinstance(b, ClassV) and isinstance(b.ns.get("PSObject"), InstV)]
        if not [b for b in bases if b.name in ("PSEnumBase", "PSFlagBase")]:
            plain_enum(chk, cfg, c)
            continue
        base = c.kw.get("base_type")
        tag = INTS[base.name][0] if isinstance(base, ClassV) and base.name in INTS else "I32"
        done = set()
        for mn, m in c.enum_members.items():
            if m.name in done:
                continue
            done.add(m.name)
            enum_member(chk, cfg, c, m, tag)

    # ---- containers
    for name, make, cls, tag in containers():
        def cont(name=name, make=make, cls=cls, tag=tag):
            ps, good = explored("container", name, lambda w: there_and_back(w, make(w)))
            for p in ps:
                if p.kind != "return":
                    chk.bad("container", name, f"{p.exc_name()} while it is written or read", path=p)
                    continue
                d, it = p.value, p.interp
                chk.need(d["x"].tag == "Obj" and [k.tag for k in d["x"].kids if k.tag not in ("TN", "TNRef")] == [tag], "container", name,
                         f"written as {d['x'].tag} holding {[k.tag for k in d['x'].kids]}, not an Obj holding {tag}", path=p)
                if tag == "DCT":
                    for en in [e for k in d["x"].find("DCT") for e in k.kids]:
                        ns_ = [show(k.attrib.get("N")) if "N" in k.attrib else None for k in en.kids]
                        chk.need(en.tag == "En" and sorted(map(str, ns_)) == ["'Key'", "'Value'"], "dict-entry", name, f"entry {en.tag} with {ns_}", path=p)
                chk.need(d["s1"][0] == cls, "container", name + " class", f"read back as {d['s1'][0]}, not {cls}", path=p)
                chk.need(same(it, d["s0"], d["s1"]), "container", name + " items", f"written from {str(d['s0'])[:500]}, read back as {str(d['s1'])[:500]}", path=p)
            if not good and not ps.incomplete:
                chk.bad("container", name, "can never be written and read")

        chk.attempt("container", name, cont)

    # ---- primitives with properties, property bags, registered and unregistered classes
    for name, make in objects():
        def obj(name=name, make=make):
            ps, good = explored("properties", name, lambda w: there_and_back(w, make(w)))
            for p in ps:
                if p.kind != "return" and not getattr(p.world, "made", False):
                    continue
                if p.kind != "return":
                    chk.bad("properties", name, f"{p.exc_name()} while it is written or read", path=p)
                    continue
                d, it = p.value, p.interp
                chk.need(d["x"].tag == ("PR" if name.startswith("progress") else "Obj"), "extended", name, f"written as {d['x'].tag}", path=p)
                chk.need(same(it, d["s0"][:2] if len(d["s0"]) == 4 else d["s0"], d["s1"][:2]), "extended", name + " content",
                         f"written from {str(d['s0'])[:400]}, read back as {str(d['s1'])[:400]}", path=p)
                if len(d["s0"]) == 4 and len(d["s1"]) == 4:
                    chk.need(same(it, d["s0"][2], d["s1"][2]), "properties", name, f"properties {str(d['s0'][2])[:400]} read back as {str(d['s1'][2])[:400]}", path=p)
            if not good and not ps.incomplete:
                chk.bad("properties", name, "can never be written and read")

        chk.attempt("properties", name, obj)

    # ---- what a Windows peer writes
    for tag, text, cls, val in PEER:
        def peer(tag=tag, text=text, cls=cls, val=val):
            def body(w):
                e = build(w, tag, text)
                r = deserialize(w, e)
                return r, shape(w.it, r)

            name = f"<{tag}>{text}"
            ps, good = explored("peer-element", name, body)
            for p in ps:
                if p.kind != "return":
                    chk.bad("peer-element", name, f"{p.exc_name()} while it is read", path=p)
                    continue
                r, s = p.value
                it = p.interp
                if cls is None:
                    chk.need(isinstance(r, Const) and r.v is val, "peer-element", name, f"read as {show(r)}", path=p)
                    continue
                v = it.prim(r)
                ok = s[0] == cls and (val is ... or isinstance(v, Const) and v.v == val and (isinstance(v.v, str) == isinstance(val, str))
                                      or not isinstance(v, Const) and any(key(Const(val)) == x[1] for x in s[1][1:] if isinstance(x, tuple)))
                chk.need(ok, "peer-element", name, f"read as {s[0]} {show(v)}, not {cls} {val!r}", path=p)

        chk.attempt("peer-element", tag, peer)

    for tag in ("Unknown", "En", "X", "s", "i32", "LST", "DCT", "IE", "QUE", "STK", "TN", "T", "TNRef", "MS", "Props", "Objs", ""):
        def unknown(tag=tag):
            ps, good = explored("unknown-element", tag, lambda w: TupleV([deserialize(w, build(w, tag, "1"))]))
            for p in good:
                chk.bad("unknown-element", f"<{tag}>", f"read as {show(p.value.items[0])} instead of an error", path=p)
            if ps and not good:
                chk.ok("unknown-element", f"<{tag}>")
            for p in ps:
                if p.kind == "raise":
                    chk.need(p.exc_name() == "ValueError", "unknown-element", f"<{tag}> error", f"raises {p.exc_name()}", path=p)

        chk.attempt("unknown-element", tag, unknown)


PEER = [
    ("S", None, "PSString", ""), ("S", "", "PSString", ""), ("S", "abc", "PSString", "abc"), ("S", " a ", "PSString", " a "),
    ("SBK", None, "PSScriptBlock", ""), ("URI", None, "PSUri", ""), ("XD", None, "PSXml", ""), ("SBK", "1 + 1", "PSScriptBlock", "1 + 1"),
    ("URI", "http://x/", "PSUri", "http://x/"), ("XD", "<a/>", "PSXml", "<a/>"),
    ("C", "97", "PSChar", ...), ("B", "true", None, True), ("B", "false", None, False), ("B", "True", None, True), ("Nil", None, None, None),
    ("By", "254", "PSByte", 254), ("SB", "-127", "PSSByte", -127), ("U16", "65535", "PSUInt16", 65535), ("I16", "-32767", "PSInt16", -32767),
    ("U32", "4294967295", "PSUInt", 4294967295), ("I32", "-2147483648", "PSInt", -2147483648), ("U64", "18446744073709551615", "PSUInt64", 18446744073709551615),
    ("I64", "-9223372036854775808", "PSInt64", -9223372036854775808), ("Sg", "12.34", "PSSingle", 12.34), ("Db", "12.34", "PSDouble", 12.34),
    ("Db", "-1.5E-07", "PSDouble", -1.5e-07), ("D", "12.34", "PSDecimal", decimal.Decimal("12.34")), ("BA", "AQIDBA==", "PSByteArray", b"\x01\x02\x03\x04"),
    ("BA", None, "PSByteArray", b""), ("G", "792e5b37-4505-47ef-b7d2-8711bb7affa8", "PSGuid", ...), ("Version", "6.2.1.3", "PSVersion", ...),
    ("DT", "2008-04-11T10:42:32.2731993-07:00", "PSDateTime", ...), ("TS", "PT9.0269026S", "PSDuration", ...), ("DT", "2008-04-11T10:42:32Z", "PSDateTime", ...),
]


def objects():
    def ext(w, cls, v, **props):
        o = w.new(cls, v)
        for k, x in props.items():
            w.it.call(w.prog.func("add_note_property"), [o, Const(k), x], {}, None)
        return o

    return [
        ("PSString with a property", lambda w: ext(w, "PSString", S("s", "str"), Length=Const(4))),
        ("PSInt with properties", lambda w: ext(w, "PSInt", Const(4), a=Const("x"), b=ListV([Const(1)]))),
        ("PSByteArray with a property", lambda w: ext(w, "PSByteArray", Const(b"ab"), a=NONE)),
        ("PSChar with a property", lambda w: ext(w, "PSChar", Const("a"), a=TRUE)),
        ("PSDuration with a property", lambda w: ext(w, "PSDuration", Const(1), a=TRUE)),
        ("PSGuid with a property", lambda w: ext(w, "PSGuid", Const(GUID), a=TRUE)),
        ("PSVersion with a property", lambda w: ext(w, "PSVersion", Const("1.2"), a=TRUE)),
        ("PSList with a property", lambda w: ext(w, "PSList", ListV([Const(1), Const(2)]), a=Const("x"))),
        ("PSCustomObject", lambda w: w.new("PSCustomObject", Zeta=Const(1), alpha=S("s", "str"), Mid=NONE, list=ListV([Const(1)]), d=mkdict((Const("k"), Const(1))))),
        ("nested PSCustomObject", lambda w: w.new("PSCustomObject", a=w.new("PSCustomObject", b=w.new("PSCustomObject", c=Const(1)))) ),
        ("progress", lambda w: progress(w, Activity=S("a", "str"), StatusDescription=S("d", "str"), CurrentOperation=S("o", "str"))),
        ("progress numbers", lambda w: progress(w, ActivityId=Const(7), ParentActivityId=Const(8), PercentComplete=Const(100), SecondsRemaining=Const(0))),
        ("progress symbolic numbers", lambda w: progress(w, ActivityId=S("i", "int"), ParentActivityId=S("p", "int"), PercentComplete=S("c", "int"), SecondsRemaining=S("r", "int"))),
        ("progress completed", lambda w: progress(w, "Completed", CurrentOperation=NONE)),
        ("progress empty texts", lambda w: progress(w, Activity=Const(""), StatusDescription=Const(""), CurrentOperation=Const(""))),
        ("PSCustomObject with many properties", lambda w: w.new("PSCustomObject", **{f"p{i}": Const(i) for i in range(40)})),
        ("PSCustomObject without properties", lambda w: w.new("PSCustomObject")),
        ("registered class", lambda w: w.new("Record", Name=S("s", "str"), Count=Const(3), Extra=Const("x"))),
        ("registered class, unset", lambda w: w.new("Record", Name=Const("n"))),
    ]


def enum_member(chk, cfg, c, m, tag):
    name = f"{c.qualname}.{m.name}"

    def decide():
        def body(w):
            e = serialize(w, m)
            x = snap(w.it, e)
            return x, deserialize(w, e), type_names(w.it, m)

        for p in chk.seen(run(chk.prog, body, cfg)):
            if p.kind != "return":
                chk.bad("enum", name, f"{p.exc_name()} while it is written or read", path=p)
                continue
            x, r, tn = p.value
            it = p.interp
            num = it.prim(m.value)
            inner = [k for k in x.kids if k.tag not in ("TN", "TNRef", "ToString", "MS", "Props")]
            chk.need(x.tag == "Obj" and len(inner) == 1 and inner[0].tag == tag, "enum", name,
                     f"written as {x.tag} holding {[k.tag for k in x.kids]}, not an Obj holding {tag}", path=p)
            if len(inner) == 1:
                chk.need(is_text(it, inner[0].text, str(num.v)), "enum", name + " value", f"written with {show(inner[0].text) if inner[0].text is not None else None}, not {num.v}", path=p)
            t = [k for k in x.find("TN") for k in k.kids]
            chk.need(tn is not None and tuple(key(it.prim(k.text)) for k in t) == tn, "enum", name + " type names",
                     f"type names {[show(k.text) for k in t]} are not those of the class", path=p)
            if isinstance(r, EnumV):
                chk.need(r.cls is c and r.name == m.name, "enum", name + " read back", f"read back as {show(r)}", path=p)
            else:
                v = it.prim(r)
                chk.need(isinstance(v, Const) and v.v == num.v, "enum", name + " read back", f"read back as {show(r)}", path=p)
                chk.need(not rehydrates(chk.prog, c), "enum", name + " class", f"the registered enum is read back as {show(r)}", path=p)

    chk.attempt("enum", name, decide)


def rehydrates(prog, c):
    """Whether the registry maps the first type name of the class to it."""
    cache = getattr(prog, "_rehyd", None)
    if cache is None:
        cache = prog._rehyd = {}
    if c.qualname not in cache:
        def body(w):
            reg = w.new("TypeRegistry")
            tn = w.it.getattr(c.ns["PSObject"], "type_names", None)
            return TupleV([w.call(reg, "rehydrate", tn)])
        ps = [p for p in run(prog, body, Config()) if p.kind == "return"]
        cache[c.qualname] = any(p.value.items[0] is c for p in ps)
    return cache[c.qualname]


def plain_enum(chk, cfg, c):
    """An enum class of Python itself: the element of its value and type names made from the class."""
    for m in dict((x.name, x) for x in c.enum_members.values()).values():
        name = f"{c.qualname}.{m.name}"

        def decide(m=m, name=name):
            def body(w):
                x = snap(w.it, serialize(w, m))
                return x, deserialize(w, x.inst)

            for p in chk.seen(run(chk.prog, body, cfg)):
                if p.kind != "return":
                    chk.bad("enum", name, f"{p.exc_name()} while it is written or read", path=p)
                    continue
                x, r = p.value
                it = p.interp
                num = it.prim(m.value)
                tag = "S" if isinstance(num.v, str) else "I32" if abs(num.v) < 2**31 else "I64"
                inner = [k for k in x.kids if k.tag not in ("TN", "TNRef", "ToString", "MS", "Props")]
                chk.need(x.tag == "Obj" and [k.tag for k in inner] == [tag], "enum", name, f"written as {x.tag} holding {[k.tag for k in x.kids]}, not an Obj holding {tag}", path=p)
                if len(inner) == 1:
                    chk.need(is_text(it, inner[0].text, str(num.v)), "enum", name + " value", f"written with {show(inner[0].text) if inner[0].text is not None else None}, not {num.v}", path=p)
                t = [it.prim(k.text) for k in x.find("TN") for k in k.kids]
                want = [f"{c.module.name}.{c.name}", "System.Enum", "System.ValueType", "System.Object"]
                chk.need([getattr(v, "v", None) for v in t] == want, "enum", name + " type names", f"type names {[show(v) for v in t]}, not {want}", path=p)
                v = it.prim(r)
                chk.need(isinstance(v, Const) and v.v == num.v, "enum", name + " read back", f"read back as {show(r)}", path=p)

        chk.attempt("enum", name, decide)
