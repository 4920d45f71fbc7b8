"""C15: object and type name references."""
from ..vals import *

META = {
    "level": "other",
    "technique": "abstract interpretation of serialize and deserialize over aliased, equal, cyclic and temporary objects; alias comparison between the abstract heap and the references of the document; reachability of identity keys",
    "explanation": "serialize is interpreted on object graphs over every kind of referenced object (same object twice, equal but distinct objects, cycles, objects made while "
                   "serializing, type name lists that share a prefix, an order or their joined text), and the document is walked together with the abstract heap: every reference "
                   "must have been declared before, by the very object found at that place, and a type name reference by the complete identical list. Identities taken with id() "
                   "must belong to objects that stay reachable for the whole document. deserialize is interpreted on documents with references at every place, and the abstract "
                   "values found there are compared by identity; references another document declared must not resolve.",
    "rules": ["ref", "ref-id", "type-names", "cycle", "separate", "temporary", "read-ref", "read-type-names", "read-separate"],
}


class Bad(Exception):
    pass


def same_obj(a, b):
    if isinstance(a, EnumV) and isinstance(b, EnumV):
        return a.cls is b.cls and a.name == b.name
    return a is b


def text_of(it, t):
    t = text_base(it.prim(t)) if t is not None else None
    return "" if t is None else t.v if isinstance(t, Const) else key(t)


class Walk:
    """Compares one document with the values it was written from."""

    def __init__(self, it):
        self.it, self.objs, self.tns, self.n, self.refs = it, {}, {}, 0, 0
        self.skip_names = ()
        self.read = False

    def go(self, v, x, place):
        it = self.it
        self.n += 1
        if x.tag == "Ref":
            self.refs += 1
            r = text_of(it, x.attrib.get("RefId"))
            if r not in self.objs:
                raise Bad(("ref-id", place, f"reference {r!r} is not declared before it is used"))
            if not same_obj(self.objs[r][0], v):
                raise Bad(("ref", place, f"{show(v)} is written as a reference to {show(self.objs[r][0])} at {self.objs[r][1]}"))
            return
        if x.tag != "Obj":
            if x.kids and x.tag != "PR":
                raise Unsupported("children of " + x.tag)
            return
        if "RefId" in x.attrib:
            r = text_of(it, x.attrib["RefId"])
            if r in self.objs:
                raise Bad(("ref-id", place, f"the reference id {r!r} is declared twice, first at {self.objs[r][1]}"))
            self.objs[r] = (v, place)
        kids = {k.tag: k for k in x.kids}
        if "TN" in kids:
            names = tuple(text_of(it, t.text) for t in kids["TN"].kids)
            r = text_of(it, kids["TN"].attrib.get("RefId"))
            if r in self.tns:
                raise Bad(("ref-id", place, f"the type name id {r!r} is declared twice"))
            self.tns[r] = names
            self.check_names(v, names, place)
        if "TNRef" in kids:
            r = text_of(it, kids["TNRef"].attrib.get("RefId"))
            if r not in self.tns:
                raise Bad(("ref-id", place, f"type name reference {r!r} is not declared before it is used"))
            self.check_names(v, self.tns[r], place)
        props, attrs = [], False
        if isinstance(v, InstV) and isinstance(v.attrs.get("PSObject"), InstV):
            for g in ("adapted_properties", "extended_properties"):
                props += [pv for n, pv in group_values(it, v, g)]
        elif isinstance(v, InstV) and "queue" not in v.attrs:
            for n in sorted(v.attrs):
                props.append(v.attrs[n])
        px = [k for t in ("Props", "MS") for k in (kids[t].kids if t in kids else [])]
        if len(props) != len(px):
            raise Unsupported(f"{len(props)} properties of {show(v)} in {len(px)} elements")
        for i, (pv, k) in enumerate(zip(props, px)):
            self.go(pv, k, f"{place}.{text_of(it, k.attrib.get('N'))}")
        p = it.prim(v) if isinstance(v, V) else v
        if isinstance(v, InstV) and isinstance(v.attrs.get("queue"), Heap):
            p = it.prim(v.attrs["queue"])
        c = [k for k in x.kids if k.tag in ("LST", "STK", "QUE", "IE", "DCT")]
        if c and isinstance(p, ListV):
            if len(c[0].kids) != len(p.items):
                raise Unsupported("items")
            for i, (a, b) in enumerate(zip(p.items, c[0].kids)):
                self.go(a, b, f"{place}[{i}]")
        elif c and isinstance(p, DictV):
            if len(c[0].kids) != len(p.entries):
                raise Unsupported("entries")
            for i, ((a, b), en) in enumerate(zip(p.entries.values(), c[0].kids)):
                self.go(a, en.kids[0], f"{place} key {i}")
                self.go(b, en.kids[1], f"{place} value {i}")
        elif c:
            raise Unsupported("container " + show(v))

    def check_names(self, v, names, place):
        if v in self.skip_names:
            return
        own = type_names(self.it, v)
        if self.read:  # a type that is not registered is marked
            own = own and tuple(k[2] if isinstance(k, tuple) and len(k) == 3 and k[0] == "c" else k for k in own)
            if isinstance(v, InstV) and own is not None and own != names and own != tuple("Deserialized." + str(n) for n in names) and v.cls.name in ("PSObject",):
                raise Bad(("read-type-names", place, f"{list(names)} are read as {list(own)}"))
            return
        if own is None and isinstance(v, Heap):
            return
        if own is not None:
            own = tuple(k[2] if isinstance(k, tuple) and len(k) == 3 and k[0] == "c" else k for k in own)
            if own != names:
                raise Bad(("type-names", place, f"{show(v)} has the type names {list(own)}, written as {list(names)}"))


def add_prop(w, o, name, value):
    w.it.call(w.prog.func("add_note_property"), [o, Const(name), value], {}, None)
    return o


def bag(w, **kw):
    return w.new("PSCustomObject", **kw)


def ext(w, o, value=1):
    return add_prop(w, o, "p", Const(value))


def typed(w, *names, cls="PSObject"):
    o = w.new(cls)
    w.it.setattr(w.it.getattr(o, "PSObject", None), "type_names", ListV([Const(n) for n in names]), None)
    return o


def kinds():
    uuid_ = Const(GUID)
    out = [
        ("PSCustomObject", lambda w: bag(w, a=Const(1))), ("PSCustomObject without properties", lambda w: bag(w)), ("PSObject", lambda w: w.new("PSObject")),
        ("record", lambda w: w.new("Record", Name=Const("n"))), ("object equal to all others", lambda w: w.new("Equal", Id=Const(1))), ("object with text", lambda w: w.new("Named", Id=Const(1))),
        ("plain object", lambda w: w.new("Plain")), ("computed", lambda w: w.new("Computed")),
        ("extended string", lambda w: ext(w, w.new("PSString", Const("s")))), ("extended ''", lambda w: ext(w, w.new("PSString", Const("")))), ("user string", lambda w: w.new("ExtString", Const("s"))),
        ("extended int", lambda w: ext(w, w.new("PSInt", Const(3)))), ("extended int 0", lambda w: ext(w, w.new("PSInt", Const(0)))), ("extended int64", lambda w: ext(w, w.new("PSInt64", Const(3)))),
        ("extended guid", lambda w: ext(w, w.new("PSGuid", uuid_))), ("extended bytes", lambda w: ext(w, w.new("PSByteArray", Const(b"ab")))), ("extended char", lambda w: ext(w, w.new("PSChar", Const("a")))),
        ("extended duration", lambda w: ext(w, w.new("PSDuration", days=Const(2)))), ("extended version", lambda w: ext(w, w.new("PSVersion", Const("1.2")))),
        ("extended double", lambda w: ext(w, w.new("PSDouble", Const(1.5)))), ("extended decimal", lambda w: ext(w, w.new("PSDecimal", Const("1.5")))),
        ("extended script block", lambda w: ext(w, w.new("PSScriptBlock", Const("s")))),
        ("PSList", lambda w: w.new("PSList", ListV([Const(1)]))), ("PSList []", lambda w: w.new("PSList")), ("PSStack", lambda w: w.new("PSStack", ListV([Const(1)]))),
        ("PSIEnumerable", lambda w: w.new("PSIEnumerable", ListV([Const(1)]))), ("PSQueue", lambda w: queue_of(w, "PSQueue", Const(1))), ("PSDict", lambda w: w.new("PSDict")),
        ("user list", lambda w: w.new("UserList")), ("user dict", lambda w: w.new("UserDict")), ("user queue", lambda w: queue_of(w, "UserQueue")),
        ("list", lambda w: ListV([Const(1)])), ("list []", lambda w: ListV([])), ("dict", lambda w: mkdict((Const("k"), Const(1)))), ("queue", lambda w: queue_of(w, w.prog.models["queue"].frame.vars["Queue"], Const(1))),
        ("extended list", lambda w: ext(w, w.new("PSList", ListV([Const(1)])))), ("extended dict", lambda w: ext(w, w.new("PSDict")))]
    return out


def enums(prog):
    for c in ("ByteEnum", "SByteEnum", "Int16Enum", "UInt16Enum", "IntEnum", "UIntEnum", "Int64Enum", "UInt64Enum", "UIntFlags", "PyEnum", "PyIntEnum", "PyFlags"):
        cls = prog.cls(c)
        if cls.enum_members:
            yield c, list(cls.enum_members.values())
    for c in ("ConsoleColor", "ErrorCategory", "ApartmentState", "PSThreadOptions", "PipelineResultTypes", "CommandTypes", "ControlKeyStates", "RunspacePoolState", "PSInvocationState"):
        try:
            cls = prog.cls(c)
        except AnchorLost:
            continue
        if cls.enum_members:
            yield c, list(cls.enum_members.values())


def check(chk):
    prog = chk.prog
    prog.extra("user_types")
    cfg = Config(hooks=CRYPT, recursion=12)

    def document(rule, name, make, expect=None, again=True, read=True):
        """Serialize what make builds (twice) and walk both documents."""
        def decide():
            def body(w):
                v = make(w)
                skip = getattr(w, "skip", ())
                w.it.id_log.clear()
                res = []
                for i in range(2 if again else 1):
                    e = serialize(w, v)
                    x = snap(w.it, e)
                    wk = Walk(w.it)
                    wk.skip_names = skip
                    try:
                        wk.go(v, x, "root")
                        res.append((wk, None))
                    except Bad as b:
                        res.append((wk, b.args[0]))
                        return res
                w.written = True
                if not read:
                    return res
                # what is read back from it has the same identities
                wk = Walk(w.it)
                wk.read = True
                try:
                    wk.go(deserialize(w, e), x, "root")
                    res.append((wk, None))
                except Bad as b:
                    b = b.args[0]
                    res.append((wk, ("read-" + b[0] if b[0] in ("ref", "ref-id") else b[0],) + b[1:]))
                return res

            ps = chk.seen(run(prog, body, cfg))
            for p in ps:
                if p.kind != "return":
                    if len(ps) == 1 or p.world is not None and getattr(p.world, "written", False):
                        chk.bad("read-ref" if getattr(p.world, "written", False) else rule, name, f"{p.exc_name()} while " + ("what was written is read" if getattr(p.world, "written", False) else "it is written"), path=p)
                    continue
                for i, (wk, b) in enumerate(p.value):
                    if b is not None:
                        chk.bad(b[0] if i == 0 or wk.read else "separate", name, f"{b[1]}: {b[2]}" + (" when it is read" if wk.read else " in the second document written from it" if i else ""), path=p)
                    else:
                        chk.ok(rule, name, wk.n)

        chk.attempt(rule, name, decide)

    def nested(w, a, b):
        """the same two objects at every kind of place"""
        r = bag(w, p0=a, p1=b, p2=a, p3=b)
        add_prop(w, r, "list", w.new("PSList", ListV([a, b, a, bag(w, inner=b)])))
        add_prop(w, r, "plain", ListV([b, ListV([a]), mkdict((Const("k"), a), (Const("l"), b))]))
        d = w.new("PSDict")
        w.it.set_item(d, Const("k"), a, None)
        w.it.set_item(d, Const("l"), b, None)
        add_prop(w, r, "dict", d)
        add_prop(w, r, "queue", queue_of(w, "PSQueue", b, a))
        add_prop(w, r, "record", w.new("Record", Name=Const("x"), Extra=a))
        return r

    ks = kinds()
    for name, mk in ks:
        document("ref", f"{name}: two equal ones", lambda w, mk=mk: nested(w, mk(w), mk(w)))
    document("ref", "all kinds at once", lambda w: (lambda os: ListV([bag(w, **{f"p{i}": o for i, o in enumerate(os)}), ListV(os[::-1]), w.new("PSList", ListV(os))]))([mk(w) for n, mk in ks for _ in (0, 1)]))
    for name, ms in enums(prog):
        document("ref", f"{name}: members", lambda w, ms=ms: nested(w, ms[0], ms[-1]))
    document("ref", "members of several enums", lambda w: ListV([m for n, ms in enums(prog) for m in ms[:4] + ms[:2]]))
    document("ref", "keys of a dictionary", lambda w: (lambda a, b: bag(w, a=a, b=b, d=mkdict((a, b), (b, a), (bag(w), a))))(bag(w, x=Const(1)), bag(w, x=Const(1))))

    def numbered(w):
        os = [bag(w, n=Const(i)) for i in range(15)]
        return bag(w, first=w.new("PSList", ListV(os)), again=w.new("PSList", ListV(os[::-1])))

    document("ref-id", "many objects", numbered)

    # ---- containers with properties that share objects and type names with the entries
    for cls in ("PSList", "PSStack", "PSIEnumerable", "PSQueue", "PSDict", "UserList", "UserDict", "UserQueue"):
        def shared(w, cls=cls):
            x, y = bag(w, n=Const(1)), w.new("Record", Name=Const("r"))
            e = prog.cls("IntEnum").enum_members["low"]
            if "Dict" in cls:
                c = w.new(cls)
                for i, v in enumerate((x, bag(w, m=x), y, e, w.new("Record", Name=Const("s")))):
                    w.it.set_item(c, Const(i), v, None)
                w.it.set_item(c, e, prog.cls("IntEnum").enum_members["high"], None)
                w.it.set_item(c, x, x, None)
            elif "Queue" in cls:
                c = queue_of(w, cls, x, bag(w, m=x), y, e, w.new("Record", Name=Const("s")))
            else:
                c = w.new(cls, ListV([x, bag(w, m=x), y, e, w.new("Record", Name=Const("s"))]))
            for n, v in (("p", x), ("q", y), ("e", e), ("l", w.new("PSList", ListV([x])))):
                add_prop(w, c, n, v)
            return bag(w, a=c, b=x)
        document("ref", f"{cls} with properties sharing its entries", shared)
    document("ref", "dictionary keys and values", lambda w: (lambda ms, k: mkdict((ms["low"], ms["high"]), (ms["high"], ms["low"]), (k, ListV([k]))))(prog.cls("IntEnum").enum_members, bag(w, n=Const(1))))

    # ---- cycles
    def cyc_obj(w):
        a, b = bag(w, n=Const(1)), bag(w, n=Const(2))
        add_prop(w, a, "self", a)
        add_prop(w, a, "other", b)
        add_prop(w, b, "back", a)
        return bag(w, a=a, b=b)

    def cyc_queue(w):
        q = w.new("PSQueue")
        w.call(q, "put", q)
        return bag(w, q=q)

    def cyc_ext(w):
        s = w.new("PSString", Const("s"))
        add_prop(w, s, "me", s)
        return s

    def cyc_plain(w):
        o = w.new("Plain")
        o.attrs["first"] = o
        return o

    # (lists and dictionaries are not hashable and never written as references, so they cannot be cyclic)
    for n, mk in (("objects", cyc_obj), ("PSQueue", cyc_queue), ("extended string", cyc_ext), ("plain object", cyc_plain)):
        document("cycle", f"cycle through {n}", mk)

    # ---- type names
    lists = [["A", "B"], ["A"], ["B", "A"], ["A", "B", "C"], ["A", "C"], ["AB"], ["A,B"], ["A B"], ["A\nB"], ["A;B"], ["A|B"], ["B"], ["a", "b"], ["A", "b"], ["A", "A", "B"], ["A", "B", "B"],
             ["System.Object"], ["System.Management.Automation.PSCustomObject", "System.Object"], ["Deserialized.A", "Deserialized.B"], ["A", "B "], ["['A', 'B']"], ["X.Y, Z"], ["X.Y", "Z"]]
    document("type-names", "lists alike", lambda w: ListV([typed(w, *l) for l in lists for _ in (0, 1)] + [typed(w, *l) for l in lists[::-1]]))
    for a in lists[:8]:
        for b in lists[:8]:
            document("type-names", f"{a} then {b}", lambda w, a=a, b=b: ListV([typed(w, *a), typed(w, *b), typed(w, *a), bag(w), typed(w, *b)]), again=False)
    document("type-names", "enum and object", lambda w: ListV([prog.cls("IntEnum").enum_members["low"], typed(w, "User.IntEnum"), prog.cls("IntEnum").enum_members["high"], w.new("Record", Name=Const("n")),
                                                              typed(w, "User.Record"), typed(w, "User.Record", "User.Base")]),
             read=False)  # (an object that claims the name of an enum and has no number is not a document to read)

    def changed(w):
        o = w.new("Record", Name=Const("n"))
        l = w.it.prim(w.it.getattr(w.it.getattr(o, "PSObject", None), "type_names", None))
        w.call(l, "insert", Const(0), Const("Mine"))
        return ListV([w.new("Record", Name=Const("a")), o, w.new("Record", Name=Const("b")), o])

    document("type-names", "changed in place", changed)

    def mutating(w):
        a = w.new("Mutating")
        b = w.new("Mutating")
        w.skip = (a, b)
        return ListV([a, typed(w, "User.Mutating", "User.Grown"), typed(w, "User.Mutating"), typed(w, "User.Mutating", "User.Grown", "System.Object"), typed(w, "User.Mutating", "System.Object", "User.Grown"), b,
                      typed(w, "User.Mutating", "User.Grown"), typed(w, "User.Mutating")])

    def mutating_doc():
        def body(w):
            v = mutating(w)
            x = snap(w.it, serialize(w, v))
            # the getter runs while the object is written; only the fixed objects are compared
            wk = Walk(w.it)
            lst = [k for k in x.kids if k.tag == "LST"][0]
            for o, k in zip(v.items, lst.kids):
                tn = k.find("TN")
                if tn:
                    wk.tns[text_of(w.it, tn[0].attrib.get("RefId"))] = tuple(text_of(w.it, t.text) for t in tn[0].kids)
                rf = k.find("TNRef")
                if rf and o not in w.skip:
                    r = text_of(w.it, rf[0].attrib.get("RefId"))
                    wk.check_names(o, wk.tns.get(r, ()), "list item")
            return len(lst.kids)

        try:
            for p in chk.seen(run(prog, body, cfg)):
                if p.kind == "return":
                    chk.ok("type-names", "type names that change meanwhile", p.value)
                else:
                    chk.undec("type-names", "type names that change meanwhile", f"{p.exc_name()}")
        except Bad as e:
            chk.bad(e.args[0][0], "type names that change meanwhile", e.args[0][2])

    chk.attempt("type-names", "type names that change meanwhile", mutating_doc)

    # ---- objects that only live while they are written
    def temporary(name, make, count, shared=False):
        def decide():
            def body(w):
                v = make(w)
                w.it.id_log.clear()
                x = snap(w.it, serialize(w, v))
                return v, x

            ps = chk.seen(run(prog, body, cfg))
            for p in ps:
                if p.kind != "return":
                    chk.undec("temporary", name, f"{p.exc_name()}")
                    continue
                v, x = p.value
                refs = [e for e in x.walk() if e.tag == "Ref"]
                chk.need(shared or not refs, "temporary", name, "an object made while serializing is written as a reference to another object", path=p)
                n = sum(1 for e in x.walk() if e.tag == "Obj")
                chk.need(n >= count, "temporary", name + " declared", f"{n} objects are declared, {count} were made", path=p)
                globs = [m.frame.vars for m in prog.modules.values() if m.frame is not None]
                for obj, selfs, top in p.interp.id_log:
                    ok = reachable([v] + selfs + list(top.values()) + [y for g in globs for y in g.values()], obj)
                    chk.need(ok, "temporary", name + " identity", f"the identity of {show(obj)} is kept but the object is not, another object can get the same identity", path=p)
                chk.ok("temporary", name + " identities", len(p.interp.id_log))

        chk.attempt("temporary", name, decide)

    temporary("properties of a plain object", lambda w: w.new("Maker"), 3)
    temporary("script properties", lambda w: w.new("Fresh"), 3)
    temporary("objects inside lists", lambda w: ListV([w.new("Fresh"), w.new("Fresh")]), 6)
    temporary("converted objects", lambda w: ListV([command(w, "a"), command(w, "b"), command(w, "a")]), 3, shared=True)

    # ---- the CLIXML text of several objects is one document
    def clixml():
        got = []

        def tostring(it, args, kw, node):
            got.append(args[0])
            return Sym("document", len(got), typ="str")

        c2 = Config(hooks=CRYPT, recursion=12, ext_hooks={"xml.etree.ElementTree.tostring": tostring})

        def body(w):
            got.clear()
            a, b = bag(w, n=Const(1)), bag(w, n=Const(1))
            e = prog.cls("IntEnum").enum_members["low"]
            vals = [a, b, bag(w, a=a), e, b, w.new("Record", Name=Const("n"), Extra=a), e]
            out = []
            for _ in (0, 1):
                n = len(got)
                w.it.call(prog.func("serialize_clixml"), [ListV(vals), cipher(w)], {}, None)
                if len(got) != n + 1:
                    raise Unsupported("serialize_clixml builds no single document")
                x = snap(w.it, got[-1])
                wk = Walk(w.it)
                try:
                    for i, (v, k) in enumerate(zip(vals, x.kids)):
                        wk.go(v, k, f"object {i}")
                    if len(vals) != len(x.kids):
                        raise Unsupported("objects")
                    out.append((wk, None))
                except Bad as e2:
                    out.append((wk, e2.args[0]))
            return out

        for p in chk.seen(run(prog, body, c2)):
            if p.kind != "return":
                chk.undec("ref", "serialize_clixml", str(p.exc_name()))
                continue
            for i, (wk, b) in enumerate(p.value):
                if b:
                    chk.bad(b[0] if not i else "separate", "serialize_clixml", f"{b[1]}: {b[2]}", path=p)
                else:
                    chk.ok("ref", "serialize_clixml", wk.n)

    chk.attempt("ref", "serialize_clixml", clixml)
    reading(chk, prog, cfg)


def command(w, name):
    return w.new("Command", Const(name))


def reachable(roots, target):
    seen, todo = set(), list(roots)
    while todo:
        v = todo.pop()
        if v is target:
            return True
        if isinstance(v, (Heap, TupleV, BoundV)):
            if id(v) in seen:
                continue
            seen.add(id(v))
        if isinstance(v, InstV):
            todo += [x for x in v.attrs.values() if isinstance(x, V)]
        elif isinstance(v, (ListV, TupleV)):
            todo += v.items
        elif isinstance(v, DictV):
            for k, x in v.entries.values():
                todo += [k, x]
        elif isinstance(v, BoundV):
            todo.append(v.self)
        elif isinstance(v, ClassV):
            todo += [x for x in v.ns.values() if isinstance(x, (InstV, ListV, DictV, TupleV))]
        elif isinstance(v, Sym) and v.op in ("list", "tuple", "set"):
            todo += [a for a in v.args if isinstance(a, V)]
    return False


# -------------------------------------------------------------------------------------------------- reading
def reading(chk, prog, cfg):
    def prop(w, o, name):
        return field(w.it, o, name)

    def read(rule, name, make, test):
        def decide():
            def body(w):
                return test(w, deserialize(w, make(w)))

            ps = chk.seen(run(prog, body, cfg))
            for p in ps:
                if p.kind != "return":
                    if len(ps) == 1:
                        chk.bad(rule, name, f"{p.exc_name()} while it is read", path=p)
                    continue
                for what, ok in p.value:
                    chk.need(ok, rule, f"{name}: {what}", f"{what} is not what the document declares", path=p)

        chk.attempt(rule, name, decide)

    B = build
    # (name, element, is it the same object)
    kinds_ = {
        "property bag": lambda w, r: B(w, "Obj", None, [B(w, "MS", None, [B(w, "I32", "1", N="n")])], RefId=r),
        "object with type names": lambda w, r: B(w, "Obj", None, [B(w, "TN", None, [B(w, "T", "X.Y")], RefId="0"), B(w, "Props", None, [B(w, "S", "v", N="n")])], RefId=r),
        "list": lambda w, r: B(w, "Obj", None, [B(w, "LST", None, [B(w, "I32", "1")])], RefId=r),
        "empty list": lambda w, r: B(w, "Obj", None, [B(w, "LST", None, [])], RefId=r),
        "stack": lambda w, r: B(w, "Obj", None, [B(w, "STK", None, [B(w, "I32", "1")])], RefId=r),
        "enumerable": lambda w, r: B(w, "Obj", None, [B(w, "IE", None, [B(w, "I32", "1")])], RefId=r),
        "queue": lambda w, r: B(w, "Obj", None, [B(w, "QUE", None, [B(w, "I32", "1")])], RefId=r),
        "dictionary": lambda w, r: B(w, "Obj", None, [B(w, "DCT", None, [B(w, "En", None, [B(w, "S", "k", N="Key"), B(w, "S", "v", N="Value")])])], RefId=r),
        "extended string": lambda w, r: B(w, "Obj", None, [B(w, "S", "s"), B(w, "MS", None, [B(w, "I32", "1", N="n")])], RefId=r),
        "extended int 0": lambda w, r: B(w, "Obj", None, [B(w, "I32", "0"), B(w, "MS", None, [B(w, "I32", "1", N="n")])], RefId=r),
        "record": lambda w, r: B(w, "Obj", None, [B(w, "TN", None, [B(w, "T", "User.Record"), B(w, "T", "User.Base")], RefId="0"), B(w, "Props", None, [B(w, "S", "v", N="Name")])], RefId=r),
        "user list": lambda w, r: B(w, "Obj", None, [B(w, "TN", None, [B(w, "T", "User.List")], RefId="0"), B(w, "LST", None, [B(w, "I32", "1")])], RefId=r),
        "object equal to all others": lambda w, r: B(w, "Obj", None, [B(w, "TN", None, [B(w, "T", "User.Equal")], RefId=r), B(w, "Props", None, [B(w, "S", "v", N="Id")])], RefId=r),
        "enum": lambda w, r: B(w, "Obj", None, [B(w, "TN", None, [B(w, "T", "User.IntEnum")], RefId="0"), B(w, "ToString", "low"), B(w, "I32", "-2147483648")], RefId=r),
        "converted object": lambda w, r: B(w, "Obj", None, [B(w, "TN", None, [B(w, "T", "User.Converted")], RefId=r), B(w, "Props", None, [B(w, "S", "v", N="Id")])], RefId=r),
        "command": lambda w, r: B(w, "Obj", None, [B(w, "MS", None, [B(w, "S", "c", N="Cmd")])], RefId=r),
    }

    def items(it, v):
        v = it.prim(v)
        return v.items if isinstance(v, ListV) else None

    for name, mk in kinds_.items():
        for r in ("0", "1", "17"):
            def doc(w, mk=mk, r=r):
                return B(w, "Obj", None, [B(w, "MS", None, [
                    _n(mk(w, r), "a"), B(w, "Ref", None, [], RefId=r, N="b"),
                    B(w, "Obj", None, [B(w, "LST", None, [B(w, "Ref", None, [], RefId=r), B(w, "I32", "5"), B(w, "Ref", None, [], RefId=r)])], RefId="90", N="l"),
                    B(w, "Obj", None, [B(w, "DCT", None, [B(w, "En", None, [B(w, "S", "k", N="Key"), B(w, "Ref", None, [], RefId=r, N="Value")])])], RefId="91", N="d"),
                    B(w, "Obj", None, [B(w, "QUE", None, [B(w, "Ref", None, [], RefId=r)])], RefId="92", N="q"),
                    B(w, "Obj", None, [B(w, "Props", None, [B(w, "Ref", None, [], RefId=r, N="deep")])], RefId="93", N="o"),
                    B(w, "Ref", None, [], RefId="90", N="l2"), B(w, "Ref", None, [], RefId="93", N="o2")])], RefId="99")

            def test(w, v):
                it = w.it
                a = prop(w, v, "a")
                l = items(it, prop(w, v, "l"))
                d = it.prim(prop(w, v, "d"))
                q = prop(w, v, "q")
                qi = it.prim(q.attrs["queue"]).items if isinstance(q, InstV) and "queue" in q.attrs else []
                yield "property reference", same_obj(prop(w, v, "b"), a)
                yield "list item reference", l is not None and len(l) == 3 and same_obj(l[0], a) and same_obj(l[2], a)
                yield "dictionary value reference", isinstance(d, DictV) and len(d.entries) == 1 and same_obj(list(d.entries.values())[0][1], a)
                yield "queue item reference", len(qi) == 1 and same_obj(qi[0], a)
                yield "adapted property reference", same_obj(prop(w, prop(w, v, "o"), "deep"), a)
                yield "reference to the list", prop(w, v, "l2") is prop(w, v, "l")
                yield "reference to the object", prop(w, v, "o2") is prop(w, v, "o")

            read("read-ref", f"{name} {r}", doc, lambda w, v, test=test: list(test(w, v)))

    # ---- references to objects still being read
    def cyc(mk, get):
        return mk, get

    cycles = {
        "object": (lambda w: B(w, "Obj", None, [B(w, "MS", None, [B(w, "Ref", None, [], RefId="0", N="me")])], RefId="0"), lambda w, v: [prop(w, v, "me")]),
        "object with adapted property": (lambda w: B(w, "Obj", None, [B(w, "TN", None, [B(w, "T", "User.Record")], RefId="0"), B(w, "Props", None, [B(w, "Ref", None, [], RefId="0", N="me")])], RefId="0"), lambda w, v: [prop(w, v, "me")]),
        "list": (lambda w: B(w, "Obj", None, [B(w, "LST", None, [B(w, "I32", "1"), B(w, "Ref", None, [], RefId="4")])], RefId="4"), lambda w, v: items(w.it, v)[1:]),
        "user list": (lambda w: B(w, "Obj", None, [B(w, "TN", None, [B(w, "T", "User.List")], RefId="0"), B(w, "LST", None, [B(w, "Ref", None, [], RefId="4")])], RefId="4"), lambda w, v: items(w.it, v)),
        "stack": (lambda w: B(w, "Obj", None, [B(w, "STK", None, [B(w, "Ref", None, [], RefId="4")])], RefId="4"), lambda w, v: items(w.it, v)),
        "queue": (lambda w: B(w, "Obj", None, [B(w, "QUE", None, [B(w, "Ref", None, [], RefId="4")])], RefId="4"), lambda w, v: w.it.prim(v.attrs["queue"]).items),
        "dictionary": (lambda w: B(w, "Obj", None, [B(w, "DCT", None, [B(w, "En", None, [B(w, "S", "k", N="Key"), B(w, "Ref", None, [], RefId="4", N="Value")])])], RefId="4"),
                       lambda w, v: [x for _, x in w.it.prim(v).entries.values()]),
        "user dictionary": (lambda w: B(w, "Obj", None, [B(w, "TN", None, [B(w, "T", "User.Dict")], RefId="0"), B(w, "DCT", None, [B(w, "En", None, [B(w, "S", "k", N="Key"), B(w, "Ref", None, [], RefId="4", N="Value")])])], RefId="4"),
                            lambda w, v: [x for _, x in w.it.prim(v).entries.values()]),
        "extended string": (lambda w: B(w, "Obj", None, [B(w, "S", "s"), B(w, "MS", None, [B(w, "Ref", None, [], RefId="4", N="me")])], RefId="4"), lambda w, v: [prop(w, v, "me")]),
    }
    for name, (mk, get) in cycles.items():
        read("read-ref", f"cycle through {name}", mk, lambda w, v, get=get: [("reference to itself", all(x is v for x in get(w, v)) and len(get(w, v)) == 1)])

    def sibling(w):
        return B(w, "Obj", None, [B(w, "LST", None, [
            B(w, "Obj", None, [B(w, "MS", None, [B(w, "I32", str(i), N="n")])], RefId=str(i)) for i in range(12)] + [B(w, "Ref", None, [], RefId=str(i)) for i in (11, 1, 10, 0, 2)])], RefId="50")

    read("read-ref", "many objects", sibling, lambda w, v: [(f"reference {r}", items(w.it, v)[12 + i] is items(w.it, v)[r]) for i, r in enumerate((11, 1, 10, 0, 2))])

    # ---- an entry and a property that refer to each other's objects, in either order
    obj_ = lambda w, r, n=None: B(w, "Obj", None, [B(w, "MS", None, [B(w, "I32", "1", N="n")])], RefId=r, **({"N": n} if n else {}))
    for tag in ("LST", "STK", "IE", "QUE"):
        for grp in ("MS", "Props"):
            def first(w, tag=tag, grp=grp):
                return B(w, "Obj", None, [B(w, grp, None, [obj_(w, "3", "p"), B(w, "Ref", None, [], RefId="0", N="me")]), B(w, tag, None, [B(w, "Ref", None, [], RefId="3")])], RefId="0")

            def last(w, tag=tag, grp=grp):
                return B(w, "Obj", None, [B(w, tag, None, [obj_(w, "3")]), B(w, grp, None, [B(w, "Ref", None, [], RefId="3", N="p"), B(w, "Ref", None, [], RefId="0", N="me")])], RefId="0")

            def test2(w, v):
                l = w.it.prim(v.attrs["queue"]).items if isinstance(v, InstV) and "queue" in v.attrs else items(w.it, v)
                return [("shared object", l is not None and len(l) == 1 and l[0] is prop(w, v, "p")), ("reference to the container", prop(w, v, "me") is v)]

            read("read-ref", f"{grp} before {tag}", first, test2)
            read("read-ref", f"{tag} before {grp}", last, test2)
    read("read-ref", "MS before DCT", lambda w: B(w, "Obj", None, [B(w, "MS", None, [obj_(w, "3", "p")]), B(w, "DCT", None, [B(w, "En", None, [B(w, "S", "k", N="Key"), B(w, "Ref", None, [], RefId="3", N="Value")])])], RefId="0"),
         lambda w, v: [("shared object", [x for _, x in w.it.prim(v).entries.values()][0] is prop(w, v, "p"))])
    read("read-ref", "key before value", lambda w: B(w, "Obj", None, [B(w, "DCT", None, [B(w, "En", None, [obj_(w, "3", "Key"), B(w, "Ref", None, [], RefId="3", N="Value")])])], RefId="0"),
         lambda w, v: [("shared object", all(k is x for k, x in w.it.prim(v).entries.values()))])
    read("read-ref", "object declared in a property of a boolean", lambda w: B(w, "Obj", None, [B(w, "LST", None, [B(w, "Obj", None, [B(w, "B", "true"), B(w, "MS", None, [obj_(w, "3", "p")])], RefId="1"), B(w, "Ref", None, [], RefId="3")])], RefId="0"),
         lambda w, v: [("object", len(items(w.it, v)) == 2 and field(w.it, items(w.it, v)[1], "n") is not None)])
    read("read-ref", "object declared in a property of an enum", lambda w: B(w, "Obj", None, [B(w, "LST", None, [B(w, "Obj", None, [B(w, "TN", None, [B(w, "T", "User.IntEnum")], RefId="0"), B(w, "I32", "-2147483648"),
                                                                                              B(w, "MS", None, [obj_(w, "3", "p")])], RefId="1"), B(w, "Ref", None, [], RefId="3")])], RefId="0"),
         lambda w, v: [("object", len(items(w.it, v)) == 2 and field(w.it, items(w.it, v)[1], "n") is not None)])
    read("read-ref", "adapted after extended", lambda w: B(w, "Obj", None, [B(w, "MS", None, [obj_(w, "3", "p")]), B(w, "Props", None, [B(w, "Ref", None, [], RefId="3", N="q")])], RefId="0"),
         lambda w, v: [("shared object", prop(w, v, "p") is prop(w, v, "q"))])

    # ---- type names
    def tn(w, refid, *names):
        return B(w, "TN", None, [B(w, "T", n) for n in names], RefId=refid)

    def names_doc(w):
        o = lambda r, *k: B(w, "Obj", None, list(k) + [B(w, "MS", None, [B(w, "I32", "1", N="n")])], RefId=r)
        ref = lambda r: B(w, "TNRef", None, [], RefId=r)
        return B(w, "Obj", None, [B(w, "LST", None, [
            o("5", tn(w, "0", "A", "B")), o("6", tn(w, "1", "C")), o("7", ref("0")), o("8", ref("1")), o("0", tn(w, "2", "A")), o("1", ref("0")), o("2", ref("2")),
            o("3", tn(w, "3", "User.Record", "User.Base")), o("4", ref("3")), o("9", tn(w, "10", "D")), o("11", ref("1")), o("12", ref("10"))])], RefId="60")

    want = {0: ("A", "B"), 1: ("C",), 2: ("A", "B"), 3: ("C",), 4: ("A",), 5: ("A", "B"), 6: ("A",), 9: ("D",), 10: ("C",), 11: ("D",)}

    def names_test(w, v):
        l = items(w.it, v)
        for i, n in want.items():
            got = type_names(w.it, l[i])
            yield f"type names of object {i}", got == tuple(key(Const("Deserialized." + x)) for x in n)
        for i in (7, 8):
            yield f"class of object {i}", isinstance(l[i], InstV) and l[i].cls.name == "Record"
            yield f"type names of object {i}", (type_names(w.it, l[i]) or ())[:2] == (key(Const("User.Record")), key(Const("User.Base")))

    read("read-type-names", "type name references", names_doc, lambda w, v: list(names_test(w, v)))

    def own_lists(w, v):
        l = items(w.it, v)
        ls = [w.it.getattr(w.it.getattr(x, "PSObject", None), "type_names", None) for x in l]
        w.call(w.it.prim(ls[2]), "append", Const("changed"))
        return [("type names of another object", len(w.it.prim(ls[i]).items) == len(want[i])) for i in (0, 5)]

    # ---- references of another document
    def separate(name, first, second):
        def decide():
            def body(w):
                deserialize(w, first(w))
                w.first_done = True
                return deserialize(w, second(w))

            for p in chk.seen(run(prog, body, cfg)):
                if not getattr(p.world, "first_done", False):
                    chk.undec("read-separate", name, str(p.exc_name()))
                else:
                    chk.need(p.kind != "return", "read-separate", name, "a reference resolves to what another document declared, or to nothing that was declared", path=p)

        chk.attempt("read-separate", name, decide)

    obj = lambda w: B(w, "Obj", None, [tn(w, "0", "A"), B(w, "MS", None, [B(w, "I32", "1", N="n")])], RefId="0")
    separate("object reference", obj, lambda w: B(w, "Ref", None, [], RefId="0"))
    separate("object reference inside", obj, lambda w: B(w, "Obj", None, [B(w, "MS", None, [B(w, "Ref", None, [], RefId="0", N="x")])], RefId="1"))
    separate("type name reference", obj, lambda w: B(w, "Obj", None, [B(w, "TNRef", None, [], RefId="0"), B(w, "MS", None, [B(w, "I32", "1", N="n")])], RefId="1"))
    separate("undeclared object", obj, lambda w: B(w, "Obj", None, [B(w, "LST", None, [B(w, "Ref", None, [], RefId="77")])], RefId="0"))


def _n(e, name):
    e.attrs["attrib"].entries[key(Const("N"))] = (Const("N"), Const(name))
    return e
