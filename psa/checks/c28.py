"""C28: a property holds what was assigned to it, however it is declared and reached."""
from ..frozen import *
from ..link import *
from ..vals import *

META = {
    "level": "other",
    "technique": "abstract interpretation of the attribute protocol over declared layouts, compared with a model of the declarations",
    "explanation": "Types with every kind of property (notes with and without default, declared type and mandatory mark, names used twice, inherited ones, aliases, script properties with and without setter) are built on the abstract heap "
                   "with every way of passing arguments; each property is assigned and read through the attribute, the index and the property itself, for values of several kinds, and after each step what every property holds is compared "
                   "with a model of the declaration: the assigned object itself (its conversion where a type is declared), the default, or the target's value; nothing else may differ. Refusals (arguments, read-only properties, "
                   "declarations that contradict themselves, members that exist) are enumerated, and the comparison of type names is tabulated.",
    "rules": ["construct", "construct-refused", "default", "read", "assign", "convert", "alias", "script", "declaration", "member", "inherit", "isinstance"],
}

# class: (adapted, extended), each (name, default, mandatory)
LAYOUT = {
    "One": ([("A", None, False)], []),
    "Ordered": ([("A", None, False), ("B", None, False)], [("C", None, False), ("D", None, False)]),
    "Mandatory": ([("A", None, True), ("B", None, False), ("C", None, True)], [("D", None, True), ("E", None, False)]),
    "Hidden": ([("A", None, False), ("B", "b", False)], [("B", "B", False), ("C", None, False)]),
    "Defaults": ([("A", "a", False), ("B", None, False), ("N", None, False)], [("C", 0, False), ("D", False, False)]),
}


def check(chk):
    prog = chk.prog
    members = prog.extra("member_types")
    raw = lambda: Config(recursion=14, raw_psobject=True, seconds=150)
    U = lambda n: members.frame.vars[n]

    def settle(rule, name, body):
        def decide():
            def go(w):
                w.built = False
                return body(w)

            ps = chk.seen(run(prog, go, raw()))
            if not any(p.world.built for p in ps):
                raise Unsupported("the scenario cannot be built: " + "; ".join(sorted({str(p.exc_name()) for p in ps})))
            for p in ps:
                if p.kind == "return":
                    for r, label, b in p.value:
                        chk.need(b is None, r, f"{name}: {label}", b, path=p)
                elif p.world.built:
                    chk.bad(rule, name, f"raises {p.exc_name()}", path=p)

        chk.attempt(rule, name, decide)

    def attempt(f):
        try:
            return f(), None
        except PyRaise as e:
            return None, getattr(e.cls, "name", str(e.cls))

    def make(w, cls, *a, **kw):
        return w.it.call(U(cls) if isinstance(cls, str) else cls, list(a), kw, None)

    def infos(w, v, group):
        return w.it.getattr(w.it.getattr(v, "PSObject", None), f"{group}_properties", None).items

    def pname(w, p):
        return w.it.prim(w.it.getattr(p, "name", None)).v

    def stored(w, v):
        """(group, name, place) -> what the property gives for the object."""
        out = {}
        for g in ("adapted", "extended"):
            for i, p in enumerate(infos(w, v, g)):
                out[(g, pname(w, p), i)] = w.it.call(w.it.getattr(p, "get_value", None), [v], {}, None)
        return out

    def plain(w, v):
        return {n: key(x) for n, x in v.attrs.items() if n != "PSObject"}

    def values(w):
        return [("None", NONE), ("False", FALSE), ("0", Const(0)), ("''", Const("")), ("a string", w.new("PSString", Const("value"))), ("an object", make(w, "One")), ("a list", ListV([Const(1)])), ("a number", w.new("PSInt", Const(3)))]

    def marks(w, n):
        return [w.new("PSString", Const(f"value {i}")) for i in range(n)]

    def expected_of(cls):
        a, e = LAYOUT[cls]
        out = {}
        for g, l in (("adapted", a), ("extended", e)):
            for i, (n, d, m) in enumerate(l):
                out[(g, n, i)] = key(Const(d))
        return out

    def visible(cls):
        """Names in the order of arguments, with the place assigned through the name."""
        a, e = LAYOUT[cls]
        out = {}
        for i, (n, d, m) in enumerate(a):
            out[n] = ("adapted", n, i)
        for i, (n, d, m) in enumerate(e):
            out[n] = ("extended", n, i)
        return out

    def compare(rule, label, want, got):
        got = {k: key(v) for k, v in got.items()}
        if set(want) != set(got):
            return (rule, label, f"the properties are {sorted(got)}, declared are {sorted(want)}")
        bad = [k for k in want if want[k] != got[k]]
        return (rule, label, None if not bad else f"the {bad[0][0]} property {bad[0][1]} holds {str(got[bad[0]])[:80]}, expected {str(want[bad[0]])[:80]}")

    # ------------------------------------------------------------------ construction
    def construct(cls, pos, names):
        def body(w):
            vis = visible(cls)
            vals = marks(w, len(vis))
            order = list(vis)
            args = vals[:pos]
            kw = {n: vals[order.index(n)] for n in names}
            w.built = True
            v, x = attempt(lambda: make(w, cls, *args, **kw))
            given = set(order[:pos]) | set(names)
            need = {n for l in LAYOUT[cls] for n, d, m in l if m}
            label = f"{pos} by position, {', '.join(names) or 'none'} by name"
            if need - given:
                return [("construct-refused", label, None if x == "TypeError" else f"without {', '.join(sorted(need - given))}: {'accepted' if x is None else 'raises ' + x}")]
            if x is not None:
                return [("construct", label, f"raises {x}")]
            want = expected_of(cls)
            for n in given:
                want[vis[n]] = key(vals[order.index(n)])
            out = [compare("construct", label, want, stored(w, v))]
            for n in vis:
                out.append(("read", f"{label}: {n}", None if key(w.it.getattr(v, n, None)) == want[vis[n]] else "the attribute gives another value than the property holds"))
            return out

        settle("construct", f"{cls}", body)

    import itertools
    for cls in LAYOUT:
        order = list(visible(cls))
        for pos in range(len(order) + 1):
            rest = order[pos:]
            for k in range(len(rest) + 1):
                for names in itertools.combinations(rest, k):
                    construct(cls, pos, names)
                    if k > 1:
                        construct(cls, pos, tuple(reversed(names)))

    def refused(cls, label, args, kw, want="TypeError", value=None):
        def body(w):
            vals = marks(w, 9)
            w.built = True
            if value is not None:
                vals = [value] * 9
            _, x = attempt(lambda: make(w, cls, *vals[:args], **{n: vals[8] for n in kw}))
            return [("construct-refused", label, None if x == want else f"{'accepted' if x is None else 'raises ' + x}")]

        settle("construct-refused", cls, body)

    for cls in LAYOUT:
        order = list(visible(cls))
        refused(cls, "one argument too many", len(order) + 1, [])
        refused(cls, "an unknown name", 0, order + ["Unknown"])
        refused(cls, "an unknown name after all by position", len(order), ["Unknown"])
        refused(cls, "a name in another case", 0, order + [order[0].lower()])
        for i, n in enumerate(order):
            refused(cls, f"{n} by position and by name", i + 1, order[i:])
            for t, e in (("None", NONE), ("0", Const(0))):
                refused(cls, f"{n} by position and by name, all {t}", i + 1, order[i:], value=e)

    def falsy(cls, i):
        def body(w):
            vis = visible(cls)
            vname, value = values(w)[i]
            w.built = True
            out = []
            for how in ("position", "name"):
                v, x = attempt(lambda: make(w, cls, *[value] * len(vis)) if how == "position" else make(w, cls, **{n: value for n in vis}))
                label = f"all {vname} by {how}"
                if x is not None:
                    out.append(("construct", label, f"raises {x}"))
                    continue
                want = expected_of(cls)
                want.update({p: key(value) for p in vis.values()})
                out.append(compare("construct", label, want, stored(w, v)))
            return out

        settle("construct", cls, body)

    for cls in LAYOUT:
        for i in range(8):
            if not (cls == "Mandatory" and i == 0):
                falsy(cls, i)

    # ------------------------------------------------------------------ reading and assigning
    def ways(w, v, n):
        it = w.it
        return [("attribute", lambda: it.getattr(v, n, None)), ("index", lambda: it.user_op(v, "__getitem__", [Const(n)])), ("getattr", lambda: it.call(it.builtins["getattr"], [v, Const(n)], {}, None) if hasattr(it, "builtins") and "getattr" in it.builtins else it.getattr(v, n, None))]

    def assign(cls, n, how, i):
        def body(w):
            it = w.it
            vis = visible(cls)
            need = {m: marks(w, 1)[0] for l in LAYOUT[cls] for m, d, x in l if x}
            v = make(w, cls, **need)
            other = make(w, cls, **need)
            vname, value = values(w)[i]
            want = expected_of(cls)
            for m, x in need.items():
                want[vis[m]] = key(x)
            theirs = dict(want)
            attrs = plain(w, v)
            w.built = True
            place = vis[n]
            if how == "attribute":
                _, x = attempt(lambda: it.setattr(v, n, value, None))
            elif how == "index":
                _, x = attempt(lambda: it.user_op(v, "__setitem__", [Const(n), value]))
            else:
                p = infos(w, v, place[0])[place[2]]
                _, x = attempt(lambda: it.call(it.getattr(p, "set_value", None), [value, v], {}, None))
            label = f"{n} = {vname} by {how}"
            if x is not None:
                return [("assign", label, f"raises {x}")]
            want[place] = key(value)
            out = [compare("assign", label, want, stored(w, v)), compare("assign", label + ", another object", theirs, stored(w, other))]
            out.append(("assign", label + ", attributes", None if plain(w, v) == attrs else "plain attributes of the object change"))
            for m in vis:
                for wn, f in ways(w, v, m):
                    r, x = attempt(f)
                    out.append(("read", f"{label}: {m} by {wn}", None if x is None and key(r) == want[vis[m]] else f"{'gives ' + show(r)[:80] if x is None else 'raises ' + x}"))
            d, x = attempt(lambda: it.getattr(v, "__dict__", None))
            if x is None and isinstance(d, DictV):
                got = {k.v: key(y) for k, y in d.entries.values() if isinstance(k, Const)}
                out.append(("read", label + ": vars", None if all(got.get(m) == want[vis[m]] for m in vis) else f"vars() of the object gives other values: {str(got)[:120]}"))
            return out

        settle("assign", cls, body)

    for cls in LAYOUT:
        for n in visible(cls):
            for how in ("attribute", "index", "property"):
                for i in range(8):
                    assign(cls, n, how, i)

    # ------------------------------------------------------------------ declared types
    def convert(n, tname, label, value, want, how):
        """want: a function (world, result, given) -> None or what is wrong; 'refused'."""
        def body(w):
            it = w.it
            v = make(w, "Typed")
            before = {k: key(x) for k, x in stored(w, v).items()}
            given = value(w)
            w.built = True
            if how == "attribute":
                _, x = attempt(lambda: it.setattr(v, n, given, None))
            elif how == "property":
                p = [p for g in ("adapted", "extended") for p in infos(w, v, g) if pname(w, p) == n][0]
                _, x = attempt(lambda: it.call(it.getattr(p, "set_value", None), [given, v], {}, None))
            elif how == "member":
                v = w.new("PSObject")
                before = {}
                _, x = attempt(lambda: it.call(prog.func("add_note_property"), [v, Const(n), given], {"ps_type": w.cls(tname) if tname != "One" else U("One")}, None))
            else:
                v, x = attempt(lambda: make(w, "Typed", **{n: given}))
            text = f"{tname} property {n} given {label} by {how}"
            if want == "refused":
                out = [("convert", text, None if x is not None else "is accepted")]
                if v is not None:
                    now = {k: key(y) for k, y in stored(w, v).items()}
                    out.append(("convert", text + " keeps everything", None if now == before else "the object changes"))
                return out
            if x is not None:
                return [("convert", text, f"raises {x}")]
            now = stored(w, v)
            r = [y for k, y in now.items() if k[1] == n][0]
            out = [("convert", text, want(w, r, given))]
            out.append(("read", text, None if key(it.getattr(v, n, None)) == key(r) else "the attribute gives another value than the property"))
            out.append(("convert", text + ", the others", None if all(key(y) == before.get(k, key(y)) for k, y in now.items() if k[1] != n) else "another property changes"))
            return out

        settle("convert", "Typed", body)

    def is_a(cname, v):
        def f(w, r, given):
            if not isinstance(r, InstV) or r.cls.name != cname:
                return f"holds {show(r)[:80]}, no {cname}"
            p = w.it.prim(r)
            return None if isinstance(p, Const) and p.v == v else f"holds {show(p)[:80]}, not {v!r}"
        return f

    def the_same(w, r, given):
        return None if key(r) == key(given) else f"holds {show(r)[:80]}, not the object given"

    for how in ("attribute", "property", "constructor", "member"):
        for n in ("I", "J"):
            convert(n, "PSInt", "5", lambda w: Const(5), is_a("PSInt", 5), how)
            convert(n, "PSInt", "0", lambda w: Const(0), is_a("PSInt", 0), how)
            convert(n, "PSInt", "'12'", lambda w: Const("12"), is_a("PSInt", 12), how)
            convert(n, "PSInt", "a PSInt", lambda w: w.new("PSInt", Const(9)), the_same, how)
            convert(n, "PSInt", "a PSInt64", lambda w: w.new("PSInt64", Const(9)), is_a("PSInt", 9), how)
            convert(n, "PSInt", "None", lambda w: NONE, the_same, how)
            convert(n, "PSInt", "a number too large", lambda w: Const(2 ** 31), "refused", how)
            convert(n, "PSInt", "text", lambda w: Const("text"), "refused", how)
        convert("I", "PSInt", "an object of a derived type", lambda w: make(w, "Special", Const(4)), the_same, how)
        convert("O", "One", "an object of a derived type", lambda w: make(w, "SpecialOne"), the_same, how)
        convert("S", "PSString", "'text'", lambda w: Const("text"), is_a("PSString", "text"), how)
        convert("S", "PSString", "''", lambda w: Const(""), is_a("PSString", ""), how)
        convert("S", "PSString", "a PSString", lambda w: w.new("PSString", Const("t")), the_same, how)
        convert("S", "PSString", "None", lambda w: NONE, the_same, how)
        convert("O", "One", "a One", lambda w: make(w, "One"), the_same, how)
        convert("O", "One", "None", lambda w: NONE, the_same, how)

    # ------------------------------------------------------------------ aliases and script properties
    def computed(w):
        it = w.it
        v = make(w, "Computed")
        other = make(w, "Computed")
        a, b, h = marks(w, 3)
        get = lambda o, n: it.getattr(o, n, None)
        w.built = True
        out = []

        def is_(rule, label, got, want):
            out.append((rule, label, None if key(got) == key(want) else f"gives {show(got)[:80]}, not {show(want)[:80]}"))

        is_("alias", "before the target is set", get(v, "Same"), NONE)
        is_("script", "before anything is set", get(v, "Read"), NONE)
        it.setattr(v, "A", a, None)
        for n in ("Same", "Chain"):
            is_("alias", f"{n} of a property", get(v, n), a)
        is_("alias", "of an attribute", get(v, "Plain"), Const("attribute"))
        it.setattr(v, "attribute", h, None)
        is_("alias", "of a changed attribute", get(v, "Plain"), h)
        it.setattr(v, "A", b, None)
        for n in ("Same", "Chain"):
            is_("alias", f"{n} of a changed property", get(v, n), b)
        is_("alias", "of another object", get(other, "Same"), NONE)
        it.setattr(v, "A", Const("15"), None)
        out.append(("convert", "alias with a type", is_a("PSInt", 15)(w, get(v, "Number"), None)))
        is_("alias", "the target of an alias with a type", get(v, "A"), Const("15"))
        it.setattr(v, "A", NONE, None)
        is_("alias", "with a type, of nothing", get(v, "Number"), NONE)
        it.setattr(v, "A", Const(0), None)
        out.append(("convert", "alias with a type, of 0", is_a("PSInt", 0)(w, get(v, "Number"), None)))
        it.setattr(v, "Both", h, None)
        is_("script", "read by both", get(v, "Both"), h)
        is_("script", "read by the other", get(v, "Read"), h)
        is_("script", "stored by the setter", v.attrs.get("held", NONE), h)
        is_("script", "of another object", get(other, "Both"), NONE)
        it.setattr(v, "held", a, None)
        is_("script", "after the object changed", get(v, "Both"), a)
        it.setattr(v, "Cast", Const("8"), None)
        is_("script", "the setter gets the value itself", v.attrs.get("held", NONE), Const("8"))
        out.append(("convert", "script property with a type", is_a("PSInt", 8)(w, get(v, "Cast"), None)))
        it.setattr(v, "Cast", Const(0), None)
        out.append(("convert", "script property with a type, of 0", is_a("PSInt", 0)(w, get(v, "Cast"), None)))
        it.setattr(v, "Both", Const(5), None)
        it.setattr(v, "A", Const(6), None)
        d, x = attempt(lambda: it.getattr(v, "__dict__", None))
        if x is None and isinstance(d, DictV):
            got = {k.v: y for k, y in d.entries.values() if isinstance(k, Const)}
            for n, want in (("Same", 6), ("Chain", 6), ("Both", 5), ("Read", 5), ("Cast", 5), ("A", 6), ("Number", 6)):
                g = it.prim(got[n]) if n in got else None
                out.append(("read", f"vars: {n}", None if isinstance(g, Const) and g.v == want else f"{show(g)[:60] if n in got else 'missing'}, the property is {want}"))
        for n in ("Same", "Plain", "Number", "Chain", "Read"):
            was = {k: key(it.prim(x)) for k, x in stored(w, v).items()}
            for how, f in (("attribute", lambda: it.setattr(v, n, h, None)), ("index", lambda: it.user_op(v, "__setitem__", [Const(n), h]))):
                _, x = attempt(f)
                now = {k: key(it.prim(y)) for k, y in stored(w, v).items()}
                out.append(("alias" if n != "Read" else "script", f"{n} assigned by {how}", None if x == "ValueError" and now == was else f"{'accepted' if x is None else 'raises ' + x}{'' if now == was else ' and changes the object'}"))
        # the same for members of one object
        o = w.new("PSObject")
        f = lambda n, *args, **kw: it.call(prog.func(n), list(args), kw, None)
        f("add_note_property", o, Const("N"), a)
        f("add_alias_property", o, Const("L"), Const("N"))
        is_("alias", "added", get(o, "L"), a)
        it.setattr(o, "N", b, None)
        is_("alias", "added, the target changed", get(o, "L"), b)
        _, x = attempt(lambda: it.setattr(o, "L", a, None))
        out.append(("alias", "added, assigned", None if x == "ValueError" else f"{'accepted' if x is None else 'raises ' + x}"))
        is_("alias", "added, the target after that", get(o, "N"), b)
        f("add_script_property", o, Const("S"), it.getattr(infos(w, v, "extended")[1], "getter", None), it.getattr(infos(w, v, "extended")[1], "setter", None))
        it.setattr(o, "S", h, None)
        is_("script", "added", get(o, "S"), h)
        is_("script", "added, stored by the setter", o.attrs.get("held", NONE), h)
        f("add_alias_property", o, Const("T"), Const("S"), ps_type=w.cls("PSInt"))
        f("add_script_property", o, Const("U"), it.getattr(infos(w, v, "extended")[1], "getter", None), it.getattr(infos(w, v, "extended")[1], "setter", None), ps_type=w.cls("PSInt"))
        it.setattr(o, "U", Const("11"), None)
        is_("script", "added with a type, read by the other", get(o, "S"), Const("11"))
        out.append(("convert", "alias with a type, added", is_a("PSInt", 11)(w, get(o, "T"), None)))
        out.append(("convert", "script property with a type, added", is_a("PSInt", 11)(w, get(o, "U"), None)))
        for n, maker in (("N", lambda: f("add_note_property", o, Const("N"), NONE)), ("L", lambda: f("add_alias_property", o, Const("L"), Const("S"))), ("S", lambda: f("add_script_property", o, Const("S"), it.getattr(infos(w, v, "extended")[0], "getter", None)))):
            _, x = attempt(maker)
            out.append(("member", f"{n} added again", None if x == "RuntimeError" else f"{'accepted' if x is None else 'raises ' + x} although it exists"))
        f("add_alias_property", o, Const("L"), Const("S"), force=TRUE)
        is_("alias", "added again by force", get(o, "L"), Const("11"))
        f("add_member", o, w.new("PSNoteProperty", Const("N")), force=TRUE)
        is_("member", "a note without a value, by force", get(o, "N"), NONE)
        return out

    settle("alias", "computed properties", computed)

    # ------------------------------------------------------------------ declarations that contradict themselves
    def declarations(w):
        it = w.it
        v = make(w, "Computed")
        script = infos(w, v, "extended")[1]
        getter, setter = it.getattr(script, "getter", None), it.getattr(script, "setter", None)
        w.built = True
        out = []

        def no(label, want, f):
            _, x = attempt(f)
            out.append(("declaration", label, None if x == want else f"{'accepted' if x is None else 'raises ' + x}, expected {want}"))

        N = lambda **kw: w.new("PSNoteProperty", Const("n"), **kw)
        no("a getter for a note with a value", "ValueError", lambda: it.setattr(N(value=Const(1)), "getter", getter, None))
        no("a setter without a getter", "ValueError", lambda: it.setattr(N(), "setter", setter, None))
        no("a script property without a getter", "TypeError", lambda: w.new("PSScriptProperty", Const("n"), NONE))
        no("a mandatory script property without a setter", "TypeError", lambda: w.new("PSScriptProperty", Const("n"), getter, mandatory=TRUE))
        no("a getter with two parameters", "TypeError", lambda: w.new("PSScriptProperty", Const("n"), setter))
        no("a getter with two parameters, one of them optional", None, lambda: w.new("PSScriptProperty", Const("n"), U("get_more")))
        no("a getter of any number of parameters", None, lambda: w.new("PSScriptProperty", Const("n"), U("get_any")))
        no("a setter with three parameters, one of them optional", None, lambda: w.new("PSScriptProperty", Const("n"), getter, U("set_more")))
        no("a setter that can do without its value", None, lambda: w.new("PSScriptProperty", Const("n"), getter, U("set_optional")))
        no("a setter with three parameters", "TypeError", lambda: w.new("PSScriptProperty", Const("n"), getter, U("set_three")))
        no("a getter of named parameters", "TypeError", lambda: w.new("PSScriptProperty", Const("n"), U("get_named")))
        no("a setter with one parameter", "TypeError", lambda: w.new("PSScriptProperty", Const("n"), getter, getter))
        no("a getter that is no function", "TypeError", lambda: w.new("PSScriptProperty", Const("n"), Const(5)))
        no("a getter taken away", "ValueError", lambda: it.setattr(w.new("PSScriptProperty", Const("n"), getter), "getter", NONE, None))
        p = w.new("PSScriptProperty", Const("n"), getter, setter)
        it.setattr(p, "setter", NONE, None)
        no("assigning after the setter was taken away", "ValueError", lambda: it.call(it.getattr(p, "set_value", None), [Const(1), v], {}, None))
        return out

    settle("declaration", "declarations", declarations)

    # ------------------------------------------------------------------ adding members
    def member(cls, n, force):
        def body(w):
            it = w.it
            v = make(w, cls, **{m: marks(w, 1)[0] for l in LAYOUT[cls] for m, d, x in l if x})
            other = make(w, cls, **{m: marks(w, 1)[0] for l in LAYOUT[cls] for m, d, x in l if x})
            mine, theirs = {k: key(x) for k, x in stored(w, v).items()}, {k: key(x) for k, x in stored(w, other).items()}
            value = w.new("PSString", Const("added"))
            exists = n in visible(cls)
            w.built = True
            _, x = attempt(lambda: it.call(prog.func("add_note_property"), [v, Const(n), value], {"force": Const(force)} if force is not None else {}, None))
            label = f"{n} added, force {force}"
            out = [compare("member", label + ", another object", theirs, stored(w, other))]
            if exists and not force:
                out.append(("member", label, None if x == "RuntimeError" else f"{'accepted' if x is None else 'raises ' + x} although it exists"))
                out.append(compare("member", label + ", the object", mine, stored(w, v)))
                return out
            if x is not None:
                return out + [("member", label, f"raises {x}")]
            place = visible(cls).get(n)
            if place is None or place[0] == "adapted":
                place = ("extended", n, len(LAYOUT[cls][1]))
            mine[place] = key(value)
            out.append(compare("member", label, mine, stored(w, v)))
            out.append(("member", label + ", read", None if key(it.getattr(v, n, None)) == key(value) else "another value is read"))
            return out

        settle("member", cls, body)

    for cls in LAYOUT:
        for n in list(visible(cls)) + ["Added", "a"]:
            for force in (None, False, True):
                member(cls, n, force)

    def not_object(w):
        w.built = True
        _, x = attempt(lambda: w.it.call(prog.func("add_note_property"), [Const("text"), Const("n"), Const(1)], {}, None))
        return [("member", "of no PSObject", None if x == "ValueError" else f"{'accepted' if x is None else 'raises ' + x}")]

    settle("member", "plain value", not_object)

    # ------------------------------------------------------------------ inheritance
    def inherit(w):
        it = w.it
        vals = marks(w, 5)
        w.built = True
        out = []
        v = make(w, "Derived", **dict(zip("ABCXY", vals)))
        for n, x in zip("ABCXY", vals):
            out.append(("inherit", f"{n} given to the derived type", None if key(it.getattr(v, n, None)) == key(x) else f"gives {show(it.getattr(v, n, None))[:80]}"))
        v = make(w, "Derived")
        for n, x in (("A", NONE), ("B", Const("base")), ("C", NONE), ("X", NONE), ("Y", Const("derived"))):
            out.append(("default", f"{n} of the derived type", None if key(it.getattr(v, n, None)) == key(x) else f"gives {show(it.getattr(v, n, None))[:80]}"))
        groups = {(g, pname(w, p)) for g in ("adapted", "extended") for p in infos(w, v, g)}
        want = {("adapted", "A"), ("adapted", "B"), ("adapted", "C"), ("extended", "X"), ("extended", "Y")}
        out.append(("inherit", "the properties of the derived type", None if groups == want else f"are {sorted(groups)}"))
        out.append(("inherit", "each once", None if sum(len(infos(w, v, g)) for g in ("adapted", "extended")) == 5 else "some are there twice"))
        b = make(w, "Base")
        groups = {(g, pname(w, p)) for g in ("adapted", "extended") for p in infos(w, b, g)}
        out.append(("inherit", "the properties of the base type", None if groups == {("adapted", "A"), ("adapted", "B"), ("extended", "X")} else f"are {sorted(groups)}"))
        o = make(w, "Alone")
        groups = {(g, pname(w, p)) for g in ("adapted", "extended") for p in infos(w, o, g)}
        out.append(("inherit", "the properties of a type that skips inheritance", None if groups == {("adapted", "C")} else f"are {sorted(groups)}"))
        tn = lambda x: [it.prim(t).v for t in it.getattr(x, "PSTypeNames", None).items]
        for x, want in ((v, ["M.Derived", "M.Base", "System.Object"]), (b, ["M.Base", "System.Object"]), (o, ["M.Alone"])):
            got = tn(x)
            out.append(("inherit", f"type names of {want[0]}", None if got == want else f"are {got}"))
        return out

    settle("inherit", "inheritance", inherit)

    def redeclared(cls, defaults, groups):
        def body(w):
            it = w.it
            v = make(w, cls)
            w.built = True
            out = []
            for n, x in defaults.items():
                r = it.getattr(v, n, None)
                out.append(("default", f"{n}", None if key(r) == key(Const(x)) else f"gives {show(r)[:80]}, declared is {x!r}"))
            got = sorted((g, pname(w, p)) for g in ("adapted", "extended") for p in infos(w, v, g))
            out.append(("inherit", "the properties, each once", None if got == sorted(groups) else f"are {got}"))
            want = {n: key(Const(x)) for n, x in defaults.items()}
            for n in defaults:
                for how in ("attribute", "constructor"):
                    value = marks(w, 1)[0]
                    if how == "attribute":
                        it.setattr(v, n, value, None)
                        want[n] = key(value)
                        o, exp = v, want
                    else:
                        o, exp = make(w, cls, **{n: value}), {**{m: key(Const(x)) for m, x in defaults.items()}, n: key(value)}
                    bad = [m for m in defaults if key(it.getattr(o, m, None)) != exp[m]]
                    out.append(("assign", f"{n} given by {how}", None if not bad else f"{bad[0]} gives {show(it.getattr(o, bad[0], None))[:80]}"))
            return out

        settle("inherit", f"{cls}, which declares inherited properties again", body)

    A, E = "adapted", "extended"
    redeclared("Redeclared", {"A": None, "B": "own", "C": None, "X": "own too"}, [(A, "A"), (A, "B"), (A, "C"), (E, "X")])
    redeclared("Again", {"A": "again", "B": "own", "C": None, "X": "own too"}, [(A, "A"), (A, "B"), (A, "C"), (E, "X")])

    def shadow(w):
        """A plain attribute that was there before the property of its name."""
        it = w.it
        v = w.new("PSObject")
        a, b, c = marks(w, 3)
        it.setattr(v, "x", a, None)
        it.call(prog.func("add_note_property"), [v, Const("x"), b], {}, None)
        w.built = True
        out = [("read", "the attribute goes first", None if key(it.getattr(v, "x", None)) == key(a) else f"gives {show(it.getattr(v, 'x', None))[:80]}")]
        it.setattr(v, "x", c, None)
        out.append(("assign", "the attribute is assigned", None if key(it.getattr(v, "x", None)) == key(c) else f"gives {show(it.getattr(v, 'x', None))[:80]} after it was assigned"))
        out.append(("assign", "the property is not", None if key(list(stored(w, v).values())[0]) == key(b) else "the property changes as well"))
        return out

    settle("read", "an attribute and a property of one name", shadow)

    # ------------------------------------------------------------------ ps_isinstance
    def instances(w):
        it = w.it
        v = {n: make(w, n) for n in ("Base", "Derived", "One")}
        v["foreign"] = w.new("PSObject")
        des = w.new("PSObject")
        it.setattr(w.it.getattr(des, "PSObject", None), "type_names", ListV([Const("Deserialized.M.Derived"), Const("Deserialized.M.Base")]), None)
        v["deserialized"] = des
        des = w.new("PSObject")
        it.setattr(w.it.getattr(des, "PSObject", None), "type_names", ListV([Const("Deserialized.data.Item"), Const("Deserialized.ized.Other"), Const("Deserialized.Deserialized.M.One"), Const("Other.Deserialized.M.Two")]), None)
        v["deserialized item"] = des
        w.built = True
        out = []
        D, B, O = U("Derived"), U("Base"), U("One")
        s = Const
        tup = lambda *a: TupleV(list(a))
        cases = [("Base", B, False, True), ("Base", D, False, False), ("Derived", B, False, True), ("Derived", D, False, True), ("Derived", O, False, False),
                 ("Derived", tup(O, B), False, True), ("Derived", tup(O), False, False), ("Derived", ListV([O, B]), False, True), ("Derived", s("M.Base"), False, True), ("Derived", s("M.One"), False, False), ("Derived", s("m.base"), False, False),
                 ("Derived", s("M.Bas"), False, False), ("Derived", tup(s("M.One"), s("M.Derived")), False, True), ("Derived", s("System.Object"), False, True), ("One", s("System.Object"), True, True),
                 ("foreign", B, False, False), ("foreign", s("System.Object"), False, True), ("deserialized", B, False, False), ("deserialized", B, True, True), ("deserialized", D, True, True), ("deserialized", O, True, False),
                 ("deserialized", s("Deserialized.M.Base"), False, True), ("deserialized", s("Deserialized.M.Base"), True, True), ("deserialized", s("M.Base"), False, False), ("deserialized", s("M.Base"), True, True),
                 ("deserialized item", U("Item"), True, True), ("deserialized item", s("ized.Other"), True, True), ("deserialized item", s("M.One"), True, False), ("deserialized item", s("Deserialized.M.One"), True, False),
                 ("deserialized item", s("Other.M.Two"), True, False), ("deserialized item", s("M.Two"), True, False), ("deserialized item", s("Other.Deserialized.M.Two"), True, True),
                 ("Derived", s("Deserialized.M.Base"), True, True), ("Derived", s("Deserialized.M.Base"), False, False), ("Derived", tup(), False, False)]
        for n, other, ign, want in cases:
            kw = {"ignore_deserialized": TRUE} if ign else {}
            r, x = attempt(lambda: it.call(prog.func("ps_isinstance"), [v[n], other], kw, None))
            text = f"{n} of {show(other)[:60]}{', deserialized ignored' if ign else ''}"
            out.append(("isinstance", text, None if isinstance(r, Const) and r.v is want else f"{'gives ' + show(r) if x is None else 'raises ' + x}, expected {want}"))
        return out

    settle("isinstance", "ps_isinstance", instances)
