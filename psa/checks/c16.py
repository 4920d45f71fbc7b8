"""C16: what a document from the peer can create and change."""
from ..vals import *

META = {
    "level": "other",
    "technique": "abstract interpretation of deserialize, with the attribute protocol of PSObject interpreted too, over every registered type name, names that are not registered, and received names that collide with methods and bookkeeping",
    "explanation": "For each entry of the registry as the analysed source builds it (and each type a user defines in psa/harness) a document with that first type name is read by interpreting deserialize: the class of the result and the calls of constructors on it are obligations. Documents with type names "
                   "that are not registered (spelled almost like a registered one, registered only further down the list, types that opted out) have to give plain objects with every received name marked. Properties and keys under colliding names are read into each kind of object and compared, path by path, "
                   "with the same object read without them: group, order and value of the properties, attributes of the instance, state of the class, what methods and bookkeeping resolve to, and whether user code ran. Names are constants taken from the attributes of the classes and from the protocol.",
    "rules": ["registered", "constructor", "unregistered", "properties", "bookkeeping", "class-state", "user-code", "keys", "first-claim", "opt-out"],
}
ENUM_TAG = {"PSByte": "By", "PSSByte": "SB", "PSInt16": "I16", "PSUInt16": "U16", "PSInt": "I32", "PSUInt": "U32", "PSInt64": "I64", "PSUInt64": "U64"}


def check(chk):
    prog = chk.prog
    try:
        prog.extra("user_types")
        prog.extra("claim_types")
    except PyRaise as e:
        chk.bad("first-claim", "user defined types", f"defining them raises {show(e.exc)}")
        return
    B = build

    def config(w_log=None, **kw):
        return Config(hooks=CRYPT, recursion=8, raw_psobject=True, **kw)

    cfg = config()

    def shown(t):
        return [k[-1] if isinstance(k, tuple) else k for k in t] if t is not None else None

    def registry():
        out = []

        def body(w):
            reg = w.new("TypeRegistry")
            return w.it.prim(w.it.getattr(reg, "type_registry", None))
        for p in run(prog, body, Config()):
            if p.kind == "return" and isinstance(p.value, DictV):
                out = [(k.v, c) for k, c in p.value.entries.values() if isinstance(k, Const)]
        return out

    def decide(rule, name, body, test, may_raise=False):
        def go():
            ps = chk.seen(run(prog, body, cfg))
            for p in ps:
                if p.kind != "return":
                    if not getattr(p.world, "built", False):
                        chk.undec(rule, name, f"{p.exc_name()} while the document is made")
                    elif not may_raise:
                        chk.bad(rule, name, f"{p.exc_name()} while it is read", path=p)
                    else:
                        chk.ok(rule, name)
                    continue
                for r, what, ok, detail in test(p, p.value):
                    chk.need(ok, r, f"{name}: {what}" if what else name, detail, path=p)

        chk.attempt(rule, name, go)

    def read(w, e):
        w.built = True
        n = len(w.it.effects)
        v = deserialize(w, e)
        w.mine = w.it.effects[n:]
        return v

    def tn(w, *names, r="0"):
        return B(w, "TN", None, [B(w, "T", n) for n in names], RefId=r)

    def obj(w, names, *kids, r="7"):
        return B(w, "Obj", None, ([tn(w, *names)] if names else []) + list(kids), RefId=r)

    def logged(*classes):
        """Hooks that record the constructors of classes as they are called."""
        h = dict(CRYPT)
        for c in classes:
            def f(it, fn, args, kw, node):
                w = it.world
                if not hasattr(w, "inits"):
                    w.inits = []
                w.inits.append((args[0] if args else None, fn))
                return None
            h[f"{c.qualname}.__init__"] = f
        return h

    # ------------------------------------------------------------------ registered names
    base = prog.cls("PSObject")
    for name, c in registry():
        if not isinstance(c, ClassV):
            continue
        convert = isinstance(prog_attr(c, "FromPSObjectForRemoting"), (FuncV, ClassMethodV, StaticV))
        label = f"{name}"

        def one(name=name, c=c, convert=convert, label=label):
            if c.enum_members is not None:
                for m in list(c.enum_members.values())[:3]:
                    tag = enum_tag(prog, c)
                    num = prog.init_interp.prim(m.value)

                    def body(w, tag=tag, num=num):
                        return read(w, obj(w, [name, "System.Enum"], B(w, "ToString", "anything"), B(w, tag, str(num.v))))

                    def test(p, v):
                        yield "registered", "", isinstance(v, (EnumV, InstV, Sym)) and getattr(v, "cls", getattr(v, "typ", None)) is c, f"read as {show(v)}, not a {c.name}"
                    decide("registered", label, body, test)
                return
            kid = {"PSDictBase": "DCT", "_PSListBase": "LST", "PSListBase": "LST", "PSStackBase": "STK", "PSQueueBase": "QUE"}
            t = next((kid[x.name] for x in c.mro if isinstance(x, ClassV) and x.name in kid), None)

            def body(w):
                kids = [B(w, t, None, [])] if t else []
                kids += [B(w, "Props", None, [B(w, "S", "v", N="Adapted1")]), B(w, "MS", None, [B(w, "S", "v", N="Extended1")])]
                return read(w, obj(w, [name, "System.Object"], *kids))

            def test(p, v):
                cls = getattr(v, "cls", None)
                if not convert:
                    yield "registered", "", cls is c, f"read as {cls.name if cls else show(v)}, not as the registered class {c.name}"
                own = [f for o, f in getattr(p.world, "inits", ()) if o is v and f.cls is not None and f.cls is not base and f.module.name not in prog.models and not convert]
                yield "constructor", "", not own, f"the constructor {own[0].qual if own else ''} of the object ran"
            saved = dict(cfg.hooks)
            cfg.hooks = logged(*[x for x in c.mro if isinstance(x, ClassV) and x is not base])
            try:
                # some types need what they are made from
                decide("registered", label, body, test, may_raise=convert)
            finally:
                cfg.hooks = saved
        one()

    # ------------------------------------------------------------------ names that are not registered
    content = {
        "bag": lambda w: [B(w, "MS", None, [B(w, "I32", "1", N="n")])],
        "list": lambda w: [B(w, "LST", None, [B(w, "I32", "1")])],
        "stack": lambda w: [B(w, "STK", None, [B(w, "I32", "1")])],
        "enumerable": lambda w: [B(w, "IE", None, [B(w, "I32", "1")])],
        "queue": lambda w: [B(w, "QUE", None, [B(w, "I32", "1")])],
        "dictionary": lambda w: [B(w, "DCT", None, [B(w, "En", None, [B(w, "S", "k", N="Key"), B(w, "S", "v", N="Value")])])],
        "string": lambda w: [B(w, "S", "text")],
        "int": lambda w: [B(w, "I32", "5"), B(w, "MS", None, [B(w, "I32", "1", N="n")])],
        "long": lambda w: [B(w, "I64", "5")],
        "empty": lambda w: [],
    }
    plain = {"bag": "PSObject", "list": "PSList", "stack": "PSStack", "enumerable": "PSIEnumerable", "queue": "PSQueue", "dictionary": "PSDict", "string": "PSString", "int": "PSInt", "long": "PSInt64", "empty": "PSObject"}
    foreign = [
        ("User.Unknown", "System.Object"), ("user.record", "System.Object"), ("User.Record ",), (" User.Record",), ("User.Record[]",), ("User.RecordX", "User.Record"), ("User.Unknown", "User.Record", "System.Object"),
        ("System.management.Automation.ErrorRecord",), ("X", "System.Management.Automation.ErrorRecord"), ("Selected.User.Record", "System.Management.Automation.PSCustomObject", "System.Object"),
        ("Record",), ("psrpcore.types.PSString",), ("PSString",), ("builtins.list",), ("__main__.X",), ("User.Unknown", "User.Unknown", "B", "A"), ("User.NotRehydrated", "User.Record"), ("User.Hidden",), ("User.HiddenList", "System.Object"),
        ("User.HiddenEnum", "System.Enum"), ("System.Enum",), ("User.Rec", "ord"), ("UserXRecord",), ("User.Record#x", "User.Record"), ("Microsoft.PowerShell.Commands.X+Y`1[[System.Int32]]", "System.Object"),
    ]
    for names in foreign:
        for kind, kids in content.items():
            rule = "opt-out" if "Hidden" in names[0] or "NotRehydrated" in names[0] else "unregistered"

            def body(w, names=names, kids=kids):
                return read(w, obj(w, names, *kids(w)))

            def test(p, v, names=names, kind=kind, rule=rule):
                cls = getattr(v, "cls", None)
                yield rule, "class", cls is not None and cls.name == plain[kind] and isinstance(v, InstV), f"read as {cls.name if cls else show(v)}, not {plain[kind]}"
                got = type_names(p.interp, v)
                want = tuple(key(Const("Deserialized." + n)) for n in names)
                yield rule, "type names", got == want, f"the type names are {shown(got)}, not {shown(want)}"
            decide(rule, f"{kind} {names}", body, test)

    def marked(w):
        return read(w, obj(w, ["Deserialized.User.Record", "Deserialized.System.Object"], *content["bag"](w)))

    def test_marked(p, v):
        yield "unregistered", "class", isinstance(v, InstV) and v.cls.name == "PSObject", f"read as {show(v)}"
        got = [k[-1] if isinstance(k, tuple) else k for k in type_names(p.interp, v) or ()]
        yield "unregistered", "type names", len(got) == 2 and all(isinstance(g, str) and g.startswith("Deserialized.") for g in got), f"the type names are {got}"
    decide("unregistered", "names already marked", marked, test_marked)

    def unnamed(kind):
        def body(w):
            return read(w, obj(w, [], *content[kind](w)))

        def test(p, v):
            yield "unregistered", "class", getattr(getattr(v, "cls", None), "name", None) == plain[kind], f"read as {show(v)}"
        decide("unregistered", f"{kind} without type names", body, test)
    for k in content:
        unnamed(k)

    # two objects that name the same foreign type by reference
    def by_ref(w):
        return read(w, B(w, "Obj", None, [B(w, "LST", None, [obj(w, ["Z.One", "Z.Two"], *content["bag"](w), r="3"), B(w, "Obj", None, [B(w, "TNRef", None, [], RefId="0")] + content["bag"](w), RefId="4")])], RefId="9"))

    def test_ref(p, v):
        for i, x in enumerate(p.interp.prim(v).items):
            yield "unregistered", f"item {i}", isinstance(x, InstV) and x.cls.name == "PSObject" and type_names(p.interp, x) == tuple(key(Const("Deserialized." + n)) for n in ("Z.One", "Z.Two")), "the type names are not the declared ones, marked"
    decide("unregistered", "names by reference", by_ref, test_ref)

    # ------------------------------------------------------------------ opt-out and first claim
    for name, want in (("User.Record", "Record"), ("User.ByteEnum", "ByteEnum"), ("System.Collections.Hashtable", "PSDict"), ("System.Management.Automation.ErrorRecord", "ErrorRecord"), ("User.Later", "Later"), ("System.String", "PSString"),
                       ("User.ListWithInit", "ListWithInit"), ("User.DictWithInit", "DictWithInit"), ("User.QueueWithInit", "QueueWithInit"), ("User.WithInit", "WithInit"), ("User.InitNoArgs", "InitNoArgs")):
        def claim(p, v, want=want):
            yield "first-claim", "", isinstance(v, ClassV) and v.name == want, f"the name belongs to {show(v)}, not to {want}"

        def body(w, name=name):
            w.built = True
            reg = w.it.prim(w.it.getattr(w.new("TypeRegistry"), "type_registry", None))
            return reg.entries[key(Const(name))][1]
        decide("first-claim", name, body, claim)
    for name in ("User.Hidden", "User.HiddenList", "User.HiddenEnum", "User.NotRehydrated"):
        def body(w, name=name):
            w.built = True
            reg = w.it.prim(w.it.getattr(w.new("TypeRegistry"), "type_registry", None))
            return Const(key(Const(name)) in reg.entries)
        decide("opt-out", f"{name} is registered", body, lambda p, v: [("opt-out", "", not v.v, "a type that opted out of rehydration is registered")])
    for tag, want in (("S", "PSString"), ("I32", "PSInt")):
        def body(w, tag=tag):
            return read(w, B(w, tag, "5"))
        decide("first-claim", f"element {tag}", body, lambda p, v, want=want: [("first-claim", "", isinstance(v, InstV) and v.cls.name == want, f"read as {show(v)}")])
    for cls, tag in (("PSString", "S"), ("PSDict", "DCT")):
        def body(w, cls=cls):
            e = serialize(w, w.new(cls, "x") if cls == "PSString" else w.new(cls))
            w.built = True
            return snap(w.it, e)
        decide("first-claim", f"element of a {cls}", body, lambda p, x, tag=tag: [("first-claim", "", x.tag == tag or any(k.tag == tag for k in x.kids), f"written as {x.tag}")])

    # the constructors of user types, with and without content
    for name, kids in (("User.ListWithInit", "list"), ("User.DictWithInit", "dictionary"), ("User.QueueWithInit", "queue"), ("User.WithInit", "bag"), ("User.WithInit", "empty"), ("User.InitNoArgs", "bag"), ("User.InitNoArgs", "empty"), ("User.Guarded", "bag")):
        def body(w, name=name, kids=kids):
            return read(w, obj(w, [name], *content[kids](w)))

        def test(p, v, name=name):
            yield "constructor", "", isinstance(v, InstV) and v.cls.name == name.split(".")[1] and "ran" not in v.attrs, f"read as {show(v)}, or its constructor ran"
        decide("constructor", f"{name} {kids}", body, test)

    # ------------------------------------------------------------------ received names
    NAMES = ["PSObject", "PSTypeNames", "PSBase", "PSAdapted", "PSExtended", "__class__", "__dict__", "__init__", "__new__", "__getattribute__", "__getattr__", "__setattr__", "__str__", "__eq__", "__hash__", "__module__", "__doc__",
             "type_names", "to_string", "adapted_properties", "extended_properties", "rehydrate", "set_instance", "_instance", "_to_string", "instance", "self", "cls", "obj", "name", "value", "N", "RefId", "FromPSObjectForRemoting", "ToPSObjectForRemoting",
             "append", "extend", "keys", "items", "get", "put", "queue", "mutex", "maxsize", "method", "prop", "level", "Real", "Other", "Both", "Guard", "Ext", "Typed", "Name", "Count", "Extra", "Kind", "Id", "_name_", "_value_", "__members__", "MinValue", "encode", "real", "with space", "Ünï", "a", "A"]
    kinds = {
        "bag": ([], "empty"), "unknown type": (["X.Y"], "empty"), "Record": (["User.Record"], "empty"), "Scripted": (["User.Scripted"], "empty"), "list": ([], "list"), "user list": (["User.List"], "list"), "stack": ([], "stack"), "queue": ([], "queue"),
        "dictionary": ([], "dictionary"), "user dictionary": (["User.Dict"], "dictionary"), "string": ([], "string"), "user string": (["User.ExtString"], "string"), "int": ([], "long"), "custom object": (["System.Management.Automation.PSCustomObject"], "empty"),
    }
    chunk = 12
    sets = [NAMES[i:i + chunk] for i in range(0, len(NAMES), chunk)]
    sets = [list(dict.fromkeys(s)) for s in sets]
    harness = {m.name for m in prog.modules.values() if m.name.split(".")[0] != prog.package}

    def class_owned(effects):
        """Writes to classes, functions, modules, or to what a class holds."""
        held = {}
        for m in prog.modules.values():
            for c in m.frame.vars.values():
                if isinstance(c, ClassV):
                    meta = c.ns.get("PSObject")
                    if isinstance(meta, InstV):
                        held[id(meta)] = c
                        for x in meta.attrs.values():
                            held[id(x)] = c
                            if isinstance(x, ListV):
                                for y in x.items:
                                    held[id(y)] = c
                    for x in (c.enum_members or {}).values():
                        held[id(x)] = c
        for e in effects:
            if isinstance(e.obj, (ClassV, FuncV, ModV)) and not str(e.name).startswith("$"):
                yield e
            elif id(e.obj) in held:
                yield e

    def group(v, g):
        meta = v.attrs.get("PSObject")
        l = meta.attrs.get(g) if isinstance(meta, InstV) else None
        return [p for p in l.items] if isinstance(l, ListV) else None

    def received(kind, names, groups):
        tns, kids = kinds[kind]

        def doc(w, with_props):
            ks = list(content[kids](w)) if kids != "empty" else []
            if with_props:
                for g in groups:
                    ks.append(B(w, g, None, [B(w, "S", f"{g} value {i}", N=n) for i, n in enumerate(names)]))
            return obj(w, tns, *ks, r="7")

        def body(w):
            w.plain = deserialize(w, doc(w, False))
            w.seen0 = set(w.it.fn_seen)
            v = read(w, doc(w, True))
            w.seen1 = set(w.it.fn_seen)
            return v

        def test(p, v):
            it, w = p.interp, p.world
            ref = w.plain
            if not isinstance(v, InstV):
                yield "properties", "object", False, f"read as {show(v)}"
                return
            yield "properties", "class", v.cls is ref.cls, f"read as {v.cls.name}, without the properties as {ref.cls.name}"
            a0 = {k for k in ref.attrs if not k.startswith("$")}
            a1 = {k for k in v.attrs if not k.startswith("$")}
            yield "bookkeeping", "attributes of the instance", a0 == a1, f"the attributes of the object are {sorted(a1)}, without the properties {sorted(a0)}"
            m0, m1 = ref.attrs.get("PSObject"), v.attrs.get("PSObject")
            ok = isinstance(m1, InstV) and isinstance(m0, InstV) and m1.cls is m0.cls and set(m0.attrs) == set(m1.attrs)
            yield "bookkeeping", "the PSObject of the object", ok, f"the PSObject attribute is {show(m1) if m1 is not None else None}"
            if not ok:
                return
            yield "bookkeeping", "type names", type_names(it, ref) == type_names(it, v), "received properties change the type names"
            for g, l in (("Props", "adapted_properties"), ("MS", "extended_properties")):
                have, was = group(v, l), group(ref, l)
                if have is None or was is None:
                    yield "properties", l, False, f"{l} is not a list"
                    continue
                got = [it.prim(x.attrs.get("name")).v if isinstance(x, InstV) and isinstance(it.prim(x.attrs.get("name")), Const) else None for x in have]
                declared = [it.prim(x.attrs["name"]).v for x in was]
                if g not in groups:
                    yield "properties", f"{l} untouched", got == declared and all(x.cls is y.cls for x, y in zip(have, was)), f"{l} are {got} although only {groups} were received"
                    continue
                new = [n for n in names if n not in declared]
                yield "properties", f"names of {l}", sorted(map(str, got)) == sorted(declared + new), f"{l} are {got}, declared {declared}, received {list(names)}"
                yield "properties", f"order of {l}", [n for n in got if n in new] == new, f"{l} are {got}, received {list(names)}"
                for i, n in enumerate(names):
                    x = have[got.index(n)] if n in got else None
                    if x is None:
                        continue
                    raw = it.prim(it.getattr(x, "_value", None)) if "_value" in x.attrs else None
                    note = x.cls.name == "PSNoteProperty"
                    gv = it.prim(it.call(it.class_attr(x.cls, "get_value"), [x, v], {}, None))
                    yield "properties", f"{n} in {l}", note and text_is(it, gv, f"{g} value {i}"), f"{n} is a {x.cls.name} with the value {show(gv)}, not the received one"
                for d, x, y in ((d, dict(zip(got, have)).get(d), y) for d, y in zip(declared, was)):
                    if d not in names and x is not None:
                        yield "properties", f"declared {d}", x.cls is y.cls, f"the declared {d} turned into a {x.cls.name}"
            for what, name in (("method", "method"), ("property", "prop"), ("class attribute", "level"), ("list", "append"), ("dictionary", "keys"), ("queue", "put"), ("text", "encode"), ("type names", "PSTypeNames"), ("class", "__class__"), ("PSObject", "PSObject")):
                cv = it.class_attr(v.cls, name)
                real = any(r is not None and hasattr(r, name) for r in (it.real(b.name) for b in it.ext_bases(v.cls) if b.name != "object"))
                if cv is None and not real and name not in ("__class__", "PSObject"):
                    continue
                if name in ("method", "prop", "level") and v.cls.name != "Scripted":
                    continue
                got = it.getattr(v, name, None)
                if name == "__class__":
                    ok = got is v.cls
                elif name == "PSObject":
                    ok = got is m1
                elif name == "PSTypeNames":
                    ok = got is m1.attrs.get("type_names")
                elif name == "prop":
                    ok = isinstance(got, Const) and got.v == "property"
                elif name == "level":
                    ok = isinstance(got, Const) and got.v == 5
                else:
                    ok = isinstance(got, (BoundV, ExtMethod))
                yield "bookkeeping", f"{name} of the object", ok, f"{name} resolves to {show(got)} after a property of that name was received"
            es = [e for e in class_owned(w.mine)]
            yield "class-state", "", not es, f"reading it changes the class level: {es[0] if es else ''}"
            ran = sorted(f"{m}.{q}" for m, q in w.seen1 - w.seen0 if m in harness)
            yield "user-code", "", not ran, f"reading it runs {ran}"

        decide("properties", f"{kind} with {names[0]}.. in {'+'.join(groups)}", body, test)

    def text_is(it, v, sym):
        v = text_base(it.prim(v))
        return isinstance(v, Const) and v.v == sym

    for kind in kinds:
        for names in sets:
            for groups in (("Props",), ("MS",), ("Props", "MS"), ("MS", "Props")):
                if groups == ("MS", "Props") and kind not in ("bag", "Scripted"):
                    continue
                received(kind, names, groups)

    # an enum value must not take properties, text or type names from a document
    def enum_doc(w):
        v = read(w, obj(w, ["User.IntEnum", "Other.Type"], B(w, "ToString", "text"), B(w, "I32", "2147483647"), B(w, "Props", None, [B(w, "S", "v", N="value")]), B(w, "MS", None, [B(w, "S", "v", N="name"), B(w, "S", "v", N="PSObject")])))
        return v

    def enum_test(p, v):
        yield "registered", "", isinstance(v, EnumV) and v.name == "high", f"read as {show(v)}"
        es = list(class_owned(p.world.mine))
        yield "class-state", "", not es, f"reading it changes the class or the shared value: {es[0] if es else ''}"
    decide("class-state", "enum with properties", enum_doc, enum_test)

    # ------------------------------------------------------------------ keys of dictionaries
    for kind, names in (("dictionary", []), ("user dictionary", ["User.Dict"])):
        def dict_doc(w, names=names):
            w.plain = deserialize(w, obj(w, names, B(w, "DCT", None, [])))
            return read(w, obj(w, names, B(w, "DCT", None, [B(w, "En", None, [B(w, "S", n, N="Key"), B(w, "S", f"value {i}", N="Value")]) for i, n in enumerate(NAMES)])))

        def dict_test(p, v):
            it = p.interp
            d = it.prim(v)
            yield "keys", "entries", isinstance(d, DictV) and [text_base(it.prim(k)).v if isinstance(it.prim(k), Const) else show(k) for k, _ in d.entries.values()] == NAMES, "the keys are not the received ones, in order"
            yield "keys", "values", isinstance(d, DictV) and all(text_is(it, x, f"value {i}") for i, (_, x) in enumerate(d.entries.values())), "the values are not the received ones"
            a0, a1 = ({k for k in x.attrs if not k.startswith("$")} for x in (p.world.plain, v))
            yield "bookkeeping", "attributes", a0 == a1, f"the attributes of the dictionary are {sorted(a1)}"
            yield "bookkeeping", "properties", not group(v, "adapted_properties") and not group(v, "extended_properties"), "a key turned into a property"
            yield "bookkeeping", "method", isinstance(it.getattr(v, "keys", None), (BoundV, ExtMethod)), "keys does not resolve to the method"
            es = list(class_owned(p.world.mine))
            yield "class-state", "", not es, f"reading it changes the class level: {es[0] if es else ''}"
        decide("keys", kind, dict_doc, dict_test)


def prog_attr(c, name):
    for x in c.mro:
        if isinstance(x, ClassV) and name in x.ns:
            return x.ns[name]
    return None


def enum_tag(prog, c):
    it = prog.init_interp
    lo, hi = (it.prim(it.class_attr(c, n)) if it.class_attr(c, n) is not None else None for n in ("MinValue", "MaxValue"))
    limits = {(0, 255): "By", (-128, 127): "SB", (-32768, 32767): "I16", (0, 65535): "U16", (-2 ** 31, 2 ** 31 - 1): "I32", (0, 2 ** 32 - 1): "U32", (-2 ** 63, 2 ** 63 - 1): "I64", (0, 2 ** 64 - 1): "U64"}
    if isinstance(lo, Const) and isinstance(hi, Const):
        return limits.get((lo.v, hi.v), "I32")
    return "I32"
