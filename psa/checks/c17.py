"""C17: instances, definitions and documents share no mutable state by accident."""
from ..frozen import *
from ..link import *
from ..vals import *
from .c15 import add_prop, bag, enums, ext, kinds, typed

META = {
    "level": "other",
    "technique": "ownership and effect analysis by abstract interpretation: reachability of mutable objects between instances, and the writes of every operation to objects that exist since import",
    "explanation": "Two instances of every type, pool, pipeline, command, record, document and event are built on the abstract heap and the mutable objects reachable from each are intersected, also with everything that exists since the "
                   "modules were imported (class definitions, registries, module variables, default arguments). One of them is then changed by every means (properties, added members, type names, text, contents; for pools whole conversations), "
                   "and the state of the other, of the definitions and of everything from import time is compared before and after. Property lookup and assignment are interpreted through the attribute protocol and compared with the rule "
                   "'extended first, exactly that property of that instance'. Conversations are repeated and the size of what two pools hold compared between the rounds.",
    "rules": ["own", "isolated", "import-state", "property", "definition", "fresh", "document", "growth", "pools", "pipelines", "events"],
}

def stable_keys(t):
    from .c14 import stable
    return stable(t)


def first_difference(a, b, path="conversation"):
    if type(a) is not type(b) or not isinstance(a, (list, tuple)) or len(a) != len(b):
        return f"{path} is {b!r:.200}, alone {a!r:.200}"
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return first_difference(x, y, f"{path}[{i}]")
    return path


VALUE_BASES = {"PSIntegerBase", "PSString", "PSChar", "PSDouble", "PSSingle", "PSDecimal"}


class Import:
    """Everything mutable that exists since import."""

    def __init__(self, prog):
        self.prog = prog
        roots = []
        self.frames = []
        for m in prog.modules.values():
            self.frames.append(m)
            roots += [(f"{m.name}.{n}", v) for n, v in m.frame.vars.items()]
        todo, self.objs, self.order = roots, {}, []
        while todo:
            n, v = todo.pop()
            for h in inside(v):
                if h.born in self.objs:
                    continue
                self.objs[h.born] = (h, n)
                if isinstance(h, FuncV):
                    for i, d in enumerate(list(h.defaults or ()) + list((h.kwdefaults or {}).values())):
                        if isinstance(d, V):
                            todo.append((f"{n} default {i}", d))
                    continue
                if isinstance(h, ClassV):
                    for k, x in (h.enum_members or {}).items():
                        todo.append((f"{n}.{k}", x))
                for k, x in parts(h, True):
                    todo.append((f"{n}.{k}", x))
                    if isinstance(x, (PropV, StaticV, ClassMethodV)):
                        for f in (getattr(x, "fget", None), getattr(x, "fset", None), getattr(x, "func", None)):
                            if isinstance(f, V):
                                todo.append((f"{n}.{k}", f))
        self.take()
        # values a definition hands to all of its instances: members of enums and defaults that are single values
        self.constants = set()
        for h, n in self.objs.values():
            if isinstance(h, InstV) and any(getattr(c, "name", None) in VALUE_BASES for c in h.cls.mro):
                self.constants |= set(reach([("", h)]))
            if isinstance(h, ClassV):
                for x in (h.enum_members or {}).values():
                    v = x.value
                    if isinstance(v, InstV) and not any(k in v.attrs for k in ("$list", "$dict")):
                        self.constants |= set(reach([("", v)]))

    def take(self):
        self.before = {b: fingerprint(h) for b, (h, _) in self.objs.items()}
        self.vars = {m.name: {n: key(v) for n, v in m.frame.vars.items()} for m in self.frames}

    @staticmethod
    def fixed(v):
        """Holds nothing that can change."""
        return not any(not isinstance(h, (FuncV, ClassV)) for h in inside(v))

    def changes(self, tolerate=()):
        out = []
        for m in self.frames:
            now, was = {n: key(v) for n, v in m.frame.vars.items()}, self.vars[m.name]
            for n in sorted(set(now) | set(was)):
                if now.get(n) != was.get(n) and not (n.startswith("_") and n not in was):
                    out.append(f"{m.name}.{n} is bound anew")
        for b, (h, n) in self.objs.items():
            if isinstance(h, FuncV):
                continue
            now, was = fingerprint(h), self.before[b]
            if now == was or b in tolerate:
                continue
            if isinstance(h, DictV) and n.count(".") and n.rsplit(".", 1)[1].startswith("_") and any(n == f"{m.name}.{n.rsplit('.', 1)[1]}" for m in self.frames) and all(self.fixed(k) and self.fixed(v) for k, v in h.entries.values()):
                continue  # a private table of a module that remembers fixed results
            what = sorted(k for k in set(now) | set(was) if now.get(k) != was.get(k)) if isinstance(h, (InstV, ClassV)) else []
            out.append(f"{n} changes{' (' + ', '.join(map(str, what)) + ')' if what else ''}")
        return out


def check(chk):
    prog = chk.prog
    for m in ("user_types", "convert_types", "share_types"):
        prog.extra(m)
    imp = Import(prog)

    raw = lambda: Config(hooks=CRYPT, recursion=12, raw_psobject=True, seconds=150)
    plain = lambda: Config(hooks=CRYPT, recursion=12)
    CF = {"raw": raw, "plain": plain, "link": lambda: link_config(const_loop=200)}

    def settle(rule, name, body, config="plain", imports=True):
        def decide():
            def go(w):
                start(w)
                out = body(w)
                if imports:
                    ch = imp.changes()
                    out.append(("import-state", "what exists since import", "; ".join(ch[:3]) or None))
                return out

            ps = chk.seen(run(prog, go, CF[config]()))
            if not any(getattr(p.world, "built", False) for p in ps):
                raise Unsupported("the scenario cannot be built: " + "; ".join(sorted({str(p.exc_name()) for p in ps})))
            for p in ps:
                if p.kind == "return":
                    for r, label, b in p.value:
                        chk.need(b is None, r, f"{name}: {label}", b, path=p)

        chk.attempt(rule, name, decide)

    def attempt(w, f):
        try:
            return f(), None
        except PyRaise as e:
            return None, getattr(e.cls, "name", str(e.cls))

    skip_module = ("threading", "logging")

    def stop(o):
        return isinstance(o, InstV) and o.cls.module is not None and o.cls.module.name in skip_module

    def given(*vals):
        return set(reach([("", v) for v in vals if isinstance(v, V)]))

    def shared(out, rule, label, a, b, allow=()):
        """a and b (lists of (name, value)) reach no common mutable object."""
        ra, rb = reach(a, stop=stop), reach(b, stop=stop)
        bad = [(ra[x][1], rb[x][1], ra[x][0]) for x in ra if x in rb and x not in allow and x not in imp.constants and "$args" not in ra[x][1] and "$args" not in rb[x][1]]  # $args: what the native base was given
        out.append((rule, label, None if not bad else "; ".join(f"{p} and {q} are the same {type(o).__name__[:-1].lower()} {show(o)[:80]}" for p, q, o in sorted(bad, key=lambda t: len(t[0]))[:2])))

    def owned(out, rule, label, a, allow=()):
        """a reaches nothing mutable that exists since import."""
        ra = reach(a, stop=stop)
        bad = [(o, n) for b, (o, n) in ra.items() if b in imp.objs and b not in imp.constants and b not in allow]
        out.append((rule, label, None if not bad else "; ".join(f"{n} is {imp.objs[o.born][1]}, which all share" for o, n in sorted(bad, key=lambda t: len(t[1]))[:2])))

    def same(out, rule, label, frozen, ignore=None):
        ch = frozen.changes(ignore)
        out.append((rule, label, "; ".join(t for _, t in ch[:3]) or None))

    # ------------------------------------------------------------------ the values
    def host_data(w):
        co = lambda: w.new("Coordinates", X=Const(1), Y=Const(2))
        si = lambda: w.new("Size", Width=Const(3), Height=Const(4))
        return w.new("HostDefaultData", ForegroundColor=w.enum("ConsoleColor", "Red"), BackgroundColor=w.enum("ConsoleColor", "Blue"), CursorPosition=co(), WindowPosition=co(), CursorSize=Const(5), BufferSize=si(), WindowSize=si(),
                     MaxWindowSize=si(), MaxPhysicalWindowSize=si(), WindowTitle=Const("t"))

    def command(w):
        c = w.new("Command", Const("Get-Item"))
        w.call(c, "add_parameter", Const("Path"), Const("a"))
        w.call(c, "add_argument", Const("b"))
        w.call(c, "redirect_error", w.enum("PipelineResultTypes", "Output"))
        return c

    def powershell(w):
        p = w.new("PowerShell")
        w.it.call(w.it.getattr(w.get(p, "commands"), "append", None), [command(w)], {}, None)
        return p

    def new(cls, *a, **kw):
        return lambda w: w.new(cls, *[x(w) if callable(x) else x for x in a], **{k: x(w) if callable(x) else x for k, x in kw.items()})

    C = Const
    version = lambda w: w.new("PSVersion", C("2.3"))
    RECORDS = [
        ("named custom object", lambda w: w.new("PSCustomObject", PSTypeName=C("My.Type"), a=C(1), b=ListV([C(1)]))),
        ("twofold", new("Twice")), ("child", new("Child")), ("grandchild", new("GrandChild")), ("defaults", new("Computed")),
        ("error record", new("ErrorRecord", Exception=new("NETException", Message=C("m")), CategoryInfo=new("ErrorCategoryInfo"))), ("category", new("ErrorCategoryInfo")), ("details", new("ErrorDetails", Message=C("m"))),
        ("invocation information", new("InvocationInfo")), ("information record", new("InformationRecord", MessageData=C("x"), Source=C("s"))), 
        ("progress record", progress), ("debug record", new("DebugRecord", Message=C("m"))), ("verbose record", new("VerboseRecord", Message=C("m"))), ("warning record", new("WarningRecord", Message=C("m"))),
        ("command", command), ("bare command", new("Command", C("x"))), ("script", new("Command", C("x"), TRUE, TRUE)), ("pipeline", powershell), ("empty pipeline", new("PowerShell")), 
        ("metadata request for names", lambda w: w.new("GetMetadata", name=ListV([C("a")]), namespace=ListV([C("n")]), arguments=ListV([C(1)]))),
        ("host information", new("HostInfo")), ("host default data", host_data), ("choice", new("ChoiceDescription", Label=C("&Yes"))), ("field", new("FieldDescription", Name=C("n"), ParameterTypeName=C("s"), ParameterTypeFullName=C("s"), ParameterAssemblyFullName=C("s"))),
        ("coordinates", new("Coordinates", X=C(1), Y=C(2))), ("size", new("Size", Width=C(1), Height=C(2))), ("credential", lambda w: w.new("PSCredential", UserName=C("u"), Password=w.new("PSSecureString", C("secret")))),
        ("secure string", lambda w: w.new("PSSecureString", C("secret"))), ("exception", new("NETException", Message=C("m"))), ("remote command", lambda w: None),
        ("key information", new("KeyInfo", VirtualKeyCode=C(65), Character=new("PSChar", C("A")), ControlKeyState=lambda w: w.enum("ControlKeyStates", "ShiftPressed"), KeyDown=TRUE)),
        ("buffer cell", new("BufferCell", Character=new("PSChar", C("A")), ForegroundColor=lambda w: w.enum("ConsoleColor", "Red"), BackgroundColor=lambda w: w.enum("ConsoleColor", "Blue"), BufferCellType=lambda w: w.enum("BufferCellType", "Complete"))),
        ("rectangle", new("Rectangle", Left=C(1), Top=C(2), Right=C(3), Bottom=C(4))), ("cipher", new("PSRemotingCrypto")), ("shell", new("ClixmlShell")), ("output", new("ClixmlOutput")),
        ("capability", new("SessionCapability", PSVersion=version, protocolversion=version, SerializationVersion=version)), ("unregistered object", lambda w: typed(w, "Other.Thing", "Other.Base")),
    ]
    RECORDS = [r for r in RECORDS if r[0] != "remote command"]
    POOLS = [("client pool", lambda w: w.new("ClientRunspacePool")), ("server pool", lambda w: w.new("ServerRunspacePool"))]
    PIPES = [("client pipeline", lambda w: w.new("ClientPowerShell", w.new("ClientRunspacePool"))), ("metadata pipeline", lambda w: w.new("ClientGetCommandMetadata", w.new("ClientRunspacePool"), C("*"))),
             ("server pipeline", lambda w: w.new("ServerPipeline", w.new("ServerRunspacePool"), C(PID)))]
    prims = [(n, mk) for n, mk, *_ in primitives()]
    conts = [(n, mk) for n, mk, *_ in containers()]
    objects = kinds() + RECORDS

    # ------------------------------------------------------------------ two instances share nothing
    def own(name, mk, config):
        def body(w):
            a, b = mk(w), mk(w)
            w.built = True
            out = []
            shared(out, "own", "two instances", [("first", a)], [("second", b)])
            owned(out, "own", "what it holds", [("it", a)])
            return out

        settle("own", f"{name} ({config})", body, config)

    seen = set()
    for n, mk in prims:
        k = n.split(" ")[0]
        if k not in seen:
            seen.add(k)
            own(n, mk, "raw")
    for n, mk in conts + objects + POOLS + PIPES:
        own(n, mk, "raw" if (n, mk) in objects + conts else "link")

    # ------------------------------------------------------------------ changing one changes nothing else
    def meta(w, v):
        return w.it.getattr(v, "PSObject", None)

    def names_of(w, v, group):
        l = w.it.getattr(meta(w, v), f"{group}_properties", None)
        return [w.it.prim(w.it.getattr(p, "name", None)).v for p in l.items]

    def mutations(w, v):
        """(name, action) of everything a user can do to an object."""
        it = w.it
        acts = []
        if isinstance(v, InstV) and isinstance(v.attrs.get("PSObject"), InstV):
            acts += [("add member", lambda: add_prop(w, v, "Added", ListV([C(1)]))), ("replace member", lambda: it.call(prog.func("add_note_property"), [v, C("Added"), C(2)], {"force": TRUE}, None)),
                     ("type names", lambda: it.call(it.getattr(it.getattr(v, "PSTypeNames", None), "insert", None), [C(0), C("Added.Type")], {}, None)),
                     ("text", lambda: it.setattr(meta(w, v), "to_string", C("text of one"), None)), ("attribute", lambda: it.setattr(v, "attribute", C("of one"), None)),
                     ("alias", lambda: it.call(prog.func("add_alias_property"), [v, C("AddedAlias"), C("Added")], {}, None)),
                     ("extended list", lambda: it.call(it.getattr(it.getattr(meta(w, v), "extended_properties", None), "append", None), [w.new("PSNoteProperty", C("Raw"), C(1))], {}, None)),
                     ("adapted list", lambda: it.call(it.getattr(it.getattr(meta(w, v), "adapted_properties", None), "append", None), [w.new("PSNoteProperty", C("RawToo"), C(1))], {}, None))]
            values = [lambda: w.new("PSObject"), lambda: C(5), lambda: C("5"), lambda: NONE]
            props = [n for g in ("adapted", "extended") for n in names_of(w, v, g)]
            for i, n in enumerate(props):
                for j in range(4 if len(props) < 5 else 1):
                    acts.append((f"{n} = ..", lambda n=n, f=values[(i + j) % 4]: it.setattr(v, n, f(), None)))
            acts.append(("names cleared", lambda: it.call(it.getattr(it.getattr(v, "PSTypeNames", None), "clear", None), [], {}, None)))
            acts.append(("members cleared", lambda: [it.call(it.getattr(it.getattr(meta(w, v), f"{g}_properties", None), "clear", None), [], {}, None) for g in ("adapted", "extended")]))
        for m, a in (("append", [C("x")]), ("put", [C("x")]), ("update", [mkdict((C("added"), C(1)))]), ("extend", [ListV([C(1), C(2)])])):
            acts.append((m, lambda m=m, a=a: it.call(it.getattr(v, m, None), a, {}, None)))
        return acts

    def isolated(name, mk, config="raw"):
        def body(w):
            a, b = mk(w), mk(w)
            w.built = True
            out = []
            f = Frozen([("the other instance", b)], stop=stop)
            for n, act in mutations(w, a):
                attempt(w, act)
                ch = f.changes()
                if ch:
                    out.append(("isolated", n, "; ".join(t for _, t in ch[:2])))
                    return out
            out.append(("isolated", "any change", None))
            c = mk(w)
            if isinstance(b, InstV) and isinstance(b.attrs.get("PSObject"), InstV):
                out.append(("isolated", "created later", None if shape(w.it, c) == shape(w.it, b) or stable_shape(w, b) == stable_shape(w, c) else f"an instance created later is {str(stable_shape(w, c))[:200]}, one created before {str(stable_shape(w, b))[:200]}"))
            return out

        settle("isolated", name, body, config)

    def stable_shape(w, v):
        from .c14 import stable
        return stable(shape(w.it, v))

    for n, mk in objects + conts:
        isolated(n, mk)
    for n, mk in prims:
        if n.split(" ")[0] in seen:
            seen.discard(n.split(" ")[0])
            isolated(n, mk)

    # ------------------------------------------------------------------ the property found and the property set
    def infos(w, v):
        """Every property object of an instance: (group, index, info)."""
        it = w.it
        return [(g, i, p) for g in ("extended", "adapted") for i, p in enumerate(it.getattr(meta(w, v), f"{g}_properties", None).items)]

    def held(w, v):
        """What each property and attribute of an instance holds now."""
        it = w.it
        out = {}
        for g, i, p in infos(w, v):
            n = it.prim(it.getattr(p, "name", None)).v
            out[(g, n)] = key(it.call(it.getattr(p, "get_value", None), [v], {}, None))
        for n, x in v.attrs.items():
            if n != "PSObject":
                out[("attribute", n)] = key(x)
        return out

    def sample(w, base):
        """An object with two properties of one name, aliases and computed ones, made by the means a user has."""
        it = w.it
        v = base(w)
        l = lambda g: it.getattr(it.getattr(meta(w, v), f"{g}_properties", None), "append", None)
        P = lambda n, x: w.new("PSNoteProperty", C(n), x)
        for g, n, x in (("adapted", "In", "in adapted"), ("adapted", "Dup", "dup adapted"), ("extended", "Dup", "dup extended"), ("extended", "Ex", "in extended")):
            it.call(l(g), [P(n, C(x))], {}, None)
        it.call(prog.func("add_alias_property"), [v, C("Same"), C("Ex")], {}, None)
        return v

    BASES = [("PSObject", new("PSObject")), ("PSCustomObject", lambda w: bag(w, Own=C("own"))), ("registered", new("Twice")), ("string", new("PSString", C("s"))), ("int", new("PSInt", C(5))), ("list", new("PSList")),
             ("record", lambda w: w.new("Record", Name=C("n"))), ("duration", new("PSDuration", days=C(1))), ("child", new("Child")), ("error record", new("ErrorRecord", Exception=new("NETException", Message=C("m")), CategoryInfo=new("ErrorCategoryInfo")))]

    def expected(w, before, n):
        for g in ("extended", "adapted"):
            if (g, n) in before:
                return g
        return None

    def lookup(name, base, made):
        def body(w):
            it = w.it
            a, b = made(w, base), made(w, base)
            w.built = True
            out = []
            before = held(w, a)
            for n in sorted({k[1] for k in before if k[0] != "attribute"}):
                g = expected(w, before, n)
                for how, f in (("getattr", lambda: it.getattr(a, n, None)), ("[]", lambda: it.user_op(a, "__getitem__", [C(n)]))):
                    if how == "[]" and name == "list" or n in a.attrs:
                        continue
                    r, x = attempt(w, f)
                    if x is None:
                        out.append(("property", f"{how} {n}", None if key(r) == before[(g, n)] else f"{how} of {n} gives {show(r)}, its {g} property holds another value"))
                    else:
                        out.append(("property", f"{how} {n}", f"{how} of {n} raises {x}"))
            return out

        settle("property", f"{name}: read", body, "raw")

    def assign(name, base, made, n, how):
        def body(w):
            it = w.it
            a, b = made(w, base), made(w, base)
            w.built = True
            out = []
            before, other = held(w, a), Frozen([("the other instance", b)], stop=stop)
            g = expected(w, before, n)
            new_value = C(77) if n in ("Typed", "Count") else w.new("PSString", C("new value"))
            if how == "setattr":
                _, x = attempt(w, lambda: it.setattr(a, n, new_value, None))
            else:
                _, x = attempt(w, lambda: it.user_op(a, "__setitem__", [C(n), new_value]))
            after = held(w, a)
            diff = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
            what = f"{how} of {n}"
            if x is not None:
                out.append(("property", what, None if not diff else f"{what} raises {x} and changes {diff}"))
            elif g is None:
                ok = diff == [("attribute", n)] and after[("attribute", n)] == key(new_value)
                out.append(("property", what, None if ok else f"{what}, which is no property, changes {diff} instead of a plain attribute"))
            else:
                allowed = {(g, n)}
                if n == "Ex":
                    allowed.add(("extended", "Same"))
                if n == "Only":
                    allowed.add(("adapted", "Alias"))
                if n == "Script":
                    allowed.add(("attribute", "held"))
                if n == "Category":
                    allowed |= {k for k in diff if k[0] == "attribute"}
                missing = (g, n) not in diff
                extra = [k for k in diff if k not in allowed]
                bad = f"{what} changes {extra} as well" if extra else f"{what} does not change its {g} property" if missing else None
                if bad is None:
                    r, y = attempt(w, lambda: it.getattr(a, n, None))
                    if y is not None or key(r) != after[(g, n)]:
                        bad = f"{what}: {show(r) if y is None else y} is read afterwards"
                    elif n not in ("Typed", "Count", "Name", "Category") and key(r) != key(new_value) and name not in ("error record",):
                        bad = f"{what} stores {show(r)}"
                out.append(("property", what, bad))
            same(out, "isolated", f"{what} on another instance", other)
            return out

        settle("property", f"{name}: {how} {n}", body, "raw")

    plainly = lambda w, base: base(w)
    for name, base in BASES:
        lookup(name, base, sample)
        lookup(f"plain {name}", base, plainly)
        for n in ("In", "Dup", "Ex", "Unknown"):
            assign(name, base, sample, n, "setattr")
            if name not in ("list", "string", "int", "duration"):
                assign(name, base, sample, n, "setitem")
    for name, base, ns in (("twofold", new("Twice"), ("Only", "Both", "Typed", "More", "Script", "Alias", "plain", "held", "Unknown")), ("record", lambda w: w.new("Record", Name=C("n")), ("Name", "Count", "Extra")), ("child", new("Child"), ("Up", "UpMore", "Down")),
                           ("grandchild", new("GrandChild"), ("Up", "UpMore", "Down"))):
        for n in ns:
            for how in ("setattr", "setitem"):
                if n in ("plain", "held"):
                    continue
                assign(name, base, plainly, n, how)

    def created(w):
        """What the constructor sets is set on that instance."""
        it = w.it
        a = w.new("Twice", Both=C("given"), Only=C("o"))
        w.built = True
        h = held(w, a)
        out = [("property", "constructor", None if h[("extended", "Both")] == key(C("given")) and h[("adapted", "Both")] == key(C("adapted")) else "the value given to the constructor is not in the extended property alone")]
        b = held(w, w.new("Twice"))
        out.append(("isolated", "constructor", None if b[("extended", "Both")] == key(C("extended")) and b[("adapted", "Both")] == key(C("adapted")) and b[("adapted", "Only")] == key(NONE) else "the values given to one instance are the defaults of the next"))
        return out

    settle("property", "values given to the constructor", created, "raw")

    def dictionary(w):
        """vars() of an object is a copy."""
        it = w.it
        a = sample(w, new("Twice"))
        w.built = True
        f = Frozen([("object", a)], stop=stop)
        d = it.getattr(a, "__dict__", None)
        it.set_item(d, C("Only"), C("replaced"), None)
        it.set_item(d, C("added"), C("replaced"), None)
        out = []
        same(out, "isolated", "a change of vars()", f)
        return out

    settle("isolated", "vars() of an object", dictionary, "raw")

    def forced(w):
        """add_member with force replaces the extended property of that name only."""
        it = w.it
        a, b = sample(w, new("PSObject")), sample(w, new("PSObject"))
        w.built = True
        out = []
        f = Frozen([("the other instance", b)], stop=stop)
        before = held(w, a)
        it.call(prog.func("add_note_property"), [a, C("Dup"), C("forced")], {"force": TRUE}, None)
        it.call(prog.func("add_note_property"), [a, C("In"), C("forced")], {"force": TRUE}, None)
        after = held(w, a)
        diff = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
        out.append(("property", "force", None if diff == [("extended", "Dup"), ("extended", "In")] and len(infos(w, a)) == 6 else f"adding members with force changes {diff}, there are {len(infos(w, a))} properties"))
        same(out, "isolated", "force on another instance", f)
        g = Frozen([("object", a)], stop=stop)
        _, x = attempt(w, lambda: it.call(prog.func("add_note_property"), [a, C("Ex"), C("again")], {}, None))
        same(out, "property", "a refused member", g)
        return out

    settle("property", "members replaced", forced, "raw")

    # ------------------------------------------------------------------ definitions
    def lists(w, cls):
        m = cls.ns.get("PSObject")
        return [(f"{n} of {cls.name}", m.attrs[n]) for n in m.attrs if isinstance(m.attrs[n], (ListV, DictV, SetV))] + [(f"definition of {cls.name}", m)] if isinstance(m, InstV) else []

    def static_definitions(w):
        w.built = True
        by, out = {}, []
        for h, n in imp.objs.values():
            if isinstance(h, ClassV):
                for label, l in lists(w, h):
                    by.setdefault(l.born, []).append(label)
        for labels in by.values():
            out.append(("definition", labels[0], None if len(labels) == 1 else f"{' and '.join(labels[:3])} are one object"))
        return out

    settle("definition", "definitions of the package", static_definitions)

    def tn(w, names):
        return [w.it.prim(x).v for x in names.items]

    def from_lists(w):
        it = w.it
        names, ad, ex = ListV([C("Given.Name")]), ListV([w.new("PSNoteProperty", C("A"))]), ListV([w.new("PSNoteProperty", C("E"))])
        w.built = True
        f = Frozen([("type names given", names), ("adapted properties given", ad), ("extended properties given", ex)], stop=stop)
        one, two = it.call(prog.func("from_lists"), [names, ad, ex], {}, None).items
        out = []
        same(out, "definition", "the lists given", f)
        both(w, out, one, two, ["Given.Name", "System.Object"], ["Given.Name", "User.Parent", "System.Object"])
        return out

    def both(w, out, one, two, tn1, tn2):
        a, b = lists(w, one), lists(w, two)
        common = {l.born for _, l in a} & {l.born for _, l in b}
        out.append(("definition", "two types", None if not common else f"{[n for n, l in a if l.born in common]} is the one of the other type"))
        for c, t in ((one, tn1), (two, tn2)):
            got = tn(w, c.ns["PSObject"].attrs["type_names"])
            out.append(("definition", f"names of {c.name}", None if got == t else f"the type names are {got}, not {t}"))

    settle("definition", "two types from one list", from_lists, "raw")

    def from_decorator(w):
        it = w.it
        d = w.new("PSType", ListV([C("Given.Name")]), ListV([w.new("PSNoteProperty", C("A"))]), rehydrate=FALSE)
        w.built = True
        one, two = it.call(prog.func("from_decorator"), [d], {}, None).items
        out = []
        both(w, out, one, two, ["Given.Name", "System.Object"], ["Given.Name", "User.Parent", "System.Object"])
        return out

    settle("definition", "two types from one decorator", from_decorator, "raw")

    def without_lists(w):
        it = w.it
        w.built = True
        one, two = it.call(prog.func("without_lists"), [], {}, None).items
        out = []
        both(w, out, one, two, ["User.Parent", "System.Object"], ["User.Parent", "System.Object"])
        return out

    settle("definition", "two types without lists", without_lists, "raw")

    def extended_type(cname, others):
        """A member added to a type is one of that type and of its later instances only."""
        def body(w):
            it = w.it
            cls = prog.cls(cname)
            a = w.new(cname)
            w.built = True
            out = []
            f = Frozen([("an instance created before", a)] + [(f"definition of {o}", prog.cls(o).ns["PSObject"]) for o in others] + [(f"an instance of {o}", w.new(o)) for o in others], stop=stop)
            it.call(prog.func("add_note_property"), [cls, C("OfType"), C("v")], {}, None)
            same(out, "definition", "a member added to the type", f)
            b = w.new(cname)
            r, x = attempt(w, lambda: it.getattr(b, "OfType", None))
            out.append(("definition", "later instances", None if x is None and key(r) == key(C("v")) else f"an instance created afterwards has {x or show(r)}"))
            g = Frozen([("definition", cls.ns["PSObject"])], stop=stop)
            it.setattr(b, "OfType", C("own"), None)
            it.call(prog.func("add_note_property"), [b, C("OfType"), C("forced")], {"force": TRUE}, None)
            same(out, "definition", "the member set on an instance", g)
            return out

        settle("definition", f"member added to {cname}", body, "raw", imports=False)

    for cname, others in (("Parent", ["Child", "Twice", "GrandChild"]), ("Child", ["Parent", "GrandChild"]), ("GrandChild", ["Parent", "Child"]), ("PSList", ["PSStack", "PSDict"])):
        extended_type(cname, others)

    # ------------------------------------------------------------------ results are new objects
    def fresh(name, mk, derive, label):
        def body(w):
            v = mk(w)
            w.built = True
            if not isinstance(v, InstV):
                return []
            f = Frozen([("value", v)], stop=stop)
            r, x = attempt(w, lambda: derive(w, v))
            out = []
            same(out, "fresh", f"{label} leaves the value", f)
            if x is None and isinstance(r, Heap):
                shared(out, "fresh", label, [("result", r)], [("value", v)])
                owned(out, "fresh", label, [("result", r)])
            return out

        settle("fresh", f"{name}: {label}", body, "raw")

    VALUES = [("PSInt", new("PSInt", C(3))), ("PSByte", new("PSByte", C(3))), ("PSInt64", new("PSInt64", C(3))), ("PSString", new("PSString", C("s"))), ("PSChar", new("PSChar", C("s"))), ("PSDouble", new("PSDouble", C(1.5))), ("PSSingle", new("PSSingle", C(1.5))),
              ("PSDecimal", new("PSDecimal", C("1.5"))), ("PSGuid", new("PSGuid", C(GUID))), ("PSDateTime", new("PSDateTime", C(2020), C(1), C(2))), ("PSDuration", new("PSDuration", days=C(1), nanoseconds=C(100))), ("PSByteArray", new("PSByteArray", C(b"ab"))),
              ("PSUri", new("PSUri", C("http://x"))), ("PSXml", new("PSXml", C("<a/>"))), ("PSScriptBlock", new("PSScriptBlock", C("s"))), ("PSSecureString", new("PSSecureString", C("s"))), ("PSList", new("PSList", ListV([C(1)]))), ("PSDict", new("PSDict"))]
    for name, mk in VALUES:
        m = lambda w, mk=mk: ext(w, mk(w))
        if name != "PSSecureString":  # holds what it is given
            fresh(name, m, lambda w, v: w.it.call(v.cls, [v], {}, None), "constructed from it")
        for op, args in (("__abs__", []), ("__neg__", []), ("__add__", [1]), ("__or__", [1]), ("__lshift__", [0]), ("decrypt", []), ("replace", []), ("__mul__", [1])):
            if op == "__add__" and name in ("PSDateTime", "PSDuration"):
                fresh(name, m, lambda w, v: w.it.user_op(v, "__add__", [w.new("PSDuration", days=C(1))]), "added to")
            elif op in ("decrypt", "replace"):
                if (op == "decrypt") == (name == "PSSecureString") and (op == "decrypt" or name == "PSDateTime"):
                    fresh(name, m, lambda w, v, op=op: w.call(v, op), op)
            elif name in ("PSInt", "PSByte", "PSInt64", "PSDuration"):
                fresh(name, m, lambda w, v, op=op, args=args: w.it.user_op(v, op, [C(a) for a in args]), op)

    def from_enum(cname, member, target):
        def body(w):
            e = w.enum(cname, member) if isinstance(member, str) else member
            w.built = True
            out = []
            a, x = attempt(w, lambda: w.it.call(prog.cls(target), [e], {}, None))
            b, _ = attempt(w, lambda: w.it.call(prog.cls(target), [e], {}, None))
            if x is None and isinstance(a, InstV):
                ra, rb = reach([("first", a)]), reach([("second", b)])
                bad = sorted((n for k, (o, n) in ra.items() if k in rb), key=len)
                out.append(("fresh", f"{target} of {cname}.{e.name}", None if not bad else f"{target}({cname}.{e.name}) gives the same object each time: {bad[0]}"))
            return out

        settle("fresh", f"{target} from {cname}", body, "raw")

    for cname, member, target in (("ConsoleColor", "Red", "PSInt"), ("IntEnum", "high", "PSInt"), ("ByteEnum", "high", "PSByte"), ("UIntFlags", "first", "PSUInt"), ("PyIntEnum", "one", "PSInt"), ("PyEnum", "number", "PSInt"), ("ByteEnum", "low", "PSInt"), ("RunspacePoolState", "Opened", "PSInt")):
        from_enum(cname, member, target)

    # ------------------------------------------------------------------ documents
    B = build

    def doc(w, n):
        tn = lambda r, *names: B(w, "TN", None, [B(w, "T", x) for x in names], RefId=r)
        o = lambda r, *kids: B(w, "Obj", None, list(kids), RefId=r)
        if n == "type names by reference":
            return o("0", B(w, "LST", None, [o("1", tn("0", "A.B", "System.Object"), B(w, "MS", None, [B(w, "I32", "1", N="x")])), o("2", B(w, "TNRef", RefId="0"), B(w, "MS", None, [B(w, "I32", "2", N="x")])), o("3", B(w, "TNRef", RefId="0"))]))
        if n == "registered type names by reference":
            return o("0", B(w, "LST", None, [o("1", tn("0", "User.Twice", "User.Other"), B(w, "MS", None, [B(w, "I32", "1", N="More")])), o("2", B(w, "TNRef", RefId="0")), o("3", B(w, "TNRef", RefId="0"), B(w, "Props", None, [B(w, "S", "x", N="Only")]))]))
        if n == "empty containers":
            return o("0", B(w, "LST", None, [o("1", tn("0", "System.Collections.ArrayList"), B(w, "LST")), o("2", B(w, "TNRef", RefId="0"), B(w, "LST")), o("3", B(w, "DCT")), o("4", B(w, "DCT")), o("5", B(w, "QUE")), o("6", B(w, "QUE")), o("7", B(w, "STK")), o("8", B(w, "STK")), o("9", B(w, "IE")), o("10", B(w, "IE"))]))
        if n == "primitives":
            return o("0", B(w, "LST", None, [B(w, t, x) for t, x in (("S", "a"), ("S", "a"), ("I32", "1"), ("I32", "1"), ("U32", "1"), ("U32", "1"), ("BA", "YWI="), ("BA", "YWI="), ("G", GUID), ("G", GUID), ("TS", "P1D"), ("TS", "P1D"), ("Version", "1.2"), ("Version", "1.2"), ("C", "65"), ("C", "65"), ("SBK", "x"), ("SBK", "x"))]))
        if n == "extended primitives":
            return o("0", B(w, "LST", None, [o("1", B(w, "S", "t"), B(w, "MS", None, [B(w, "S", "x", N="Extra")])), o("2", B(w, "S", "t"), B(w, "MS", None, [B(w, "S", "x", N="Extra")])), o("3", tn("0", "X.Enum", "System.Enum"), B(w, "I32", "3"), B(w, "ToString", "Three")), o("4", B(w, "TNRef", RefId="0"), B(w, "I32", "3"), B(w, "ToString", "Three"))]))
        if n == "records":
            return o("0", B(w, "LST", None, [o(str(i), tn(str(i), "System.Management.Automation.ErrorRecord"), B(w, "MS", None, [B(w, "S", "id", N="FullyQualifiedErrorId")])) for i in (1, 2)]))

    for n in ("type names by reference", "registered type names by reference", "empty containers", "primitives", "extended primitives", "records"):
        def read(w, n=n):
            it = w.it
            e, e2 = doc(w, n), doc(w, n)
            w.built = True
            out = []
            a, x = attempt(w, lambda: deserialize(w, e))
            if x is not None:
                return [("document", "read", f"reading it raises {x}")] if n != "records" else []
            b, c = deserialize(w, e), deserialize(w, e2)
            shared(out, "document", "read twice", [("first", a)], [("second", b)])
            shared(out, "document", "two documents", [("first", a)], [("other", c)])
            shared(out, "document", "value and document", [("value", a)], [("document", e)])
            owned(out, "document", "value", [("value", a)])
            items = a.attrs.get("$list", a) if isinstance(a, InstV) else a
            l = items.items if isinstance(items, ListV) else []
            for i in range(len(l)):
                for j in range(i):
                    if isinstance(l[i], Heap) and isinstance(l[j], Heap):
                        shared(out, "document", f"values {j} and {i} of the document", [(f"value {j}", l[j])], [(f"value {i}", l[i])])
            if len(l) < 2:
                raise Unsupported("content of " + show(a))
            f = Frozen([("the value read from the same document", b), ("the value read from another document", c)] + [(f"value {i} of the document", v) for i, v in enumerate(l[1:], 1)], stop=stop)
            for label, act in mutations(w, l[0]):
                attempt(w, act)
                ch = f.changes()
                if ch:
                    out.append(("isolated", f"{label} of a value read", "; ".join(t for _, t in ch[:2])))
                    break
            d = deserialize(w, e)
            out.append(("document", "read after a change", None if stable_shape(w, d) == stable_shape(w, c) else f"it is read as {str(stable_shape(w, d))[:200]} after a value read before was changed, {str(stable_shape(w, c))[:200]} otherwise"))
            return out

        settle("document", f"document with {n}", read, "raw")

    def written(name, mk):
        def body(w):
            v, u = mk(w), mk(w)
            w.built = True
            out = []
            e1, x = attempt(w, lambda: serialize(w, v))
            if x is not None:
                return []
            e2, e3 = serialize(w, v), serialize(w, u)
            shared(out, "document", "written twice", [("first", e1)], [("second", e2)])
            shared(out, "document", "document and value", [("document", e1)], [("value", v)])
            owned(out, "document", "written", [("document", e1)])
            f = Frozen([("the first document", e1), ("the second document", e2)], stop=stop)
            serialize(w, u)
            serialize(w, ListV([v, u]))
            same(out, "document", "others are written", f)
            return out

        settle("document", f"{name} written", body, "plain")

    for name, mk in conts + kinds() + [("records", lambda w: ListV([progress(w), powershell(w)]))]:
        written(name, mk)

    # ------------------------------------------------------------------ shells and their output
    def shells(w):
        it = w.it
        a, b = w.new("ClixmlShell"), w.new("ClixmlShell")
        w.built = True
        out = []
        shared(out, "own", "two shells", [("first", a)], [("second", b)])
        f = Frozen([("the other shell", b)], stop=stop)
        sizes = []
        for i in range(3):
            for s, v in (("output", bag(w, x=C(1))), ("debug", C("d")), ("verbose", C("v")), ("warning", C("w"))):
                w.call(a, f"write_{s}", v)
            w.call(a, "data_to_send")
            sizes.append(size([("shell", a)]))
        same(out, "isolated", "writing to a shell", f)
        out.append(("growth", "a shell written to and sent", None if sizes[1][0] == sizes[2][0] else f"the shell holds more after each round: {sizes[2][1] - sizes[1][1] or sizes[2][1]}"))
        return out

    def size(roots):
        """(number, items) of the mutable things held."""
        n, what = 0, set()
        for o, p in reach(roots, stop=stop).values():
            if o.born in imp.objs:
                continue
            n += 1 + sum(1 for _ in parts(o))
            if isinstance(o, BufV):
                v = o.val
                n += len(v.v) if isinstance(v, Const) else 0
            if isinstance(o, (DictV, ListV, SetV)):
                what.add((p, sum(1 for _ in parts(o))))
        return n, what

    settle("growth", "shells", shells, "link")

    # ------------------------------------------------------------------ conversations of pools
    def keyed(w, **kw):
        from ..ops import version_peer
        c, s = pair(w, **kw)
        for p in (c, s):
            for v in p.attrs.values():
                if isinstance(v, InstV) and v.cls.name == "PSRemotingCrypto":
                    w.call(v, "register_key", S("session", "bytes"))
            version_peer(w, p, "2.3")
        return c, s

    def pid(i):
        return uuid.UUID(int=0x1000 + i)

    def exchange(w, c, s, amount=None):
        ev = []
        for _ in range(3):
            ev += pump(w, c, s, amount=amount)
            ev += pump(w, s, c, amount=amount)
        return ev

    def pipes(w, c, s, i, **kw):
        p = w.new("ClientPowerShell", c, pipeline_id=C(pid(i)), **kw)
        w.call(p, "add_command", C("cmd"))
        w.call(p, "add_parameter", C("Path"), ListV([C(1)]))
        sp = w.new("ServerPipeline", s, C(pid(i)))
        return p, sp

    def talk_run(amount=None):
        def talk(w, c, s, i):
            p, sp = pipes(w, c, s, i, no_input=FALSE)
            w.call(p, "start")
            ev = exchange(w, c, s, amount)
            w.call(sp, "start")
            w.call(p, "send", bag(w, x=C(i)))
            w.call(p, "send_eof")
            ev += exchange(w, c, s, amount)
            w.call(sp, "write_output", bag(w, x=ListV([C(1)])))
            w.call(sp, "write_output", C("x"))
            w.call(sp, "write_debug", C("d"))
            w.call(sp, "write_error", w.new("NETException", Message=C("m")))
            w.call(sp, "write_information", C("d"), C("s"), w.new("PSDateTime", C(2020), C(1), C(1)), ListV([C("t")]), C("u"), C("c"), C(1), C(2), C(3))
            w.call(sp, "complete")
            ev += exchange(w, c, s, amount)
            w.call(p, "close")
            w.call(sp, "close")
            return ev
        return talk

    def talk_stop(w, c, s, i):
        p, sp = pipes(w, c, s, i)
        w.call(p, "start")
        ev = exchange(w, c, s)
        w.call(sp, "start")
        w.call(p, "begin_stop")
        w.call(sp, "begin_stop")
        w.call(sp, "stop")
        ev += exchange(w, c, s)
        w.call(p, "close")
        w.call(sp, "close")
        return ev

    def talk_metadata(w, c, s, i):
        p = w.new("ClientGetCommandMetadata", c, C("Get-*"), pipeline_id=C(pid(i)))
        sp = w.new("ServerPipeline", s, C(pid(i)))
        w.call(p, "start")
        ev = exchange(w, c, s)
        w.call(sp, "start")
        w.call(sp, "complete")
        ev += exchange(w, c, s)
        w.call(p, "close")
        w.call(sp, "close")
        return ev

    def talk_host(method, piped=False, error=False):
        def talk(w, c, s, i):
            o, q = s, c
            if piped:
                q, o = pipes(w, c, s, i)
                w.set_state(q, "Running", "PSInvocationState")
                w.set_state(o, "Running", "PSInvocationState")
            w.call(o, "host_call", w.enum("HostMethodIdentifier", method), *([ListV([C("x")])] if method != "ReadLine" else []))
            ev = exchange(w, c, s)
            if method == "ReadLine":
                w.call(q, "host_response", w.get(ev[-1], "ci"), *([NONE, w.new("ErrorRecord", Exception=w.new("NETException", Message=C("m")), CategoryInfo=w.new("ErrorCategoryInfo"))] if error else [C("text")]))
                ev += exchange(w, c, s)
            if piped:
                for x in (q, o):
                    w.set_state(x, "Completed", "PSInvocationState")
                    w.call(x, "close")
            return ev
        return talk

    def talk_ci(name, answer, *args):
        def talk(w, c, s, i):
            ci = w.call(c, name, *[C(a + i) for a in args])
            ev = exchange(w, c, s)
            w.call(s, "runspace_availability_response", ci, answer)
            return ev + exchange(w, c, s)
        return talk

    def talk_event(w, c, s, i):
        w.call(s, "send_event", C(i), C("id"), bag(w, x=C(1)), ListV([C(i)]), bag(w), w.new("PSDateTime", C(2020), C(1), C(1)), C("computer"))
        return exchange(w, c, s)

    def talk_disconnect(w, c, s, i):
        for m in ("begin_disconnect", "disconnect", "reconnect"):
            for p in (c, s):
                w.call(p, m)
        return exchange(w, c, s)

    TALKS = [("pipeline", talk_run()), ("pipeline in small pieces", talk_run(60)), ("stopped pipeline", talk_stop), ("metadata request", talk_metadata), ("host call", talk_host("ReadLine")), ("host call without an answer", talk_host("WriteLine2")),
             ("host call of a pipeline", talk_host("ReadLine", True)), ("host call answered with an error", talk_host("ReadLine", error=True)), ("host call of a pipeline without an answer", talk_host("WriteLine2", True)), ("available runspaces", talk_ci("get_available_runspaces", C(5))),
             ("maximum", talk_ci("set_max_runspaces", TRUE, 10)), ("minimum", talk_ci("set_min_runspaces", TRUE, 2)), ("refused maximum", talk_ci("set_max_runspaces", FALSE, 10)), ("reset", talk_ci("reset_runspace_state", TRUE)), ("event", talk_event), ("disconnection", talk_disconnect)]

    def is_pool(o):
        return isinstance(o, InstV) and any(getattr(c, "name", None) == "RunspacePool" for c in o.cls.mro)

    def no_pool(o):
        return stop(o) or is_pool(o)

    for name, talk in TALKS:
        def rounds(w, talk=talk):
            c, s = keyed(w)
            oc, os = keyed(w)
            op, osp = pipes(w, oc, os, 900)
            w.call(op, "start")
            w.call(os, "host_call", w.enum("HostMethodIdentifier", "ReadLine"))
            pump(w, os, oc)
            out = []
            f = Frozen([("the other client", oc), ("the other server", os)], stop=stop)
            sizes, evs = [], []
            for i in range(3):
                # the numbers of the operations are of one width in the last two rounds
                evs.append(talk(w, c, s, i))
                if i == 0:
                    w.built = True
                    fe = Frozen([(f"event {j}", e) for j, e in enumerate(evs[0])], stop=no_pool)
                sizes.append([(n, size([(n, p)])) for n, p in (("client", c), ("server", s))])
            for (n, a), (_, b) in zip(sizes[1], sizes[2]):
                grown = sorted(x for x in b[1] - a[1])
                out.append(("growth", n, None if a[0] == b[0] else f"the {n} holds {b[0] - a[0]:+d} things after each round: {', '.join(f'{p} has {k} entries' for p, k in grown[:3])}"))
            same(out, "pools", "another client and server", f)
            shared(out, "pools", "two clients", [("first", c)], [("second", oc)])
            shared(out, "pools", "two servers", [("first", s)], [("second", os)])
            same(out, "events", "events of an earlier round", fe)
            held_by = reach([("client", c), ("server", s)], stop=stop)
            for j, (a, b) in enumerate(zip(evs[1], evs[2])):
                ra, rb = reach([(f"event {j}", a)], stop=no_pool), reach([(f"event {j} of the next round", b)], stop=no_pool)
                bad = sorted(((ra[k][1], rb[k][1]) for k in ra if k in rb and k not in imp.constants and k not in held_by), key=lambda t: len(t[0]))
                out.append(("events", f"event {j}", None if not bad else f"{bad[0][0]} and {bad[0][1]} are the same object"))
            return out

        settle("growth", f"conversation: {name}", rounds, "link")

    # ------------------------------------------------------------------ what one pool was asked is answered from its own state
    def alone(w, talk, other):
        c, s = keyed(w)
        oc, os = keyed(w) if other else (None, None)
        got = []
        for i in range(2):
            if other:
                talk(w, oc, os, i + 50)
            got.append([e.cls.name for e in talk(w, c, s, i)])
            w.call(s, "send_event", C(i), C("id"), C(1), ListV([]), C(1), w.new("PSDateTime", C(2020), C(1), C(1)), C("computer"))
            w.call(c, "get_available_runspaces")
            for p in (c, s):
                pls, ms = drain(w, p)
                from .c14 import canon
                got.append([(m.oid, m.name, m.dest, None if m.pid is None else m.pid.int, None if m.doc is None else canon(w.it, snap(w.it, m.doc))) for m in ms])
        return got

    for name, talk in TALKS:
        if name in ("pipeline in small pieces",):
            continue

        def independent(w, talk=talk):
            a = alone(w, talk, False)
            w.built = True
            b = alone(w, talk, True)
            ok = stable_keys(a) == stable_keys(b)
            return [("pools", "with another pair in use", None if ok else f"{first_difference(stable_keys(a), stable_keys(b))}")]

        settle("pools", f"same conversation: {name}", independent, "link")

    # ------------------------------------------------------------------ two pipelines of one pool
    PIPE_ACTS = [("add_command", [C("x")]), ("add_parameter", [C("n"), C("v")]), ("add_argument", [C("v")]), ("add_script", [C("s")]), ("add_statement", []), ("start", []), ("send", [C(1)]), ("send_eof", []), ("begin_stop", [])]
    SERVER_ACTS = [("start", []), ("write_output", [C(1)]), ("write_debug", [C("d")]), ("host_call", None), ("complete", [])]

    def neighbours(w):
        c, s = keyed(w)
        p, sp = pipes(w, c, s, 1)
        q, sq = pipes(w, c, s, 2)
        w.built = True
        out = []
        shared(out, "pipelines", "two client pipelines", [("first", p.attrs["metadata"] if "metadata" in p.attrs else p)], [("second", q.attrs.get("metadata", q))])
        f = Frozen([("the other client pipeline", q), ("the other server pipeline", sq)], stop=no_pool)
        for o, acts in ((p, PIPE_ACTS), (sp, SERVER_ACTS), (p, [("close", [])]), (sp, [("close", [])])):
            for n, a in acts:
                attempt(w, lambda: w.call(o, n, *(a if a is not None else [w.enum("HostMethodIdentifier", "ReadLine")])))
                ch = f.changes()
                out.append(("pipelines", n, "; ".join(t for _, t in ch[:2]) or None))
                if ch:
                    return out
            exchange(w, c, s)
        ch = f.changes()
        out.append(("pipelines", "delivered", "; ".join(t for _, t in ch[:2]) or None))
        return out

    settle("pipelines", "two pipelines of one pool", neighbours, "link")
