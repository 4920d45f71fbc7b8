"""C21: every field of a record or command survives its conversion."""
from ..link import *
from ..vals import *

META = {
    "level": "other",
    "technique": "abstract interpretation of the writing and reading conversions with a distinct symbolic or constant value per field, compared property by property with the MS-PSRP table",
    "explanation": "Every converted type is built with a different value in each field (symbolic texts, distinct numbers and enum members, booleans in every one-hot pattern, optional parts "
                   "present and absent), sent from one interpreted pool to the other, and (a) the element under each MS-PSRP property name is compared with what the value of that field alone "
                   "serializes to, (b) each field of what the receiver is given is compared with the field it was built from.",
    "rules": ["wire-name", "wire-absent", "read-back", "read-absent", "operation"],
}
ABSENT = object()
PRESENT = object()


class Doc:
    """A document with its references resolved."""

    def __init__(self, root):
        self.root = root
        self.objs, self.names = {}, {}
        for k in root.walk():
            r = k.attrib.get("RefId")
            if r is not None:
                (self.objs if k.tag == "Obj" else self.names if k.tag == "TN" else {})[key(r)] = k

    def norm(self, x, deep=0, top=False):
        if deep > 25:
            return "deep"
        if x.tag == "Ref":
            x2 = self.objs.get(key(x.attrib.get("RefId", NONE)), x)
            if x2 is not x:
                return self.norm(X("Obj", {k: v for k, v in x.attrib.items() if k == "N"}, x2.text, x2.kids), deep + 1, top)
        if x.tag == "TNRef":
            x = self.names.get(key(x.attrib.get("RefId", NONE)), x)
        att = tuple(sorted((k, key(text_base(v))) for k, v in x.attrib.items() if k != "RefId" and not (top and k == "N")))
        kids = [self.norm(k, deep + 1) for k in x.kids]
        text = None if x.text is None or (isinstance(x.text, Const) and x.text.v in ("", None)) else key(text_base(x.text))
        return (x.tag, att, text) + tuple(kids)

    def down(self, x, part):
        if x.tag == "Ref":
            x = self.objs.get(key(x.attrib.get("RefId", NONE)), x)
        if isinstance(part, str):
            return [q for g in x.kids if g.tag in ("MS", "Props") for q in g.kids if isinstance(q.attrib.get("N"), Const) and q.attrib["N"].v == part]
        if isinstance(part, int):
            for g in x.kids:
                if g.tag in ("LST", "STK", "QUE", "IE"):
                    return g.kids[part:part + 1]
                if g.tag == "DCT":
                    for en in g.kids:
                        k, v = en.kids
                        if isinstance(k.text, Const) and k.text.v == str(part):
                            return [v]
            return []

    def at(self, path):
        xs = [self.root]
        for part in path:
            xs = [y for x in xs for y in self.down(x, part)]
        return xs


class Case:
    """What a scenario wants of the wire and of the receiver."""

    def __init__(self, w):
        self.w, self.fields, self.wires = w, [], []

    def field(self, label, expected, get, rule="read-back"):
        """get(received) is the value expected."""
        self.fields.append((rule, label, expected if expected is ABSENT else shape(self.w.it, expected), get))

    def wire(self, path, expected):
        path = path if isinstance(path, tuple) else (path,)
        self.wires.append((path, expected))


def check(chk):
    prog = chk.prog
    prog.extra("user_types")

    def assume(it, s):
        return True if s.op in ("resub", "arg", "encode", "decode") else None

    cfg = lambda: link_config(assume=assume)

    def scenario(name, body):
        """body(w) -> (sender, receiver, case, got) after the operation; got(event) the received value."""
        name = name + (", empty" if mode["empty"] else "")
        empty = mode["empty"]

        def run_body(w):
            start(w)
            it = w.it
            c, s = pair(w)
            case = Case(w)
            src, dst, act, got = body(w, c, s, case)
            wires = []
            for path, e in case.wires:
                if e is ABSENT or e is PRESENT:
                    wires.append((path, e))
                else:
                    d = Doc(snap(it, serialize(w, e, their_capability=w.get(src, "their_capability"))))
                    wires.append((path, d.norm(d.root, top=True)))
            w.built = True
            act()
            pls, ms = drain(w, src)
            ms = [m for m in ms if m.doc is not None]
            out = []
            if not ms:
                return [("operation", "message", "nothing is sent")]
            d = Doc(snap(it, ms[-1].doc))
            for path, e in wires:
                label = ".".join(map(str, path))
                xs = d.at(path)
                if e is ABSENT:
                    out.append(("wire-absent", label, None if not xs else "is written although it is absent"))
                elif len(xs) != 1:
                    out.append(("wire-name", label, f"is written {len(xs)} times"))
                elif e is not PRESENT:
                    n = d.norm(xs[0], top=True)
                    out.append(("wire-name", label, None if same(it, e, n) else f"is written as {str(n)[:300]}, the value is {str(e)[:300]}"))
            w.sent = True
            deliver(w, pls, dst)
            evs = events(w, dst)
            if not evs:
                return out + [("operation", "event", "nothing is received")]
            v = got(evs[-1])
            for rule, label, e, get in case.fields:
                try:
                    r = get(v)
                except PyRaise as ex:
                    out.append((rule, label, f"reading it raises {getattr(ex.cls, 'name', ex.cls)}"))
                    continue
                if e is ABSENT:
                    p = it.prim(r)
                    out.append(("read-absent", label, None if isinstance(p, Const) and p.v is None else f"is read as {show(r)[:200]} although it is absent"))
                else:
                    g = shape(it, r)
                    out.append((rule, label, None if alike(it, e, g) else f"is read as {str(g)[:300]}, it was {str(e)[:300]}"))
            return out

        def decide():
            ps = chk.seen(run(prog, run_body, cfg()))
            if not any(getattr(p.world, "built", False) for p in ps):
                raise Unsupported("the scenario cannot be built: " + "; ".join(sorted({str(p.exc_name()) for p in ps})))
            for p in ps:
                if p.kind == "return":
                    for rule, label, b in p.value:
                        chk.need(b is None, rule, f"{name}: {label}", b, path=p)
                elif getattr(p.world, "built", False):
                    chk.bad("operation", name, f"raises {p.exc_name()}", path=p)

        chk.attempt("operation", name, decide)

    def alike(it, a, b):
        """Same value; a plain object of a received type that is not registered keeps its properties under marked type names."""
        return same(it, bare(a), bare(b))

    def bare(s):
        """Without type names and adapted/extended distinction, classes of objects by their properties."""
        if isinstance(s, tuple):
            if len(s) == 4 and isinstance(s[0], str) and isinstance(s[3], tuple) and isinstance(s[2], tuple) and isinstance(s[1], tuple):
                if s[1][:1] == ("attrs",) and not any(isinstance(x, tuple) and str(x[0]).startswith("$") for x in s[1][1:]):
                    return ("object", ("attrs",), tuple(sorted(((p[1], bare(p[2])) for p in s[2]), key=repr)))
                if s[1][:1] == ("dict",):
                    return ("PSDict", bare(s[1]), ())
                return (s[0], bare(s[1]), bare(s[2]), s[3])
            return tuple(bare(x) for x in s)
        return s

    # ------------------------------------------------------------------ helpers
    def attr(w, *names):
        def g(v):
            for n in names:
                v = w.get(v, n)
            return v
        return g

    mode = {"empty": False}
    T = lambda n: Const("") if mode["empty"] else S(n, "str")
    K = lambda n: Const(0) if mode["empty"] else Const(n)
    boolean = lambda b: TRUE if b else FALSE

    def exception(w, tag="x"):
        return w.new("NETException", Message=T(tag + "-message"), Source=T(tag + "-source"), HResult=Const(-17), HelpLink=T(tag + "-help"))

    # ------------------------------------------------------------------ host information
    def host(w, flags=(False, True, False, True), data=True):
        hd = NONE
        if data:
            hd = w.new("HostDefaultData",
                       ForegroundColor=w.enum("ConsoleColor", "Red"), BackgroundColor=w.enum("ConsoleColor", "Blue"),
                       CursorPosition=w.new("Coordinates", X=K(101), Y=K(102)), WindowPosition=w.new("Coordinates", X=K(103), Y=K(104)), CursorSize=K(105),
                       BufferSize=w.new("Size", Width=K(106), Height=K(107)), WindowSize=w.new("Size", Width=K(108), Height=K(109)),
                       MaxWindowSize=w.new("Size", Width=K(110), Height=K(111)), MaxPhysicalWindowSize=w.new("Size", Width=K(112), Height=K(113)), WindowTitle=T("title"))
        return w.new("HostInfo", IsHostNull=boolean(flags[0]), IsHostUINull=boolean(flags[1]), IsHostRawUINull=boolean(flags[2]), UseRunspaceHost=boolean(flags[3]), HostDefaultData=hd)

    HOST_WIRE = ("_isHostNull", "_isHostUINull", "_isHostRawUINull", "_useRunspaceHost")
    HOST_FIELD = ("IsHostNull", "IsHostUINull", "IsHostRawUINull", "UseRunspaceHost")

    def host_case(w, case, flags, data, wire, get):
        for n, f, b in zip(HOST_WIRE, HOST_FIELD, flags):
            case.wire(wire + (n,), boolean(b))
            case.field("host " + f, boolean(b), lambda v, f=f: w.get(get(v), f))
        hd = wire + ("_hostDefaultData",)
        if not data:
            case.wire(hd, ABSENT)
            case.field("host default data", ABSENT, lambda v: w.get(get(v), "HostDefaultData"))
            return
        H = "System.Management.Automation.Host."
        for i, (f, t, val, sub) in enumerate((
                ("ForegroundColor", "System.ConsoleColor", "Red", None), ("BackgroundColor", "System.ConsoleColor", "Blue", None),
                ("CursorPosition", H + "Coordinates", (101, 102), "XY"), ("WindowPosition", H + "Coordinates", (103, 104), "XY"), ("CursorSize", "System.Int32", 105, None),
                ("BufferSize", H + "Size", (106, 107), "WH"), ("WindowSize", H + "Size", (108, 109), "WH"), ("MaxWindowSize", H + "Size", (110, 111), "WH"),
                ("MaxPhysicalWindowSize", H + "Size", (112, 113), "WH"), ("WindowTitle", "System.String", None, None))):
            d = hd + ("data", i)
            g = lambda v, f=f: w.get(w.get(get(v), "HostDefaultData"), f)
            case.wire(d + ("T",), Const(t))
            if sub:
                for n, k, x in zip(("x", "y") if sub == "XY" else ("width", "height"), ("X", "Y") if sub == "XY" else ("Width", "Height"), val):
                    case.wire(d + ("V", n), K(x))
                    case.field(f"default data {f}.{k}", K(x), lambda v, g=g, k=k: w.get(g(v), k))
            elif isinstance(val, str):
                m = w.enum("ConsoleColor", val)
                case.wire(d + ("V",), Const({"Red": 12, "Blue": 9}[val]))
                case.field(f"default data {f}", m, g)
            else:
                e = K(val) if val is not None else T("title")
                case.wire(d + ("V",), e)
                case.field(f"default data {f}", e, g)

    # ------------------------------------------------------------------ pipelines
    PR = lambda w, n: w.enum("PipelineResultTypes", n)

    def pipe_pair(w, c, s, cls="ClientPowerShell", **kw):
        p = w.new(cls, c, pipeline_id=Const(PID), **kw)
        w.new("ServerPipeline", s, Const(PID))
        return p

    def pipeline(name, kw, setup, flags=(False, True, False, True), data=False, history=True, extra=None, apartment="STA", options=("AddInvocationInfoToErrorRecord",), **bools):
        def body(w, c, s, case):
            b = dict(add_to_history=False, is_nested=False, no_input=False, redirect_shell_error_to_out=False)
            b.update(bools)
            ro = w.enum("RemoteStreamOptions", options[0])
            h = T("history") if history else NONE
            args = dict(history=h, host=host(w, flags, data), apartment_state=w.enum("ApartmentState", apartment) if apartment else NONE, remote_stream_options=ro)
            args.update({k: boolean(v) for k, v in b.items()})
            p = pipe_pair(w, c, s, **args)
            setup(w, p, case)
            case.wire("NoInput", boolean(b["no_input"]))
            case.wire("AddToHistory", boolean(b["add_to_history"]))
            case.wire("IsNested", boolean(b["is_nested"]))
            case.wire(("PowerShell", "IsNested"), boolean(b["is_nested"]))
            case.wire(("PowerShell", "RedirectShellErrorOutputPipe"), boolean(b["redirect_shell_error_to_out"]))
            case.wire(("PowerShell", "History"), h)
            case.wire("RemoteStreamOptions", ro)
            ap = w.enum("ApartmentState", apartment or "Unknown")  # the pool's one when none is given
            case.wire("ApartmentState", ap)
            for n, v in b.items():
                case.field(n, boolean(v), attr(w, n))
            case.field("history", h if history else ABSENT, attr(w, "history"))
            case.field("apartment_state", ap, attr(w, "apartment_state"))
            case.field("remote_stream_options", ro, attr(w, "remote_stream_options"))
            host_case(w, case, flags, data, ("HostInfo",), attr(w, "host"))
            return c, s, (lambda: w.call(p, "start")), (lambda ev: w.get(ev, "pipeline"))

        scenario(name, body)

    STREAMS = ("error", "warning", "verbose", "debug", "information")

    def command(w, p, i, case, where, script=False, scope=None, merge=None, unclaimed=False, args=(), end=None):
        """One command added to the pipeline and what is expected of it."""
        cmd = w.new("Command", T(f"name{i}"), is_script=boolean(script), use_local_scope=boolean(scope) if scope is not None else NONE)
        if unclaimed:
            cmd.attrs["merge_unclaimed"] = TRUE
        for k, m in (merge or {}).items():
            w.call(cmd, "redirect_" + k, PR(w, m))
        for n, v in args:
            if n is None:
                w.call(cmd, "add_argument", v)
            else:
                w.call(cmd, "add_parameter", n, v)
        w.call(p, "add_command", cmd)
        e = {k: PR(w, (merge or {}).get(k, "none")) for k in STREAMS}
        err = (merge or {}).get("error", "none")
        my, to = (PR(w, "Error"), PR(w, "Output")) if err == "Output" else (PR(w, "none"), PR(w, "none"))
        g = lambda v, i=i: w.it.get_item(w.get(v, "commands"), Const(i), None)
        for path in where:
            case.wire(path + ("Cmd",), T(f"name{i}"))
            case.wire(path + ("IsScript",), boolean(script))
            case.wire(path + ("UseLocalScope",), boolean(scope) if scope is not None else NONE)
            case.wire(path + ("MergeMyResult",), my)
            case.wire(path + ("MergeToResult",), to)
            case.wire(path + ("MergePreviousResults",), flag(w, unclaimed))
            for k in STREAMS:
                case.wire(path + ("Merge" + k.capitalize(),), e[k])
            for j, (n, v) in enumerate(args):
                case.wire(path + ("Args", j, "N"), n if n is not None else NONE)
                case.wire(path + ("Args", j, "V"), v)
            case.wire(path + ("Args", len(args)), ABSENT)
        case.field(f"command {i} text", T(f"name{i}"), lambda v: w.get(g(v), "command_text"))
        case.field(f"command {i} is_script", boolean(script), lambda v: w.get(g(v), "is_script"))
        case.field(f"command {i} use_local_scope", boolean(scope) if scope is not None else NONE, lambda v: w.get(g(v), "use_local_scope"))
        case.field(f"command {i} merge_unclaimed", boolean(unclaimed), lambda v: w.get(g(v), "merge_unclaimed"))
        case.field(f"command {i} merge_my", my, lambda v: w.get(g(v), "merge_my"))
        case.field(f"command {i} merge_to", to, lambda v: w.get(g(v), "merge_to"))
        for k in STREAMS:
            case.field(f"command {i} merge_{k}", e[k], lambda v, k=k: w.get(g(v), "merge_" + k))
        case.field(f"command {i} number of parameters", Const(len(args)), lambda v: Const(len(w.it.prim(w.get(g(v), "parameters")).items)))
        for j, (n, v) in enumerate(args):
            for k, x in ((0, n if n is not None else NONE), (1, v)):
                case.field(f"command {i} parameter {j} {'name' if k == 0 else 'value'}", x,
                           lambda r, j=j, k=k: w.it.get_item(w.it.get_item(w.get(g(r), "parameters"), Const(j), None), Const(k), None))
        if end is not None:
            case.field(f"command {i} end_of_statement", boolean(end), lambda v: w.get(g(v), "end_of_statement"))

    def flag(w, unclaimed):
        if not unclaimed:
            return PR(w, "none")
        return w.it.binop(ast.BitOr(), PR(w, "Output"), PR(w, "Error"), None)

    def one(**kw):
        def setup(w, p, case):
            k = dict(kw)
            if "args" in k:
                k["args"] = k["args"](w)
            command(w, p, 0, case, [("PowerShell", "Cmds", 0)], **k)
            case.wire(("PowerShell", "Cmds", 1), ABSENT)
            case.wire(("PowerShell", "ExtraCmds"), ABSENT)
            case.field("number of commands", Const(1), lambda v: Const(len(w.it.prim(w.get(v, "commands")).items)))
        return setup

    pipeline("pipeline", {}, one(), data=True)
    for b in ("add_to_history", "is_nested", "no_input", "redirect_shell_error_to_out"):
        pipeline(f"pipeline with {b}", {}, one(), **{b: True})
    pipeline("pipeline with every flag", {}, one(), add_to_history=True, is_nested=True, no_input=True, redirect_shell_error_to_out=True)
    for i in range(4):
        pipeline(f"pipeline with host flag {HOST_FIELD[i]}", {}, one(), flags=tuple(j == i for j in range(4)), data=bool(i % 2))
    pipeline("pipeline without host flags", {}, one(), flags=(False,) * 4, data=False)
    pipeline("pipeline with all host flags", {}, one(), flags=(True,) * 4, data=False)
    for m in sorted(prog.cls("ApartmentState").enum_members):
        pipeline(f"pipeline with apartment state {m}", {}, one(), apartment=m)
    pipeline("pipeline without apartment state", {}, one(), apartment=None)
    for m in sorted(prog.cls("RemoteStreamOptions").enum_members):
        pipeline(f"pipeline with stream options {m}", {}, one(), options=(m,))
    pipeline("script", {}, one(script=True))
    pipeline("local scope", {}, one(scope=True))
    pipeline("no local scope", {}, one(scope=False))
    pipeline("unclaimed merge", {}, one(unclaimed=True))
    for k in STREAMS:
        for m in ("Output", "Null"):
            pipeline(f"{k} redirected to {m}", {}, one(merge={k: m}))
    pipeline("everything redirected", {}, one(merge={k: "Output" for k in STREAMS}))
    pipeline("arguments", {}, one(args=lambda w: [(T("p1"), T("v1")), (None, T("v2")), (T("p3"), Const(3)), (T("p4"), NONE), (T("p5"), ListV([Const(1), T("v5")])),
                                                  (None, mkdict((Const("k"), T("v6")))), (Const(""), TRUE)]))

    def several(w, p, case):
        # two statements: a | b ; c
        ex = lambda s, i: ("PowerShell", "ExtraCmds", s, "Cmds", i)
        command(w, p, 0, case, [("PowerShell", "Cmds", 0), ex(0, 0)], merge={"warning": "Output"}, end=False)
        command(w, p, 1, case, [("PowerShell", "Cmds", 1), ex(0, 1)], script=True, args=[(T("p"), T("v"))], end=True)
        w.call(p, "add_statement")
        command(w, p, 2, case, [ex(1, 0)], scope=True, unclaimed=True, end=False)
        command(w, p, 3, case, [ex(1, 1)], merge={"debug": "Null"}, end=True)
        w.call(p, "add_statement")
        command(w, p, 4, case, [ex(2, 0)], args=[(None, T("last"))])
        case.wire(("PowerShell", "Cmds", 2), ABSENT)
        case.wire(("PowerShell", "ExtraCmds", 0, "Cmds", 2), ABSENT)
        case.wire(("PowerShell", "ExtraCmds", 1, "Cmds", 2), ABSENT)
        case.wire(("PowerShell", "ExtraCmds", 2, "Cmds", 1), ABSENT)
        case.field("number of commands", Const(5), lambda v: Const(len(w.it.prim(w.get(v, "commands")).items)))

    pipeline("several statements", {}, several)
    pipeline("pipeline without history", {}, one(), history=False)

    def statements(*counts, trailing=False):
        def setup(w, p, case):
            i = 0
            for n, c in enumerate(counts):
                for j in range(c):
                    last = j == c - 1
                    where = [("PowerShell", "Cmds", j)] if n == 0 else []
                    if len(counts) > 1 or trailing:
                        where.append(("PowerShell", "ExtraCmds", n, "Cmds", j))
                    final = n == len(counts) - 1 and last
                    command(w, p, i, case, where, end=last if not final else True if trailing else None)
                    i += 1
                if n < len(counts) - 1 or trailing:
                    w.call(p, "add_statement")
            case.field("number of commands", Const(i), lambda v: Const(len(w.it.prim(w.get(v, "commands")).items)))
        return setup

    for counts in ((1, 1), (2, 1), (1, 2), (1, 1, 1)):
        pipeline(f"statements of {counts} commands", {}, statements(*counts))
        pipeline(f"statements of {counts} commands and an end", {}, statements(*counts, trailing=True))
    pipeline("one ended statement", {}, statements(1, trailing=True))

    def chain(w, p, case):
        for i in range(3):
            command(w, p, i, case, [("PowerShell", "Cmds", i)], end=False if i < 2 else None)
        case.wire(("PowerShell", "ExtraCmds"), ABSENT)
        case.field("number of commands", Const(3), lambda v: Const(len(w.it.prim(w.get(v, "commands")).items)))

    pipeline("one statement of three commands", {}, chain)

    # the helpers that add commands to a pipeline
    def builders(w, p, case):
        w.call(p, "add_command", T("c0"), use_local_scope=TRUE)
        w.call(p, "add_argument", T("a0"))
        w.call(p, "add_parameter", T("n1"), T("a1"))
        w.call(p, "add_script", T("c1"), use_local_scope=FALSE)
        w.call(p, "add_parameters", k1=T("x1"), k2=T("x2"))
        for i, script, scope, ps in ((0, False, True, [(NONE, T("a0")), (T("n1"), T("a1"))]), (1, True, False, [(Const("k1"), T("x1")), (Const("k2"), T("x2"))])):
            P = ("PowerShell", "Cmds", i)
            g = lambda v, i=i: w.it.get_item(w.get(v, "commands"), Const(i), None)
            case.wire(P + ("Cmd",), T(f"c{i}"))
            case.wire(P + ("IsScript",), boolean(script))
            case.wire(P + ("UseLocalScope",), boolean(scope))
            case.field(f"command {i} text", T(f"c{i}"), lambda v, g=g: w.get(g(v), "command_text"))
            case.field(f"command {i} is_script", boolean(script), lambda v, g=g: w.get(g(v), "is_script"))
            case.field(f"command {i} use_local_scope", boolean(scope), lambda v, g=g: w.get(g(v), "use_local_scope"))
            for j, (n, x) in enumerate(ps):
                case.wire(P + ("Args", j, "N"), n)
                case.wire(P + ("Args", j, "V"), x)

    pipeline("added by the pipeline's helpers", {}, builders)

    # ------------------------------------------------------------------ metadata
    def metadata(name, names, ct=None, namespace=None, arguments=None):
        def body(w, c, s, case):
            nm = names(w)
            kw = dict(name=nm)
            if ct:
                kw["command_type"] = w.enum("CommandTypes", ct)
            if namespace:
                kw["namespace"] = namespace(w)
            if arguments:
                kw["arguments"] = arguments(w)
            p = pipe_pair(w, c, s, "ClientGetCommandMetadata", **kw)
            nl = nm if isinstance(nm, ListV) else ListV([nm])
            for wn, f, e in (("Name", "name", nl), ("CommandType", "command_type", kw.get("command_type") or w.enum("CommandTypes", "All")),
                             ("Namespace", "namespace", kw.get("namespace", NONE)), ("ArgumentList", "arguments", kw.get("arguments", NONE))):
                case.wire(wn, e)
                case.field(f, ABSENT if e is NONE else e, attr(w, f))
            return c, s, (lambda: w.call(p, "start")), (lambda ev: w.get(ev, "pipeline"))

        scenario(name, body)

    metadata("metadata of one command", lambda w: T("n"))
    metadata("metadata of several commands", lambda w: ListV([T("n1"), T("n2")]), "Cmdlet", lambda w: ListV([T("ns1"), T("ns2")]), lambda w: ListV([T("a1"), Const(2)]))
    metadata("metadata with arguments only", lambda w: ListV([T("n1")]), "Alias", None, lambda w: ListV([T("a1")]))
    metadata("metadata with a namespace only", lambda w: ListV([T("n1")]), "Function", lambda w: ListV([T("a1")]), None)
    for m in sorted(prog.cls("CommandTypes").enum_members):
        metadata(f"metadata of type {m}", lambda w: T("n"), m)

    # ------------------------------------------------------------------ records
    def running(w, s, c):
        cp = w.new("ClientPowerShell", c, pipeline_id=Const(PID))
        sp = w.new("ServerPipeline", s, Const(PID))
        w.set_state(cp, "Running", "PSInvocationState")
        w.set_state(sp, "Running", "PSInvocationState")
        return sp

    INV = (("CommandOrigin", "CommandOrigin"), ("ExpectingInput", None), ("HistoryId", None), ("InvocationName", None), ("Line", None), ("OffsetInLine", None),
           ("PipelineLength", None), ("PipelinePosition", None), ("ScriptLineNumber", None), ("ScriptName", None), ("BoundParameters", None), ("UnboundArguments", None),
           ("PSScriptRoot", None), ("PSCommandPath", None), ("PositionMessage", None))
    DERIVED = ("PSScriptRoot", "PSCommandPath", "PositionMessage")  # .NET derives them from the position

    def invocation(w, case, get, expecting=True, origin="Internal", command=True, extent=True, wire=()):
        vals = dict(BoundParameters=mkdict((Const("p"), T("bound"))), CommandOrigin=w.enum("CommandOrigin", origin), ExpectingInput=boolean(expecting), HistoryId=w.new("PSInt64", K(201)),
                    InvocationName=T("inv-name"), Line=T("inv-line"), OffsetInLine=K(202), PipelineLength=K(203), PipelinePosition=K(204), PositionMessage=T("inv-pos"),
                    PSCommandPath=T("inv-path"), PSScriptRoot=T("inv-root"), ScriptLineNumber=K(205), ScriptName=T("inv-script"), UnboundArguments=ListV([T("unbound"), Const(3)]))
        if not extent:  # the position is made of these
            vals.update(Line=Const("inv-line"), ScriptName=Const("C:\\\\dir\\\\script.ps1"))
        for n, _ in INV:
            case.wire(wire + ("InvocationInfo_" + n,), vals[n])
            if n not in DERIVED:
                case.field("invocation " + n, vals[n], lambda v, n=n: w.get(get(v), n))
        kw = dict(vals)
        if extent:
            pos = lambda f, l, c: w.new("ScriptPosition", File=f, LineNumber=K(l), ColumnNumber=K(c), Line=T("position-line"))
            kw["DisplayScriptPosition"] = w.new("ScriptExtent", pos(T("extent-file"), 301, 302), pos(T("extent-file"), 303, 304))
            case.wire(wire + ("SerializeExtent",), TRUE)
            for n, v in (("File", T("extent-file")), ("StartLineNumber", K(301)), ("StartColumnNumber", K(302)), ("EndLineNumber", K(303)), ("EndColumnNumber", K(304))):
                case.wire(wire + ("ScriptExtent_" + n,), v)
                case.field("extent " + n, v, lambda r, n=n: w.get(w.get(get(r), "DisplayScriptPosition"), n))
        else:
            case.wire(wire + ("SerializeExtent",), FALSE)
            case.wire(wire + ("ScriptExtent_File",), ABSENT)
        if command:
            kw["MyCommand"] = w.new("PSCustomObject", CommandType=w.enum("CommandTypes", "Cmdlet"), Name=T("my-name"), Definition=T("my-definition"), Visibility=w.enum("SessionStateEntryVisibility", "Private"))
            for n, v in (("CommandType", w.enum("CommandTypes", "Cmdlet")), ("Name", T("my-name")), ("Definition", T("my-definition")), ("Visibility", w.enum("SessionStateEntryVisibility", "Private"))):
                case.wire(wire + ("CommandInfo_" + n,), v)
                case.field("command " + n, v, lambda r, n=n: w.get(w.get(get(r), "MyCommand"), n))
        else:
            for n in ("CommandType", "Name", "Definition", "Visibility"):
                case.wire(wire + ("CommandInfo_" + n,), ABSENT)
            case.field("command", ABSENT, lambda r: w.get(get(r), "MyCommand"))
        return w.new("InvocationInfo", **kw)

    def informational(kind, name, **inv):
        def body(w, c, s, case):
            sp = running(w, s, c)
            kw = {}
            P = "InformationalRecord_"
            case.wire(P + "Message", T("message"))
            case.field("Message", T("message"), attr(w, "Message"))
            if inv.get("with_info"):
                k = {a: b for a, b in inv.items() if a not in ("with_info", "iteration")}
                kw["invocation_info"] = invocation(w, case, attr(w, "InvocationInfo"), **k)
                kw["pipeline_iteration_info"] = ListV([K(401), K(402)]) if inv.get("iteration", True) else NONE
                case.wire(P + "SerializeInvocationInfo", TRUE)
                case.wire(P + "PipelineIterationInfo", kw["pipeline_iteration_info"])
                case.field("PipelineIterationInfo", kw["pipeline_iteration_info"] if inv.get("iteration", True) else ABSENT, attr(w, "PipelineIterationInfo"))
                case.field("serialize_extended_info", TRUE, attr(w, "serialize_extended_info"))
            else:
                case.wire(P + "SerializeInvocationInfo", FALSE)
                case.wire(P + "PipelineIterationInfo", ABSENT)
                case.wire("InvocationInfo_Line", ABSENT)
                case.field("InvocationInfo", ABSENT, attr(w, "InvocationInfo"))
                case.field("PipelineIterationInfo", ABSENT, attr(w, "PipelineIterationInfo"))
                case.field("serialize_extended_info", FALSE, attr(w, "serialize_extended_info"))
            return s, c, (lambda: w.call(sp, "write_" + kind, T("message"), **kw)), (lambda ev: w.get(ev, "record"))

        scenario(f"{kind} record {name}", body)

    VARIANTS = [("with invocation", dict(with_info=True)), ("with invocation without command", dict(with_info=True, command=False, expecting=False, origin="Runspace")),
                ("with invocation without extent", dict(with_info=True, extent=False)), ("with invocation without iteration", dict(with_info=True, iteration=False))]
    for kind in ("debug", "verbose", "warning"):
        informational(kind, "alone")
        for n, v in VARIANTS:
            informational(kind, n, **v)

    def category_message(cat):
        return None

    def error_case(w, case, get, wire=(), details="both", stack=True, target=True, info=None, category="ResourceBusy", fqid=True):
        """An error record's parts as keyword arguments of write_error."""
        kw = {}
        exc = exception(w)
        kw["exception"] = exc
        case.wire(wire + ("Exception", "Message"), T("x-message"))
        for n, v in (("Message", T("x-message")), ("Source", T("x-source")), ("HResult", Const(-17)), ("HelpLink", T("x-help"))):
            case.wire(wire + ("Exception", n), v)
            case.field("exception " + n, v, lambda r, n=n: w.get(w.get(get(r), "Exception"), n))
        cat = dict(Category=w.enum("ErrorCategory", category), Activity=T("activity"), Reason=T("reason"), TargetName=T("target-name"), TargetType=T("target-type"))
        kw["category_info"] = w.new("ErrorCategoryInfo", **cat)
        for n, v in cat.items():
            case.wire(wire + ("ErrorCategory_" + n,), Const(w.it.prim(v.value).v) if isinstance(v, EnumV) else v)
            case.field("category " + n, v, lambda r, n=n: w.get(w.get(get(r), "CategoryInfo"), n))
        case.wire(wire + ("ErrorCategory_Message",), PRESENT)
        kw["target_object"] = T("target") if target else NONE
        case.wire(wire + ("TargetObject",), kw["target_object"])
        case.field("TargetObject", kw["target_object"] if target else ABSENT, lambda r: w.get(get(r), "TargetObject"))
        kw["fully_qualified_error_id"] = T("fqid") if fqid else NONE
        case.wire(wire + ("FullyQualifiedErrorId",), kw["fully_qualified_error_id"])
        case.field("FullyQualifiedErrorId", kw["fully_qualified_error_id"] if fqid else ABSENT, lambda r: w.get(get(r), "FullyQualifiedErrorId"))
        if details:
            d = dict(Message=T("detail-message") if details in ("both", "message") else NONE, RecommendedAction=T("detail-action") if details in ("both", "action") else NONE)
            if details == "empty":
                d["Message"] = Const("")
            kw["error_details"] = w.new("ErrorDetails", **d)
            for n, v in d.items():
                case.wire(wire + ("ErrorDetails_" + n,), v)
                case.field("details " + n, v, lambda r, n=n: w.get(w.get(get(r), "ErrorDetails"), n))
        else:
            for n in ("Message", "RecommendedAction"):
                case.wire(wire + ("ErrorDetails_" + n,), ABSENT)
            case.field("ErrorDetails", ABSENT, lambda r: w.get(get(r), "ErrorDetails"))
        if stack and mode["empty"]:
            pass  # an empty stack trace is none
        elif stack:
            kw["script_stack_trace"] = T("stack")
            case.wire(wire + ("ErrorDetails_ScriptStackTrace",), T("stack"))
            case.field("ScriptStackTrace", T("stack"), lambda r: w.get(get(r), "ScriptStackTrace"))
        else:
            case.wire(wire + ("ErrorDetails_ScriptStackTrace",), ABSENT)
            case.field("ScriptStackTrace", ABSENT, lambda r: w.get(get(r), "ScriptStackTrace"))
        if info is not None:
            iteration = info.get("iteration", True)
            kw["invocation_info"] = invocation(w, case, lambda r: w.get(get(r), "InvocationInfo"), wire=wire, **{a: b for a, b in info.items() if a != "iteration"})
            kw["pipeline_iteration_info"] = ListV([K(401), K(402)]) if iteration else NONE
            case.wire(wire + ("SerializeExtendedInfo",), TRUE)
            case.wire(wire + ("PipelineIterationInfo",), kw["pipeline_iteration_info"])
            case.field("PipelineIterationInfo", kw["pipeline_iteration_info"] if iteration else ABSENT, lambda r: w.get(get(r), "PipelineIterationInfo"))
            case.field("serialize_extended_info", TRUE, lambda r: w.get(get(r), "serialize_extended_info"))
        else:
            case.wire(wire + ("SerializeExtendedInfo",), FALSE)
            case.wire(wire + ("PipelineIterationInfo",), ABSENT)
            case.wire(wire + ("InvocationInfo_Line",), ABSENT)
            case.field("InvocationInfo", ABSENT, lambda r: w.get(get(r), "InvocationInfo"))
            case.field("PipelineIterationInfo", ABSENT, lambda r: w.get(get(r), "PipelineIterationInfo"))
            case.field("serialize_extended_info", FALSE, lambda r: w.get(get(r), "serialize_extended_info"))
        return kw

    NAMES = {"exception": "Exception", "category_info": "CategoryInfo", "target_object": "TargetObject", "fully_qualified_error_id": "FullyQualifiedErrorId", "error_details": "ErrorDetails",
             "invocation_info": "InvocationInfo", "pipeline_iteration_info": "PipelineIterationInfo", "script_stack_trace": "ScriptStackTrace"}

    def error(name, **kw):
        def body(w, c, s, case):
            sp = running(w, s, c)
            a = error_case(w, case, lambda r: r, **kw)
            return s, c, (lambda: w.call(sp, "write_error", **a)), (lambda ev: w.get(ev, "record"))

        scenario("error record " + name, body)

    error("alone", details=None, stack=False, target=False, fqid=False)
    error("with everything", info={})
    error("without invocation")
    error("with a message only", details="message", stack=False)
    error("with an empty message", details="empty", stack=False)
    error("with an action only", details="action", stack=False)
    error("without details", details=None)
    for n, v in VARIANTS[1:]:
        error(n, info={a: b for a, b in v.items() if a != "with_info"})
    for m in sorted(prog.cls("ErrorCategory").enum_members):
        error("of category " + m, category=m, details=None, stack=False, target=False)

    def made(w, a):
        r = w.new("ErrorRecord", **{NAMES[k]: v for k, v in a.items()})
        r.attrs["serialize_extended_info"] = boolean("invocation_info" in a)
        return r

    # error records inside other messages
    def broken(kind, **kw):
        def body(w, c, s, case):
            if kind == "host response":
                w.call(s, "host_call", w.enum("HostMethodIdentifier", "ReadLine"))
                pump(w, s, c)
                a = error_case(w, case, attr(w, "error"), wire=("me",), **kw)
                case.wire("ci", w.new("PSInt64", Const(1)))
                case.wire("mi", w.enum("HostMethodIdentifier", "ReadLine"))
                case.wire("mr", ABSENT)
                case.field("result", ABSENT, attr(w, "result"))
                return c, s, (lambda: w.call(c, "host_response", Const(1), error_record=made(w, a))), (lambda ev: ev)
            a = error_case(w, case, attr(w, "reason"), wire=("ExceptionAsErrorRecord",), **kw)
            case.wire("RunspaceState", Const(5))
            case.field("state", w.enum("RunspacePoolState", "Broken"), attr(w, "state"))
            return s, c, (lambda: w.call(s, "set_broken", made(w, a))), (lambda ev: ev)

        scenario(f"error of {kind} " + ("with everything" if "info" in kw else "alone"), body)

    for kind in ("host response", "broken pool"):
        broken(kind, info={})
        broken(kind, details=None, stack=False, target=False)

    def state(name, op, number, member):
        def body(w, c, s, case):
            sp = running(w, s, c)
            case.wire("PipelineState", Const(number))
            case.field("state", w.enum("PSInvocationState", member), attr(w, "state"))
            if member == "Completed":
                case.wire("ExceptionAsErrorRecord", ABSENT)
                case.field("reason", ABSENT, attr(w, "reason"))
            else:
                case.wire("ExceptionAsErrorRecord", PRESENT)
                case.field("reason", Const("PipelineStopped"), attr(w, "reason", "FullyQualifiedErrorId"))
            return s, c, (lambda: w.call(sp, op)), (lambda ev: ev)

        scenario("pipeline state " + name, body)

    state("completed", "complete", 4, "Completed")
    state("stopped", "stop", 3, "Stopped")

    # ------------------------------------------------------------------ progress and information
    def progress_record(name, current=True, rtype="Completed", defaults=False):
        def body(w, c, s, case):
            sp = running(w, s, c)
            f = dict(Activity=T("activity"), ActivityId=K(501), StatusDescription=T("status"), CurrentOperation=T("operation") if current else NONE, ParentActivityId=K(502),
                     PercentComplete=K(503), RecordType=w.enum("ProgressRecordType", rtype), SecondsRemaining=K(504))
            if defaults:
                f.update(CurrentOperation=NONE, ParentActivityId=Const(-1), PercentComplete=Const(-1), SecondsRemaining=Const(-1), RecordType=w.enum("ProgressRecordType", "Processing"))
            for n, v in f.items():
                case.wire("Type" if n == "RecordType" else n, v)
                case.field(n, ABSENT if v is NONE else v, attr(w, n))
            if defaults:
                act = lambda: w.call(sp, "write_progress", f["Activity"], f["ActivityId"], f["StatusDescription"])
            else:
                act = lambda: w.call(sp, "write_progress", activity=f["Activity"], activity_id=f["ActivityId"], status_description=f["StatusDescription"], current_operation=f["CurrentOperation"],
                                     parent_activity_id=f["ParentActivityId"], percent_complete=f["PercentComplete"], record_type=f["RecordType"], seconds_remaining=f["SecondsRemaining"])
            return s, c, act, (lambda ev: w.get(ev, "record"))

        scenario("progress record " + name, body)

    progress_record("full")
    progress_record("processing", rtype="Processing", current=False)
    progress_record("with defaults", defaults=True)

    def information(name, data, tags):
        def body(w, c, s, case):
            sp = running(w, s, c)
            kw = dict(time_generated=Const(datetime.datetime(2021, 3, 4, 5, 6, 7, 8, datetime.timezone.utc)), tags=tags(w), user=T("user"), computer=T("computer"), process_id=K(601),
                      native_thread_id=K(602), managed_thread_id=K(603))
            f = dict(MessageData=data(w), Source=T("source"), TimeGenerated=kw["time_generated"], Tags=kw["tags"], User=T("user"), Computer=T("computer"),
                     ProcessId=w.new("PSUInt", K(601)), NativeThreadId=w.new("PSUInt", K(602)), ManagedThreadId=w.new("PSUInt", K(603)))
            for n, v in f.items():
                case.wire(n, v)
                case.field(n, v, attr(w, n))
            d = f["MessageData"]
            return s, c, (lambda: w.call(sp, "write_information", d, T("source"), **kw)), (lambda ev: w.get(ev, "record"))

        scenario("information record " + name, body)

    information("text", lambda w: T("data"), lambda w: ListV([T("tag1"), T("tag2")]))
    information("object", lambda w: w.new("PSCustomObject", a=T("va"), b=Const(1)), lambda w: ListV([T("tag1")]))
    information("untagged", lambda w: Const(5), lambda w: ListV([]))

    # ------------------------------------------------------------------ events
    def user_event(name, full=True):
        def body(w, c, s, case):
            g = lambda v: w.it.prim(v)
            when = Const(datetime.datetime(2021, 3, 4, 5, 6, 7, 8, datetime.timezone.utc))
            args = ListV([T("arg1"), Const(2)])
            f = dict(EventIdentifier=K(701), SourceIdentifier=T("source-id"), TimeGenerated=when, Sender=T("sender") if full else NONE, SourceArgs=args if full else ListV([]),
                     MessageData=T("data") if full else NONE, ComputerName=T("computer"), RunspaceId=w.get(c, "runspace_pool_id"))
            for n, v in f.items():
                case.wire("PSEventArgs." + n, v)
                case.field(n, ABSENT if v is NONE else v, attr(w, n))
            kw = dict(time_generated=when, computer=T("computer"))
            if full:
                kw.update(sender=T("sender"), source_args=args, message_data=T("data"))
            return s, c, (lambda: w.call(s, "send_event", K(701), T("source-id"), **kw)), (lambda ev: w.get(ev, "event"))

        scenario("event " + name, body)

    user_event("full")
    user_event("minimal", False)

    # ------------------------------------------------------------------ capability
    def capability(name, zone):
        def body(w, c, s, case):
            w.set_state(c, "BeforeOpen")
            w.set_state(s, "BeforeOpen")
            v = lambda t: w.new("PSVersion", Const(t))
            kw = dict(PSVersion=v("2.0"), protocolversion=v("2.3"), SerializationVersion=v("1.1.0.1"))
            if zone:
                kw["TimeZone"] = Const(b"zone")
            cap = w.new("SessionCapability", **kw)
            c.attrs["our_capability"] = cap
            for n, x in kw.items():
                case.wire(n, x)
            for n, a in (("PSVersion", "ps_version"), ("protocolversion", "protocol_version"), ("SerializationVersion", "serialization_version")):
                case.field(n, kw[n], attr(w, a))
            if not zone:
                case.wire("TimeZone", ABSENT)

            def act():
                w.call(c, "prepare_message", cap)

            return c, s, act, (lambda ev: ev)

        scenario("capability " + name, body)

    capability("with time zone", True)
    capability("without time zone", False)

    # ------------------------------------------------------------------ the same with empty texts and zeros: nothing is taken for absent
    mode["empty"] = True
    pipeline("pipeline", {}, one(), data=True)
    pipeline("arguments", {}, one(args=lambda w: [(T("p1"), T("v1")), (None, T("v2")), (T("p3"), K(101)), (T("p5"), ListV([])), (None, mkdict()), (T("p6"), FALSE)]))
    metadata("metadata", lambda w: ListV([T("n1")]), "Alias", lambda w: ListV([T("x")]), lambda w: ListV([K(101)]))
    for kind in ("debug", "verbose", "warning"):
        informational(kind, "with invocation", with_info=True, expecting=False)
    error("with everything", info={})
    error("without invocation", details="both", stack=False)
    broken("host response", info={})
    broken("broken pool", info={})
    progress_record("full", rtype="Processing")
    information("text", lambda w: T("data"), lambda w: ListV([T("tag1")]))
    user_event("full")
    mode["empty"] = False

    # ------------------------------------------------------------------ host structures
    def structure(name, fields, wires):
        """A structure in its host form, by its own conversions."""
        def run_body(w):
            it = w.it
            fs = {n: f(w) for n, f in fields.items()}
            o = w.new(name, **fs)
            before = {n: shape(it, v) for n, v in fs.items()}
            cls = w.cls(name)
            ws = {}
            for n, f in wires.items():
                d = Doc(snap(it, serialize(w, f(w))))
                ws[n] = d.norm(d.root, top=True)
            w.built = True
            h = it.call(it.getattr(cls, "ToPSObjectForRemoting", None), [o], {"for_host": TRUE}, None)
            d = Doc(snap(it, serialize(w, h)))
            out = []
            for n, e in ws.items():
                xs = d.at((n,))
                if len(xs) != 1:
                    out.append(("wire-name", n, f"is written {len(xs)} times"))
                else:
                    g = d.norm(xs[0], top=True)
                    out.append(("wire-name", n, None if same(it, e, g) else f"is written as {str(g)[:200]}, the value is {str(e)[:200]}"))
            out.append(("wire-absent", "type names", None if not d.root.find("TN", "TNRef") else "has type names"))
            r = it.call(it.getattr(cls, "FromPSObjectForRemoting", None), [deserialize(w, d.root.inst)], {}, None)
            out.append(("read-back", "class", None if isinstance(r, InstV) and r.cls is cls else f"is read as {show(r)}"))
            for n, e in before.items():
                g = shape(it, w.get(r, n))
                out.append(("read-back", n, None if alike(it, e, g) else f"is read as {str(g)[:200]}, it was {str(e)[:200]}"))
            # outside of a host call it stays what it is
            r = deserialize(w, serialize(w, o))
            out.append(("read-back", "class as a value", None if isinstance(r, InstV) and r.cls is cls else f"is read as {show(r)}"))
            for n, e in before.items():
                if name == "BufferCell" and n == "BufferCellType":
                    continue  # the flags registered under the same name as another type
                g = shape(it, w.get(r, n))
                out.append(("read-back", n + " as a value", None if alike(it, e, g) else f"is read as {str(g)[:200]}, it was {str(e)[:200]}"))
            # converting what already is one gives it back
            r = it.call(it.getattr(cls, "FromPSObjectForRemoting", None), [o], {}, None)
            for n, e in before.items():
                g = shape(it, w.get(r, n))
                out.append(("read-back", n + " of a converted one", None if alike(it, e, g) else f"is {str(g)[:200]}, it was {str(e)[:200]}"))
            return out

        def decide():
            ps = chk.seen(run(prog, run_body, cfg()))
            if not any(getattr(p.world, "built", False) for p in ps):
                raise Unsupported("the structure cannot be built: " + "; ".join(sorted({str(p.exc_name()) for p in ps})))
            for p in ps:
                if p.kind == "return":
                    for rule, label, b in p.value:
                        chk.need(b is None, rule, f"{name}: {label}", b, path=p)
                elif getattr(p.world, "built", False):
                    chk.bad("operation", name, f"raises {p.exc_name()}", path=p)

        chk.attempt("operation", name, decide)

    I = lambda n: lambda w: Const(n)
    E = lambda c, m: lambda w: w.enum(c, m)
    N = lambda c, m: lambda w: Const(w.it.prim(w.enum(c, m).value).v)
    TT = lambda n: lambda w: T(n)
    Ch = lambda ch: lambda w: w.new("PSChar", Const(ch))
    for fg, bg, ct in (("Red", "Blue", "Leading"), ("Black", "White", "Complete"), ("DarkGray", "Cyan", "Trailing")):
        structure("BufferCell", dict(Character=Ch("q"), ForegroundColor=E("ConsoleColor", fg), BackgroundColor=E("ConsoleColor", bg), BufferCellType=E("BufferCellType", ct)),
                  dict(character=Ch("q"), foregroundColor=N("ConsoleColor", fg), backgroundColor=N("ConsoleColor", bg), bufferCellType=N("BufferCellType", ct)))
    structure("ChoiceDescription", dict(Label=TT("label"), HelpMessage=TT("help")), dict(label=TT("label"), helpMessage=TT("help")))
    structure("Coordinates", dict(X=I(1), Y=I(-2)), dict(x=I(1), y=I(-2)))
    structure("Size", dict(Width=I(1), Height=I(2)), dict(width=I(1), height=I(2)))
    structure("Rectangle", dict(Left=I(1), Top=I(2), Right=I(3), Bottom=I(4)), dict(left=I(1), top=I(2), right=I(3), bottom=I(4)))
    for m in sorted(prog.cls("ControlKeyStates").enum_members):
        structure("KeyInfo", dict(VirtualKeyCode=I(41), Character=Ch("k"), ControlKeyState=E("ControlKeyStates", m), KeyDown=lambda w: boolean(len(m) % 2)),
                  dict(virtualKeyCode=I(41), character=Ch("k"), controlKeyState=N("ControlKeyStates", m), keyDown=lambda w: boolean(len(m) % 2)))
    for mand in (True, False):
        structure("FieldDescription", dict(Name=TT("name"), ParameterTypeName=TT("ptn"), ParameterTypeFullName=TT("ptfn"), ParameterAssemblyFullName=TT("pafn"), Label=TT("label"),
                                           HelpMessage=TT("help"), IsMandatory=lambda w, m=mand: boolean(m)),
                  dict(name=TT("name"), parameterTypeName=TT("ptn"), parameterTypeFullName=TT("ptfn"), parameterAssemblyFullName=TT("pafn"), label=TT("label"), helpMessage=TT("help"),
                       isMandatory=lambda w, m=mand: boolean(m)))
