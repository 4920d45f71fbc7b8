"""C22: host methods."""
from ..link import *
from ..vals import *
from .c21 import Doc

META = {
    "level": "other",
    "technique": "abstract interpretation of the server's request helpers, both pools and the client's response helpers, method by method, against the MS-PSRP table of host methods",
    "explanation": "For each of the 56 host methods the number and voidness are read off the interpreted enumeration; every request helper of the server is interpreted with symbolic texts, distinct "
                   "numbers and enum members (and with empty texts, zeros and false), on a pool and on a pipeline, and the call the client's event yields is compared, argument by argument, with what was "
                   "given, the message with the protocol's encoding; every response helper of the client likewise with what the server's event yields.",
    "rules": ["number", "void", "method", "call-id", "arguments", "encoding", "result", "result-encoding", "helper"],
}

METHODS = """GetName GetVersion GetInstanceId GetCurrentCulture GetCurrentUICulture SetShouldExit EnterNestedPrompt ExitNestedPrompt NotifyBeginApplication NotifyEndApplication ReadLine
ReadLineAsSecureString Write1 Write2 WriteLine1 WriteLine2 WriteLine3 WriteErrorLine WriteDebugLine WriteProgress WriteVerboseLine WriteWarningLine Prompt PromptForCredential1 PromptForCredential2
PromptForChoice GetForegroundColor SetForegroundColor GetBackgroundColor SetBackgroundColor GetCursorPosition SetCursorPosition GetWindowPosition SetWindowPosition GetCursorSize SetCursorSize
GetBufferSize SetBufferSize GetWindowSize SetWindowSize GetWindowTitle SetWindowTitle GetMaxWindowSize GetMaxPhysicalWindowSize GetKeyAvailable ReadKey FlushInputBuffer SetBufferContents1
SetBufferContents2 GetBufferContents ScrollBufferContents PushRunspace PopRunspace GetIsRunspacePushed GetRunspace PromptForChoiceMultipleSelection""".split()
VOID = {m for m in METHODS if m.startswith(("Set", "Write", "Notify", "Enter", "Exit", "Flush", "Scroll", "Push", "Pop"))}

mode = {"empty": False}


def T(n):
    return Const("") if mode["empty"] else S(n, "str")


def K(n):
    return Const(0) if mode["empty"] else Const(n)


# encodings on the wire
class Obj(dict):
    """An object without type names."""


class Lst(list):
    pass


class Any:
    def __init__(self, v):
        self.v = v


def check(chk):
    prog = chk.prog

    def assume(it, s):
        return True if s.op in ("resub", "arg", "encode", "decode", "encrypted", "decrypted") else None

    cfg = lambda: link_config(assume=assume)

    # ------------------------------------------------------------------ numbers
    def numbers():
        members = prog.cls("HostMethodIdentifier").enum_members or {}
        for i, m in enumerate(METHODS):
            v = members.get(m)

            def body(w, v=v):
                return w.it.prim(v.value), w.it.prim(w.call(v, "is_void"))

            if v is None:
                raise Unsupported("no member " + m)
            for p in chk.seen(run(prog, body, cfg())):
                if p.kind != "return":
                    raise Unsupported(str(p.exc_name()))
                n, void = p.value
                if not isinstance(n, Const) or not isinstance(void, Const):
                    raise Unsupported("number of " + m)
                chk.need(n.v == i + 1, "number", m, f"is {n.v}, not {i + 1}", path=p)
                chk.need(bool(void.v) == (m in VOID), "void", m, f"is_void is {void.v}", path=p)
        chk.need(set(members) <= set(METHODS) | {"none"}, "number", "methods", f"unknown methods {sorted(set(members) - set(METHODS))}")

    chk.attempt("number", "methods", numbers)

    # ------------------------------------------------------------------ values: (argument, decoded value, encoding)
    E = lambda c, m: lambda w: w.enum(c, m)

    def member(w, c, m):
        """a member of a flags enumeration by its name, or the combination of a number"""
        return w.it.call(w.cls(c), [Const(m)], {}, None) if isinstance(m, int) else w.enum(c, m)

    def number_of(w, c, m):
        if isinstance(m, int):
            return m
        return w.it.prim(w.enum(c, m).value).v

    def cell(w, i, kind="Complete"):
        cs = sorted(prog.cls("ConsoleColor").enum_members)
        fg, bg = cs[i % len(cs)], cs[(i * 5 + 3) % len(cs)]
        ch = w.new("PSChar", Const(chr(97 + i)))
        o = w.new("BufferCell", Character=ch, ForegroundColor=w.enum("ConsoleColor", fg), BackgroundColor=w.enum("ConsoleColor", bg), BufferCellType=w.enum("BufferCellType", kind))
        return o, Obj(character=Any(w.new("PSChar", Const(chr(97 + i)))), foregroundColor=Const(number_of(w, "ConsoleColor", fg)), backgroundColor=Const(number_of(w, "ConsoleColor", bg)),
                      bufferCellType=Const(number_of(w, "BufferCellType", kind)))

    def cells(w, rows, cols):
        vs, es = [], Lst()
        k = ("Complete", "Leading", "Trailing")
        for r in range(rows):
            row = []
            for c in range(cols):
                v, e = cell(w, r * cols + c, k[(r + c) % 3])
                row.append(v)
                es.append(e)
            vs.append(ListV(row))
        return ListV(vs), Obj(mae=es, mal=Lst([Const(rows), Const(cols)]))

    def mismatch(it, w, d, x, e):
        """Why the element is not the encoding, or None."""
        if x.tag == "Ref":
            x = d.objs.get(key(x.attrib.get("RefId", NONE)), x)
        if isinstance(e, Obj):
            if x.tag != "Obj" or [t for k in x.kids if k.tag in ("TN", "TNRef") for t in (d.names.get(key(k.attrib.get("RefId", NONE)), k).kids)]:
                return f"is not a plain object: {x!r:.200}"
            have = {}
            for g in x.kids:
                if g.tag in ("MS", "Props"):
                    for q in g.kids:
                        n = q.attrib.get("N")
                        have[n.v if isinstance(n, Const) else None] = q
            for n, v in e.items():
                if n not in have:
                    return f"has no {n}"
                m = mismatch(it, w, d, have[n], v)
                if m:
                    return f"{n} {m}"
            return None
        if isinstance(e, Lst):
            l = x.find("LST", "IE", "STK", "QUE")
            if x.tag != "Obj" or len(l) != 1:
                return f"is not a list: {x!r:.200}"
            if len(l[0].kids) != len(e):
                return f"has {len(l[0].kids)} items, not {len(e)}"
            for i, (q, v) in enumerate(zip(l[0].kids, e)):
                m = mismatch(it, w, d, q, v)
                if m:
                    return f"item {i} {m}"
            return None
        v = e.v if isinstance(e, Any) else e
        dd = Doc(snap(it, serialize(w, v)))
        a, b = dd.norm(dd.root, top=True), d.norm(x, top=True)
        return None if same(it, a, b) else f"is written as {str(b)[:200]}, not {str(a)[:200]}"

    def alike(it, a, b):
        return same(it, bare(a), bare(b))

    def bare(s):
        if isinstance(s, tuple):
            if len(s) == 4 and isinstance(s[0], str) and isinstance(s[1], tuple) and isinstance(s[2], tuple) and isinstance(s[3], tuple):
                if s[1][:1] == ("dict",):
                    return ("PSDict", bare(s[1]), ())
                if s[1][:1] == ("attrs",) and s[2]:
                    return (s[0], ("attrs",), bare(s[2]))
                return (s[0], bare(s[1]), bare(s[2]), s[3])
            return tuple(bare(x) for x in s)
        return s

    def connect(w, where):
        c, s = pair(w)
        if where == "pool":
            return c, s, c, s
        cp = w.new("ClientPowerShell", c, pipeline_id=Const(PID))
        sp = w.new("ServerPipeline", s, Const(PID))
        w.set_state(cp, "Running", "PSInvocationState")
        w.set_state(sp, "Running", "PSInvocationState")
        return c, s, cp, sp

    # ------------------------------------------------------------------ requests
    def request(helper, method, args, expected, encoded, kw=None, where="pool", label=""):
        """args/expected/encoded: functions of the world, the argument list, the decoded list and the encoding of it."""
        name = f"{helper}{label} on a {where}" + (", empty" if mode["empty"] else "")

        def body(w):
            start(w)
            it = w.it
            c, s, cc, sc = connect(w, where)
            r = w.new("ServerHostRequestor", sc)
            a = args(w)
            k = kw(w) if kw else {}
            exp = [shape(it, x) for x in expected(w)]
            enc = encoded(w)
            w.built = True
            out = []
            ci = it.prim(w.call(r, helper, *a, **k))
            pls, ms = drain(w, s)
            if len(ms) != 1:
                return [("helper", "messages", f"sends {[m.name for m in ms]}")]
            m = ms[0]
            out.append(("method", "message", None if m.name == ("RunspacePoolHostCall" if where == "pool" else "PipelineHostCall") and (m.pid is None) == (where == "pool") else f"sends {m.name} to {m.pid}"))
            d = Doc(snap(it, m.doc))
            mp = d.at(("mp",))
            if len(mp) != 1:
                out.append(("encoding", "mp", f"is written {len(mp)} times"))
            else:
                b = mismatch(it, w, d, mp[0], enc)
                out.append(("encoding", "mp", b))
            mi = d.at(("mi",))
            if len(mi) == 1:
                i = mi[0].find("I32")
                t = it.prim(i[0].text) if i and i[0].text is not None else None
                out.append(("method", "mi", None if isinstance(t, Const) and t.v == str(METHODS.index(method) + 1) else f"is {show(t) if t is not None else None}"))
            else:
                out.append(("method", "mi", f"is written {len(mi)} times"))
            deliver(w, pls, c)
            evs = events(w, c)
            if len(evs) != 1:
                return out + [("helper", "events", f"{len(evs)} events")]
            ev = evs[0]
            cls = "RunspacePoolHostCallEvent" if where == "pool" else "PipelineHostCallEvent"
            out.append(("method", "event", None if isinstance(ev, InstV) and ev.cls.name == cls else f"is a {show(ev)}"))
            mm = it.prim(w.get(ev, "method_identifier"))
            g = w.get(ev, "method_identifier")
            out.append(("method", "identifier", None if isinstance(g, EnumV) and g.name == method else f"is {show(g)}"))
            eci = it.prim(w.get(ev, "ci"))
            if method in VOID:
                out.append(("call-id", "ci", None if isinstance(eci, Const) and eci.v == -100 else f"is {show(eci)}"))
                out.append(("call-id", "returned", None if isinstance(ci, Const) and ci.v in (None, -100) else f"the helper returns {show(ci)}"))
            else:
                out.append(("call-id", "ci", None if isinstance(eci, Const) and isinstance(ci, Const) and eci.v == ci.v and ci.v is not None and ci.v > 0 else f"is {show(eci)}, the helper returns {show(ci)}"))
            ps = it.prim(w.get(ev, "method_parameters"))
            if not isinstance(ps, ListV) or ps.base is not None:
                return out + [("arguments", "list", f"are {show(ps)}")]
            out.append(("arguments", "number", None if len(ps.items) == len(exp) else f"{len(ps.items)} arguments, not {len(exp)}"))
            for i, (x, e) in enumerate(zip(ps.items, exp)):
                gx = shape(it, x)
                out.append(("arguments", f"argument {i}", None if alike(it, e, gx) else f"is decoded as {str(gx)[:250]}, given was {str(e)[:250]}"))
            return out

        settle("helper", name, body)

    def settle(rule, name, body):
        def decide():
            ps = chk.seen(run(prog, body, cfg()))
            if not any(getattr(p.world, "built", False) for p in ps):
                raise Unsupported("the scenario cannot be built: " + "; ".join(sorted({str(p.exc_name()) for p in ps})))
            for p in ps:
                if p.kind == "return":
                    for r, label, b in p.value:
                        chk.need(b is None, r, f"{name}: {label}", b, path=p)
                elif getattr(p.world, "built", False):
                    chk.bad(rule, name, f"raises {p.exc_name()}", path=p)

        chk.attempt(rule, name, decide)

    none = lambda w: []

    def req(helper, method, args=none, expected=None, encoded=None, kw=None, label="", empty=True):
        expected = expected or args
        encoded = encoded or (lambda w: Lst(args(w)))
        for where in ("pool", "pipeline"):
            request(helper, method, args, expected, encoded, kw, where, label)
        if empty:
            mode["empty"] = True
            request(helper, method, args, expected, encoded, kw, "pool", label)
            mode["empty"] = False

    simple = {"get_name": "GetName", "get_version": "GetVersion", "get_instance_id": "GetInstanceId", "get_current_culture": "GetCurrentCulture", "get_current_ui_culture": "GetCurrentUICulture",
              "enter_nested_prompt": "EnterNestedPrompt", "exit_nested_prompt": "ExitNestedPrompt", "notify_begin_application": "NotifyBeginApplication",
              "notify_end_application": "NotifyEndApplication", "pop_runspace": "PopRunspace", "get_is_runspace_pushed": "GetIsRunspacePushed", "read_line": "ReadLine",
              "read_line_as_secure_string": "ReadLineAsSecureString", "get_foreground_color": "GetForegroundColor", "get_background_color": "GetBackgroundColor",
              "get_cursor_position": "GetCursorPosition", "get_window_position": "GetWindowPosition", "get_cursor_size": "GetCursorSize", "get_buffer_size": "GetBufferSize",
              "get_window_size": "GetWindowSize", "get_window_title": "GetWindowTitle", "get_max_window_size": "GetMaxWindowSize", "get_max_physical_window_size": "GetMaxPhysicalWindowSize",
              "get_key_available": "GetKeyAvailable", "flush_input_buffer": "FlushInputBuffer"}
    for h, m in simple.items():
        req(h, m, empty=False)
    for h, m in {"write_error_line": "WriteErrorLine", "write_debug_line": "WriteDebugLine", "write_verbose_line": "WriteVerboseLine", "write_warning_line": "WriteWarningLine",
                 "set_window_title": "SetWindowTitle"}.items():
        req(h, m, lambda w: [T("text")])
    req("set_should_exit", "SetShouldExit", lambda w: [K(7)])
    req("set_cursor_size", "SetCursorSize", lambda w: [K(25)])
    req("write", "Write1", lambda w: [T("text")])
    req("write_line", "WriteLine1", label=" without text", empty=False)
    req("write_line", "WriteLine2", lambda w: [T("text")])
    colors = sorted(prog.cls("ConsoleColor").enum_members)
    C = lambda m: lambda w: w.enum("ConsoleColor", m)

    def coloured(helper, method, fg, bg, line=True):
        f, b = fg or "Black", bg or "Black"

        def kw(w):
            k = {}
            if fg:
                k["foreground_color"] = w.enum("ConsoleColor", fg)
            if bg:
                k["background_color"] = w.enum("ConsoleColor", bg)
            return k

        t = (lambda: T("text")) if line else (lambda: Const(""))
        req(helper, method, (lambda w: [T("text")]) if line else none, lambda w: [w.enum("ConsoleColor", f), w.enum("ConsoleColor", b), t()],
            lambda w: Lst([Const(number_of(w, "ConsoleColor", f)), Const(number_of(w, "ConsoleColor", b)), t()]), kw, label=f" {fg} on {bg}" + ("" if line else " without text"), empty=False)

    for h, m in (("write", "Write2"), ("write_line", "WriteLine3")):
        for fg, bg in (("Red", "Blue"), ("Blue", None), (None, "Green"), ("Black", None), (None, "Black"), ("White", "Black"), ("Black", "Black")):
            coloured(h, m, fg, bg)
    coloured("write_line", "WriteLine3", "Red", "Blue", False)
    coloured("write_line", "WriteLine3", None, "Blue", False)
    for c in colors:
        for h, m in (("set_foreground_color", "SetForegroundColor"), ("set_background_color", "SetBackgroundColor")):
            request(h, m, lambda w, c=c: [w.enum("ConsoleColor", c)], lambda w, c=c: [w.enum("ConsoleColor", c)], lambda w, c=c: Lst([Const(number_of(w, "ConsoleColor", c))]), None,
                    "pool" if c != "Red" else "pipeline", " " + c)
    for h, m, cls, ns, es in (("set_cursor_position", "SetCursorPosition", "Coordinates", ("X", "Y"), ("x", "y")), ("set_window_position", "SetWindowPosition", "Coordinates", ("X", "Y"), ("x", "y")),
                              ("set_buffer_size", "SetBufferSize", "Size", ("Width", "Height"), ("width", "height")), ("set_window_size", "SetWindowSize", "Size", ("Width", "Height"), ("width", "height"))):
        req(h, m, lambda w: [K(31), K(32)], lambda w, cls=cls, ns=ns: [w.new(cls, **{ns[0]: K(31), ns[1]: K(32)})], lambda w, es=es: Lst([Obj({es[0]: K(31), es[1]: K(32)})]))

    def progress(record="Completed", defaults=False):
        fields = [("activity_id", "ActivityId", K(42)), ("activity", "Activity", T("activity")), ("status_description", "StatusDescription", T("status"))]
        rest = [("current_operation", "CurrentOperation", T("operation")), ("parent_activity_id", "ParentActivityId", K(43)), ("percent_complete", "PercentComplete", K(44)),
                ("seconds_remaining", "SecondsRemaining", K(45))]
        base = dict(CurrentOperation=NONE, ParentActivityId=Const(-1), PercentComplete=Const(-1), SecondsRemaining=Const(-1))

        def kw(w):
            k = {a: v for a, _, v in fields}
            if not defaults:
                k.update({a: v for a, _, v in rest})
                k["record_type"] = w.enum("ProgressRecordType", record)
            return k

        def values(w):
            v = dict(base)
            v.update({b: x for _, b, x in fields})
            if not defaults:
                v.update({b: x for _, b, x in rest})
            return v

        def expected(w):
            return [K(41), w.new("ProgressRecord", RecordType=w.enum("ProgressRecordType", record), **values(w))]

        return kw, expected, lambda w: Lst([K(41), Obj(Type=Any(w.enum("ProgressRecordType", record)), **values(w))])

    for rec, dflt in (("Completed", False), ("Processing", False), ("Processing", True)):
        for empty in (False, True):
            mode["empty"] = empty
            kw, exp, enc = progress(rec, dflt)
            for where in ("pool", "pipeline"):
                request("write_progress", "WriteProgress", lambda w: [K(41)], exp, enc, kw, where, f" {rec}" + (" with defaults" if dflt else ""))
    mode["empty"] = False

    def field_values(i, mand):
        return dict(Name=T(f"name{i}"), ParameterTypeName=T(f"ptn{i}"), ParameterTypeFullName=T(f"ptfn{i}"), ParameterAssemblyFullName=T(f"pafn{i}"), Label=T(f"label{i}"), HelpMessage=T(f"help{i}"),
                    IsMandatory=TRUE if mand else FALSE)

    WIRE = {"Name": "name", "ParameterTypeName": "parameterTypeName", "ParameterTypeFullName": "parameterTypeFullName", "ParameterAssemblyFullName": "parameterAssemblyFullName", "Label": "label",
            "HelpMessage": "helpMessage", "IsMandatory": "isMandatory"}
    for n in (1, 2, 0):
        fd = lambda w, n=n: [w.new("FieldDescription", Attributes=w.new("PSList"), **field_values(i, i == 0)) for i in range(n)]
        req("prompt", "Prompt", lambda w, fd=fd: [T("caption"), T("message"), ListV(fd(w))], None,
            lambda w, n=n: Lst([T("caption"), T("message"), Lst([Obj({WIRE[k]: v for k, v in field_values(i, i == 0).items()}) for i in range(n)])]), label=f" for {n} fields")

    def credential(label, kw, method, exp, enc=None):
        req("prompt_for_credential", method, none, exp, enc or (lambda w: Lst(exp(w))), kw, label)

    credential(" by default", None, "PromptForCredential1", lambda w: [Const("PSRPCore credential request"), Const("Enter your credentials."), NONE, Const("")])
    base = lambda w: dict(caption=T("caption"), message=T("message"), username=T("user"), target_name=T("target"))
    four = lambda w: [T("caption"), T("message"), T("user"), T("target")]
    credential("", base, "PromptForCredential1", four)
    ct, co = sorted(prog.cls("PSCredentialTypes").enum_members) + [0], sorted(prog.cls("PSCredentialUIOptions").enum_members) + [3]
    for a in ct + [None]:
        for o in co + [None]:
            if a is None and o is None or (a is not None and o is not None and a != ct[0] and o != co[-1]):
                continue

            def kw(w, a=a, o=o):
                k = base(w)
                if a is not None:
                    k["allowed_credential_types"] = member(w, "PSCredentialTypes", a)
                if o is not None:
                    k["options"] = member(w, "PSCredentialUIOptions", o)
                return k

            aa, oo = "Default" if a is None else a, "Default" if o is None else o
            request("prompt_for_credential", "PromptForCredential2", none, lambda w, aa=aa, oo=oo: four(w) + [member(w, "PSCredentialTypes", aa), member(w, "PSCredentialUIOptions", oo)],
                    lambda w, aa=aa, oo=oo: Lst(four(w) + [Const(number_of(w, "PSCredentialTypes", aa)), Const(number_of(w, "PSCredentialUIOptions", oo))]), kw, "pool", f" {a} {o}")
    for n in (0, 2):
        cv = lambda i: dict(Label=T(f"label{i}"), HelpMessage=T(f"help{i}"))
        cd = lambda w, n=n: ListV([w.new("ChoiceDescription", **cv(i)) for i in range(n)])
        ce = lambda n=n: Lst([Obj(label=T(f"label{i}"), helpMessage=T(f"help{i}")) for i in range(n)])
        req("prompt_for_choice", "PromptForChoice", lambda w, cd=cd: [T("caption"), T("message"), cd(w), K(1)], None, lambda w, ce=ce: Lst([T("caption"), T("message"), ce(), K(1)]), label=f" of {n}")
        req("prompt_for_choice", "PromptForChoice", lambda w, cd=cd: [T("caption"), T("message"), cd(w)], lambda w, cd=cd: [T("caption"), T("message"), cd(w), Const(-1)],
            lambda w, ce=ce: Lst([T("caption"), T("message"), ce(), Const(-1)]), label=f" of {n} without default")
        req("prompt_for_multiple_choice", "PromptForChoiceMultipleSelection", lambda w, cd=cd: [T("caption"), T("message"), cd(w), ListV([K(0), K(1)])], None,
            lambda w, ce=ce: Lst([T("caption"), T("message"), ce(), Lst([K(0), K(1)])]), label=f" of {n}")
        req("prompt_for_multiple_choice", "PromptForChoiceMultipleSelection", lambda w, cd=cd: [T("caption"), T("message"), cd(w)], lambda w, cd=cd: [T("caption"), T("message"), cd(w), ListV([])],
            lambda w, ce=ce: Lst([T("caption"), T("message"), ce(), Lst([])]), label=f" of {n} without default")
    for m in sorted(prog.cls("ReadKeyOptions").enum_members) + [0, 6, 15]:
        req("read_key", "ReadKey", lambda w, m=m: [member(w, "ReadKeyOptions", m)], None, lambda w, m=m: Lst([Const(number_of(w, "ReadKeyOptions", m))]), label=f" {m}", empty=False)
    rect = lambda *n: Obj(left=K(n[0]), top=K(n[1]), right=K(n[2]), bottom=K(n[3]))
    R = lambda w, *n: w.new("Rectangle", Left=K(n[0]), Top=K(n[1]), Right=K(n[2]), Bottom=K(n[3]))
    char = lambda w: w.new("PSChar", Const("q"))

    def one_cell(w, fg="White", bg="Black"):
        return w.new("BufferCell", Character=char(w), ForegroundColor=w.enum("ConsoleColor", fg), BackgroundColor=w.enum("ConsoleColor", bg), BufferCellType=w.enum("BufferCellType", "Complete"))

    def one_enc(w, fg="White", bg="Black"):
        return Obj(character=Any(char(w)), foregroundColor=Const(number_of(w, "ConsoleColor", fg)), backgroundColor=Const(number_of(w, "ConsoleColor", bg)), bufferCellType=Const(0))

    for lab, given in ((" as text", lambda w: Const("q")), (" as a character", char), (" as a number", lambda w: Const(113))):
        req("set_buffer_cells", "SetBufferContents1", lambda w, given=given: [K(1), K(2), K(3), K(4), given(w)], lambda w: [R(w, 1, 2, 3, 4), one_cell(w)], lambda w: Lst([rect(1, 2, 3, 4), one_enc(w)]), label=lab)
        req("scroll_buffer_contents", "ScrollBufferContents", lambda w, given=given: [K(i) for i in range(1, 11)] + [given(w)],
            lambda w: [R(w, 1, 2, 3, 4), w.new("Coordinates", X=K(5), Y=K(6)), R(w, 7, 8, 9, 10), one_cell(w)], lambda w: Lst([rect(1, 2, 3, 4), Obj(x=K(5), y=K(6)), rect(7, 8, 9, 10), one_enc(w)]), label=lab)
    for fg, bg in (("Red", "Blue"), ("Black", "White")):
        k = lambda w, fg=fg, bg=bg: dict(foreground=w.enum("ConsoleColor", fg), background=w.enum("ConsoleColor", bg))
        req("set_buffer_cells", "SetBufferContents1", lambda w: [K(1), K(2), K(3), K(4), Const("q")], lambda w, fg=fg, bg=bg: [R(w, 1, 2, 3, 4), one_cell(w, fg, bg)],
            lambda w, fg=fg, bg=bg: Lst([rect(1, 2, 3, 4), one_enc(w, fg, bg)]), k, f" {fg} on {bg}", empty=False)
        req("scroll_buffer_contents", "ScrollBufferContents", lambda w: [K(i) for i in range(1, 11)] + [Const("q")],
            lambda w, fg=fg, bg=bg: [R(w, 1, 2, 3, 4), w.new("Coordinates", X=K(5), Y=K(6)), R(w, 7, 8, 9, 10), one_cell(w, fg, bg)],
            lambda w, fg=fg, bg=bg: Lst([rect(1, 2, 3, 4), Obj(x=K(5), y=K(6)), rect(7, 8, 9, 10), one_enc(w, fg, bg)]), k, f" {fg} on {bg}", empty=False)
    SIZES = ((1, 1), (1, 3), (3, 1), (2, 3), (3, 2), (2, 2))
    for r, c in SIZES:
        req("set_buffer_contents", "SetBufferContents2", lambda w, r=r, c=c: [K(5), K(6), cells(w, r, c)[0]], lambda w, r=r, c=c: [w.new("Coordinates", X=K(5), Y=K(6)), cells(w, r, c)[0]],
            lambda w, r=r, c=c: Lst([Obj(x=K(5), y=K(6)), cells(w, r, c)[1]]), label=f" of {r} rows of {c}", empty=False)
    req("get_buffer_contents", "GetBufferContents", lambda w: [K(1), K(2), K(3), K(4)], lambda w: [R(w, 1, 2, 3, 4)], lambda w: Lst([rect(1, 2, 3, 4)]))

    # ------------------------------------------------------------------ responses
    def response(helper, method, args, expected, encoded, where="pool", label="", kw=None):
        name = f"response {helper}{label} to {method} on a {where}" + (", empty" if mode["empty"] else "")

        def body(w):
            start(w)
            it = w.it
            c, s, cc, sc = connect(w, where)
            ci = w.call(sc, "host_call", w.enum("HostMethodIdentifier", method), ListV([]))
            r = w.new("ClientHostResponder", cc)
            pls, _ = drain(w, s)
            deliver(w, pls, c)
            evs = events(w, c)
            a = args(w)
            k = kw(w) if kw else {}
            x = expected(w)
            exp = None if x is None else shape(it, x)
            enc = encoded(w) if encoded else None
            w.built = True
            w.call(r, helper, ci, *a, **k)
            pls, ms = drain(w, c)
            if len(ms) != 1:
                return [("helper", "messages", f"sends {[m.name for m in ms]}")]
            out = []
            m = ms[0]
            out.append(("method", "message", None if m.name == ("RunspacePoolHostResponse" if where == "pool" else "PipelineHostResponse") and (m.pid is None) == (where == "pool") else f"sends {m.name} to {m.pid}"))
            d = Doc(snap(it, m.doc))
            mr = d.at(("mr",))
            if enc is not None:
                if len(mr) != 1:
                    out.append(("result-encoding", "mr", f"is written {len(mr)} times"))
                else:
                    out.append(("result-encoding", "mr", mismatch(it, w, d, mr[0], enc)))
            deliver(w, pls, s)
            evs = events(w, s)
            if len(evs) != 1:
                return out + [("helper", "events", f"{len(evs)} events")]
            ev = evs[0]
            g = w.get(ev, "method_identifier")
            out.append(("method", "identifier", None if isinstance(g, EnumV) and g.name == method else f"is {show(g)}"))
            a, b = it.prim(w.get(ev, "ci")), it.prim(ci)
            out.append(("call-id", "ci", None if key(a) == key(b) else f"is {show(a)}, the call is {show(b)}"))
            v = w.get(ev, "error")
            out.append(("result", "error", None if not truth(it, v) else f"is {show(v)}"))
            v = w.get(ev, "result")
            if x is None:
                out.append(("result", "result", None if not truth(it, v) else f"is {show(v)}"))
            else:
                gx = shape(it, v)
                out.append(("result", "result", None if alike(it, exp, gx) else f"is decoded as {str(gx)[:250]}, given was {str(exp)[:250]}"))
            return out

        settle("helper", name, body)

    def resp(helper, method, value=None, expected=None, encoded=None, label="", empty=True, args=None, kw=None, both=True):
        args = args or (lambda w: [value(w)])
        expected = expected or value
        enc = encoded or value
        for where in ("pool", "pipeline") if both else ("pool",):
            response(helper, method, args, expected, enc, where, label, kw)
        if empty:
            mode["empty"] = True
            response(helper, method, args, expected, enc, "pool", label, kw)
            mode["empty"] = False

    for h, m in (("get_name", "GetName"), ("get_current_culture", "GetCurrentCulture"), ("get_current_ui_culture", "GetCurrentUICulture"), ("read_line", "ReadLine"), ("get_window_title", "GetWindowTitle")):
        resp(h, m, lambda w: T("text"))
    version = lambda w: w.new("PSVersion", Const("1.2.3"))
    resp("get_version", "GetVersion", version, empty=False)
    resp("get_version", "GetVersion", lambda w: Const("1.2.3"), version, version, " as text", empty=False)
    resp("get_instance_id", "GetInstanceId", lambda w: Const(uuid.UUID(GUID)), empty=False)
    for b in (TRUE, FALSE):
        resp("get_is_runspace_pushed", "GetIsRunspacePushed", lambda w, b=b: b, label=f" {b.v}", empty=False)
        resp("get_key_available", "GetKeyAvailable", lambda w, b=b: b, label=f" {b.v}", empty=False)
    resp("get_cursor_size", "GetCursorSize", lambda w: K(25))
    resp("prompt_for_choice", "PromptForChoice", lambda w: K(2))
    resp("prompt_for_multiple_choice", "PromptForChoiceMultipleSelection", lambda w: ListV([K(2), K(3)]))
    resp("prompt_for_multiple_choice", "PromptForChoiceMultipleSelection", lambda w: ListV([]), label=" without choice", empty=False)
    resp("prompt_for_multiple_choice", "PromptForChoiceMultipleSelection", lambda w: K(2), lambda w: ListV([K(2)]), lambda w: Lst([K(2)]), " with one")
    resp("prompt", "Prompt", lambda w: mkdict((Const("a"), T("va")), (Const("b"), K(5)), (Const("c"), NONE)))
    resp("prompt", "Prompt", lambda w: mkdict(), label=" without fields", empty=False)
    for m in colors:
        for h, me in (("get_foreground_color", "GetForegroundColor"), ("get_background_color", "GetBackgroundColor")):
            resp(h, me, lambda w, m=m: w.enum("ConsoleColor", m), None, lambda w, m=m: Const(number_of(w, "ConsoleColor", m)), " " + m, empty=False, both=m in ("Black", "Red"))
    for h, m, cls, ns, es in (("get_cursor_position", "GetCursorPosition", "Coordinates", ("X", "Y"), ("x", "y")), ("get_window_position", "GetWindowPosition", "Coordinates", ("X", "Y"), ("x", "y")),
                              ("get_buffer_size", "GetBufferSize", "Size", ("Width", "Height"), ("width", "height")), ("get_window_size", "GetWindowSize", "Size", ("Width", "Height"), ("width", "height")),
                              ("get_max_window_size", "GetMaxWindowSize", "Size", ("Width", "Height"), ("width", "height")),
                              ("get_max_physical_window_size", "GetMaxPhysicalWindowSize", "Size", ("Width", "Height"), ("width", "height"))):
        resp(h, m, None, lambda w, cls=cls, ns=ns: w.new(cls, **{ns[0]: K(61), ns[1]: K(62)}), lambda w, es=es: Obj({es[0]: K(61), es[1]: K(62)}), args=lambda w: [K(61), K(62)])
    for st in sorted(prog.cls("ControlKeyStates").enum_members) + [0x21, 0x1FF]:
        for down in (TRUE, FALSE):
            resp("read_key", "ReadKey", None,
                 lambda w, st=st, down=down: w.new("KeyInfo", VirtualKeyCode=K(66), Character=char(w), ControlKeyState=member(w, "ControlKeyStates", st), KeyDown=down),
                 lambda w, st=st, down=down: Obj(virtualKeyCode=K(66), character=Any(char(w)), controlKeyState=Const(number_of(w, "ControlKeyStates", st)), keyDown=down),
                 f" {st} {down.v}", empty=st == "none", args=lambda w, st=st, down=down: [Const("q"), down], kw=lambda w, st=st: dict(control_key_state=member(w, "ControlKeyStates", st), key_code=K(66)), both=st == "none")
    for lab, g in ((" as a character", char), (" as a number", lambda w: Const(113))):
        resp("read_key", "ReadKey", None, lambda w: w.new("KeyInfo", VirtualKeyCode=Const(0), Character=char(w), ControlKeyState=w.enum("ControlKeyStates", "none"), KeyDown=TRUE),
             lambda w: Obj(virtualKeyCode=Const(0), character=Any(char(w)), controlKeyState=Const(0), keyDown=TRUE), lab, empty=False, args=lambda w, g=g: [g(w), TRUE])
    for r, c in SIZES:
        resp("get_buffer_contents", "GetBufferContents", lambda w, r=r, c=c: cells(w, r, c)[0], None, lambda w, r=r, c=c: cells(w, r, c)[1], f" of {r} rows of {c}", empty=False)
    # every other method: the value as it is
    for m in METHODS:
        if m in VOID:
            continue

        def nothing(w):
            return None

        h = {"ReadLineAsSecureString": "read_line_as_secure_string", "PromptForCredential1": "prompt_for_credential", "PromptForCredential2": "prompt_for_credential", "ReadLine": "read_line",
             "GetName": "get_name", "Prompt": "prompt"}.get(m)
        if h:
            response(h, m, lambda w: [NONE], nothing, None, "pool", " with nothing")

    # secure values: the ciphertext of the given text
    def secure(helper, method, build, get, label):
        for where in ("pool", "pipeline"):
            name = f"response {helper} to {method} on a {where}{label}"

            def body(w, where=where):
                start(w)
                it = w.it
                c, s, cc, sc = connect(w, where)
                ci = w.call(sc, "host_call", w.enum("HostMethodIdentifier", method), ListV([]))
                r = w.new("ClientHostResponder", cc)
                pump(w, s, c)
                v = build(w)
                w.built = True
                w.call(r, helper, ci, v)
                evs = pump(w, c, s)
                if len(evs) != 1:
                    return [("helper", "events", f"{len(evs)} events")]
                return get(w, w.get(evs[0], "result"))

            settle("helper", name, body)

    def it_plain(w, v):
        it = w.it
        if not isinstance(v, InstV) or v.cls.name != "PSSecureString":
            return ("result", "secure string", f"is {show(v)}")
        t = it.prim(w.call(v, "decrypt"))
        for op in ("decrypted", "encrypted"):
            t = text_base(t)
            if not isinstance(t, Sym) or t.op != op:
                return ("result", "secure string", f"decrypts to {show(t)}")
            t = t.args[1]
        t = text_base(t)
        return ("result", "secure string", None if key(t) == key(S("secret", "str")) else f"decrypts to {show(t)}")

    sec = lambda w: w.new("PSSecureString", S("secret", "str"))
    secure("read_line_as_secure_string", "ReadLineAsSecureString", sec, lambda w, v: [it_plain(w, v)], "")

    def cred(w, v):
        it = w.it
        if not isinstance(v, InstV) or v.cls.name != "PSCredential":
            return [("result", "credential", f"is {show(v)}")]
        u = shape(it, w.get(v, "UserName"))
        e = shape(it, S("user", "str"))
        return [("result", "user name", None if same(it, e, u) else f"is {u}"), it_plain(w, w.get(v, "Password"))]

    for m in ("PromptForCredential1", "PromptForCredential2"):
        secure("prompt_for_credential", m, lambda w: w.new("PSCredential", UserName=S("user", "str"), Password=sec(w)), cred, "")
