"""C14: serializing, sending or reading leaves the value and the document alone."""
from ..frozen import *
from ..link import *
from ..vals import *
from .c15 import add_prop, bag, enums, ext, kinds, typed

META = {
    "level": "other",
    "technique": "effect analysis by abstract interpretation: the state of every object reachable from the value is compared before and after each operation, on every path",
    "explanation": "A value of every kind the package converts (symbolic and boundary primitives, containers, extended and user defined types, object graphs with sharing, enums, commands, pipelines, host information, records) is built on the "
                   "abstract heap. Everything reachable from it, including its attributes, property lists, type names and the definitions of its types, is recorded by identity; serialize, serialize_clixml, the textual representations and the "
                   "sending operations of two interpreted pools are then interpreted and the recorded objects compared on every path. The value is serialized twice and sent to peers of several versions and the documents compared. "
                   "Documents of all these values, and documents as a Windows peer writes them, are recorded likewise while deserialize reads them, twice, and the results compared. New private attributes (caches) are not differences.",
    "rules": ["unchanged", "again", "text", "document", "reread", "sent", "sent-again", "received"],
}


def tk(v):
    """A comparable form of a text, functions by name."""
    if isinstance(v, Sym):
        return ("s", v.op) + tuple(tk(a) for a in v.args)
    if isinstance(v, FuncV):
        return ("f", v.qual)
    if isinstance(v, (TupleV, tuple)):
        return tuple(tk(a) for a in (v.items if isinstance(v, TupleV) else v))
    return key(v) if isinstance(v, V) else getattr(v, "pattern", None) or v


def stable(t, seen=None):
    """A shape without the numbers of the heap objects in it."""
    seen = {} if seen is None else seen
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "h" and isinstance(t[1], int):
            return ("h", seen.setdefault(t[1], len(seen)))
        return tuple(stable(x, seen) for x in t)
    return t


def canon(it, x):
    """A document without the identity of its elements."""
    return (x.tag, tuple(sorted((k, tk(it.prim(v))) for k, v in x.attrib.items())), None if x.text is None else tk(it.prim(x.text)), tuple(canon(it, k) for k in x.kids))


def types_of(frozen):
    """Definitions of the types of the recorded objects."""
    out = {}

    def one(c):
        for m in c.mro if isinstance(c, ClassV) else ():
            if isinstance(m, ClassV) and isinstance(m.ns.get("PSObject"), InstV):
                out[m.qualname] = m.ns["PSObject"]
    for o, _ in frozen.objs.values():
        if isinstance(o, InstV):
            one(o.cls)
            for v in o.attrs.values():
                if isinstance(v, EnumV):
                    one(v.cls)
        elif isinstance(o, (ListV,)):
            for v in o.items:
                if isinstance(v, EnumV):
                    one(v.cls)
    return [(f"definition of {n}", m) for n, m in sorted(out.items())]


def freeze(roots):
    roots = list(roots)
    extra = []
    for n, v in roots:
        if isinstance(v, EnumV):
            extra += [(f"definition of {c.qualname}", c.ns["PSObject"]) for c in v.cls.mro if isinstance(c, ClassV) and isinstance(c.ns.get("PSObject"), InstV)]
            extra += [(f"member {m}", x) for m, x in v.cls.enum_members.items()]
    skip = {"Queue"}

    def stop(o):  # the lock of a queue, and what is not data
        return isinstance(o, InstV) and o.cls.module is not None and o.cls.module.name in ("threading",)
    f = Frozen(roots, stop=stop)
    return Frozen(roots + types_of(f) + extra, stop=stop)


def check(chk):
    prog = chk.prog
    prog.extra("user_types")
    prog.extra("convert_types")

    def settle(rule, name, body, config=None):
        def decide():
            def go(w):
                start(w)
                return body(w)

            ps = chk.seen(run(prog, go, config() if config else link_config()))
            if not any(getattr(p.world, "built", False) for p in ps):
                raise Unsupported("the scenario cannot be built: " + "; ".join(sorted({str(p.exc_name()) for p in ps})))
            for p in ps:
                if p.kind == "return":
                    for r, label, b in p.value:
                        chk.need(b is None, r, f"{name}: {label}", b, path=p)
                # an operation that refuses the value is the business of other properties

        chk.attempt(rule, name, decide)

    def same_state(out, rule, label, frozen):
        ch = frozen.changes()
        out.append((rule, label, "; ".join(t for _, t in ch[:3]) or None))
        return not ch

    def attempt(w, f):
        try:
            return f(), None
        except PyRaise as e:
            return None, getattr(e.cls, "name", str(e.cls))

    raw = lambda: Config(hooks=CRYPT, recursion=12, raw_psobject=True)
    plain = lambda: Config(hooks=CRYPT, recursion=12)

    # ------------------------------------------------------------------ the values
    def graph(w, a, b):
        r = bag(w, p0=a, p1=b, p2=a)
        add_prop(w, r, "list", w.new("PSList", ListV([a, b, a, bag(w, inner=b)])))
        add_prop(w, r, "plain", ListV([b, ListV([a]), mkdict((Const("k"), a), (Const("l"), b))]))
        d = w.new("PSDict")
        w.it.set_item(d, Const("k"), a, None)
        add_prop(w, r, "dict", d)
        add_prop(w, r, "queue", queue_of(w, "PSQueue", b, a))
        add_prop(w, r, "record", w.new("Record", Name=Const("x"), Extra=a))
        return r

    def texted(w):
        o = bag(w, a=Const(1))
        w.it.setattr(w.it.getattr(o, "PSObject", None), "to_string", Const("text"), None)
        return o

    def error(w, full=False, **kw):
        kw.setdefault("Exception", w.new("NETException", Message=S("m", "str")))
        kw.setdefault("CategoryInfo", w.new("ErrorCategoryInfo", Category=w.enum("ErrorCategory", "DeviceError"), Activity=Const("act")))
        kw.setdefault("TargetObject", bag(w, n=Const(7)))
        kw.setdefault("FullyQualifiedErrorId", Const("id"))
        if full:
            kw.update(ErrorDetails=w.new("ErrorDetails", Message=Const("d"), RecommendedAction=Const("r")), InvocationInfo=invocation(w), PipelineIterationInfo=ListV([Const(1), Const(2)]), ScriptStackTrace=Const("at x"))
        e = w.new("ErrorRecord", **kw)
        if full:
            w.it.setattr(e, "serialize_extended_info", TRUE, None)
        return e

    def invocation(w):
        return w.new("InvocationInfo", BoundParameters=mkdict((Const("Path"), Const("x"))), CommandOrigin=w.enum("CommandOrigin", "Runspace"), ExpectingInput=FALSE, HistoryId=Const(1), InvocationName=Const("n"),
                     Line=Const("line"), OffsetInLine=Const(1), PipelineLength=Const(1), PipelinePosition=Const(1), PositionMessage=Const("p"), ScriptLineNumber=Const(3), ScriptName=Const("C:\\dir\\script.ps1"),
                     UnboundArguments=ListV([Const(1), bag(w, x=Const(1))]))

    def informational(cls, full):
        def mk(w):
            o = w.new(cls, Message=S("m", "str"), InvocationInfo=invocation(w) if full else NONE, PipelineIterationInfo=ListV([Const(0), Const(1)]))
            if full:
                w.it.setattr(o, "serialize_extended_info", TRUE, None)
            return o
        return mk

    def info(w):
        return w.new("InformationRecord", MessageData=bag(w, Message=S("m", "str")), Source=Const("src"), Tags=w.new("PSList", ListV([Const("t"), Const("u")])), User=Const("u"), Computer=Const("c"), ProcessId=Const(5), NativeThreadId=Const(6),
                     ManagedThreadId=Const(8), TimeGenerated=w.new("PSDateTime", Const(2020), Const(1), Const(1), Const(3), Const(4), Const(5)))

    def command(w, **kw):
        c = w.new("Command", Const("Get-Item"))
        w.call(c, "add_parameter", Const("Path"), ListV([Const("a"), bag(w, x=Const(1))]))
        w.call(c, "add_argument", mkdict((Const("k"), ListV([Const(1)]))))
        w.call(c, "redirect_error", w.enum("PipelineResultTypes", "Output"))
        for n in ("warning", "verbose", "debug", "information"):
            w.call(c, f"redirect_{n}", w.enum("PipelineResultTypes", "Output"))
        w.it.setattr(c, "end_of_statement", TRUE, None)
        return c

    def statements(w):
        p = w.new("PowerShell")
        l = w.get(p, "commands")
        for n, eos in (("a", FALSE), ("b", TRUE), ("c", FALSE), ("d", FALSE)):
            c = w.new("Command", Const(n))
            w.it.setattr(c, "end_of_statement", eos, None)
            w.it.call(w.it.getattr(l, "append", None), [c], {}, None)
        return p

    def powershell(w, **kw):
        p = w.new("PowerShell", host=host(w), history=Const("h"), **kw)
        l = w.get(p, "commands")
        for c in (command(w), w.new("Command", Const("script"), TRUE, TRUE), command(w)):
            w.it.call(w.it.getattr(l, "append", None), [c], {}, None)
        return p

    def host_data(w):
        co = lambda: w.new("Coordinates", X=Const(1), Y=Const(2))
        si = lambda: w.new("Size", Width=Const(3), Height=Const(4))
        return w.new("HostDefaultData", ForegroundColor=w.enum("ConsoleColor", "Red"), BackgroundColor=w.enum("ConsoleColor", "Blue"), CursorPosition=co(), WindowPosition=co(), CursorSize=Const(5), BufferSize=si(), WindowSize=si(),
                     MaxWindowSize=si(), MaxPhysicalWindowSize=si(), WindowTitle=Const("t"))

    def host(w):
        return w.new("HostInfo", IsHostNull=FALSE, IsHostUINull=FALSE, IsHostRawUINull=FALSE, UseRunspaceHost=FALSE, HostDefaultData=host_data(w))

    def metadata(w):
        return w.new("GetMetadata", name=ListV([Const("a*"), Const("b")]), namespace=ListV([Const("n")]), arguments=ListV([Const(1), bag(w, x=Const(1))]))

    def choice(w):
        return w.new("ChoiceDescription", Label=Const("&Yes"), HelpMessage=Const("h"))

    def field_description(w):
        return w.new("FieldDescription", Name=Const("n"), ParameterTypeName=Const("String"), ParameterTypeFullName=Const("System.String"), ParameterAssemblyFullName=Const(""), Attributes=ListV([Const("x")]))

    def typed_bag(w):
        o = bag(w, zz=Const(1), b=Const(2), a=Const(3))
        l = w.it.getattr(w.it.getattr(o, "PSObject", None), "adapted_properties", None)
        for n in ("y", "x", "m"):
            w.it.call(w.it.getattr(l, "append", None), [w.new("PSNoteProperty", Const(n), Const(1))], {}, None)
        return o

    RECORDS = [("error record", error), ("full error record", lambda w: error(w, True)), ("error record with text details", lambda w: error(w, ErrorDetails=w.new("ErrorDetails", Message=Const("m")))),
               ("invocation information", invocation), ("information record", info), ("information record of a text", lambda w: w.new("InformationRecord", MessageData=Const("x"), Source=Const("s"))),
               ("progress record", progress), ("nested pipelines", lambda w: ListV([powershell(w), powershell(w, is_nested=TRUE)]))]
    RECORDS += [(f"{c} {'full' if f else ''}", informational(c, f)) for c in ("DebugRecord", "VerboseRecord", "WarningRecord") for f in (False, True)]
    RECORDS += [("progress record out of range", lambda w: progress(w, PercentComplete=Const(150), SecondsRemaining=Const(-5), ParentActivityId=Const(7))), ("finished progress record", lambda w: progress(w, "Completed", PercentComplete=Const(-1))),
                ("unsorted properties", lambda w: typed_bag(w)), ("host information without data", lambda w: w.new("HostInfo", IsHostNull=FALSE, IsHostUINull=FALSE, IsHostRawUINull=FALSE, UseRunspaceHost=FALSE)),
                ("host information without a host", lambda w: w.new("HostInfo")), ("several statements", statements)]
    RECORDS += [("command", command), ("pipeline", powershell), ("empty pipeline", lambda w: w.new("PowerShell")), ("command metadata request", metadata), ("host information", host), ("host default data", host_data),
                ("coordinates", lambda w: w.new("Coordinates", X=Const(1), Y=Const(2))), ("size", lambda w: w.new("Size", Width=Const(1), Height=Const(2))), ("choice", choice), ("field", field_description),
                ("credential", lambda w: w.new("PSCredential", UserName=Const("u"), Password=w.new("PSSecureString", S("secret", "str")))), ("secure string", lambda w: w.new("PSSecureString", S("secret", "str"))),
                ("exception", lambda w: w.new("NETException", Message=Const("m"), InnerException=w.new("NETException", Message=Const("i")))), ("text of an object", texted),
                ("key information", lambda w: w.new("KeyInfo", VirtualKeyCode=Const(65), Character=w.new("PSChar", Const("A")), ControlKeyState=w.enum("ControlKeyStates", "ShiftPressed"), KeyDown=TRUE)),
                ("buffer cell", lambda w: w.new("BufferCell", Character=w.new("PSChar", Const("A")), ForegroundColor=w.enum("ConsoleColor", "Red"), BackgroundColor=w.enum("ConsoleColor", "Blue"), BufferCellType=Const(0))),
                ("rectangle", lambda w: w.new("Rectangle", Left=Const(1), Top=Const(2), Right=Const(3), Bottom=Const(4))),
                ("unregistered object", lambda w: typed(w, "Other.Thing", "Other.Base"))]

    RECORDS += [(f"{c} object", lambda w, c=c: w.new(c, Id=Const(3), **({"Items": ListV([Const(1), bag(w)])} if c == "Another" else {}))) for c in ("Itself", "Another", "Changing")]
    values = [(n, mk) for n, mk, *_ in primitives()] + [(n, mk) for n, mk, *_ in containers()]
    values += kinds()
    for n, ms in enums(prog):
        values.append((f"{n} members", lambda w, ms=ms: ListV([ms[0], ms[-1], ms[0]])))
    graphs = [("equal objects", lambda w: graph(w, bag(w, x=Const(1)), bag(w, x=Const(1)))), ("shared record", lambda w: graph(w, w.new("Record", Name=Const("r")), ext(w, w.new("PSString", Const("s"))))),
              ("shared containers", lambda w: graph(w, w.new("PSList", ListV([Const(1)])), w.new("PSDict"))), ("shared plain containers", lambda w: graph(w, ListV([Const(1)]), mkdict((Const("k"), NONE)))),
              ("shared queues", lambda w: graph(w, queue_of(w, "PSQueue", Const(1)), queue_of(w, w.prog.models["queue"].frame.vars["Queue"], Const(2)))),
              ("itself", lambda w: (lambda o: add_prop(w, o, "me", o))(bag(w, x=Const(1)))), ("bag of primitives", lambda w: ListV([mk(w) for n, mk, *_ in primitives()[:30]])),
              ("extended containers", lambda w: ListV([ext(w, w.new(c), 1) for c in ("PSList", "PSStack", "PSQueue", "PSDict", "UserList")]))]

    # ------------------------------------------------------------------ written and read again
    def direct(name, mk, config=plain, kind="value"):
        def body(w):
            it = w.it
            v = mk(w)
            w.built = True
            out = []
            f = freeze([("value", v)])
            e1, x1 = attempt(w, lambda: serialize(w, v))
            same_state(out, "unchanged", "written", f)
            e2, x2 = attempt(w, lambda: serialize(w, v))
            if x1 is None or x2 is None:
                ok = x1 is x2 is None and canon(it, snap(it, e1)) == canon(it, snap(it, e2))
                out.append(("again", "second document", None if ok else f"it is {'refused with ' + x2 if x2 else repr(snap(it, e2))[:300]} the second time, {'refused with ' + x1 if x1 else repr(snap(it, e1))[:300]} the first time"))
            if x1 is not None:
                return out
            d = freeze([("document", e1)])
            r1, y1 = attempt(w, lambda: deserialize(w, e1))
            same_state(out, "document", "read", d)
            same_state(out, "unchanged", "read", f)
            if y1 is None:
                g = freeze([("value read first", r1)])
                r2, y2 = attempt(w, lambda: deserialize(w, e1))
                ok = y2 is None and stable(shape(it, r1)) == stable(shape(it, r2))
                out.append(("reread", "second time", None if ok else f"the document is {'refused with ' + y2 if y2 else 'read as ' + str(shape(it, r2))[:200]} the second time, first as {str(shape(it, r1))[:200]}"))
                same_state(out, "reread", "value read before", g)
                attempt(w, lambda: serialize(w, r1))
                same_state(out, "unchanged", "the value read is written", g)
            return out

        settle("unchanged", name, body, config)

    def changed(name, mk, change):
        """A change between two documents is in the second one."""
        def body(w):
            it = w.it
            v, u = mk(w), mk(w)
            w.built = True
            for n in ("str", "repr"):
                attempt(w, lambda: it.call(ExtV(n), [v], {}, None))
            serialize(w, v)
            change(w, v)
            change(w, u)
            a, b = snap(it, serialize(w, v)), snap(it, serialize(w, u))
            return [("again", "changed in between", None if canon(it, a) == canon(it, b) else f"{a!r:.300} is written after a change, {b!r:.300} if nothing was written before")]

        settle("again", f"{name} changed", body, raw)

    def shown(name, mk):
        def body(w):
            it = w.it
            v = mk(w)
            w.built = True
            out = []
            f = freeze([("value", v)])
            for n in ("str", "repr"):
                attempt(w, lambda: it.call(ExtV(n), [v], {}, None))
                same_state(out, "text", n, f)
            if isinstance(v, InstV) and isinstance(v.attrs.get("PSObject"), InstV):
                attempt(w, lambda: it.getattr(v.attrs["PSObject"], "to_string", None))
                same_state(out, "text", "to_string", f)
            if isinstance(v, InstV):
                for n in ("__len__", "__bool__", "__hash__"):
                    if it.class_attr(v.cls, n) is not None:
                        attempt(w, lambda: it.user_op(v, n, []))
                same_state(out, "text", "size and hash", f)
            return out

        settle("text", f"{name} shown", body, plain)

    for name, mk in values + graphs + RECORDS:
        direct(name, mk)
        if not name.startswith(("int ", "enum")) and "members" not in name:
            shown(name, mk)
    for name, mk in [(f"{n}, attributes interpreted", mk) for n, mk in kinds() + graphs[:2] + RECORDS]:
        direct(name, mk, raw)

    for c in ("Itself", "Another", "Changing", "Record", "Named"):
        if c == "Record":
            mk = lambda w: w.new("Record", Name=Const("a"))
            ch = lambda w, v: w.it.setattr(v, "Name", Const("b"), None)
        else:
            mk = lambda w, c=c: w.new(c, Id=Const(3), **({"Items": ListV([])} if c == "Another" else {}))
            ch = lambda w, v: w.it.setattr(v, "Id", Const(4), None)
        changed(c, mk, ch)
    changed("list", lambda w: w.new("PSList", ListV([Const(1)])), lambda w, v: w.call(v, "append", Const(2)))
    changed("dictionary", lambda w: w.new("PSDict"), lambda w, v: w.it.set_item(v, Const("k"), Const(2), None))
    changed("queue", lambda w: queue_of(w, "PSQueue", Const(1)), lambda w, v: w.call(v, "put", Const(2)))
    changed("type names", lambda w: bag(w, a=Const(1)), lambda w, v: w.it.call(w.it.getattr(w.it.getattr(w.it.getattr(v, "PSObject", None), "type_names", None), "insert", None), [Const(0), Const("First")], {}, None))
    changed("text", texted, lambda w, v: w.it.setattr(w.it.getattr(v, "PSObject", None), "to_string", Const("other"), None))
    changed("properties", lambda w: bag(w, a=Const(1)), lambda w, v: add_prop(w, v, "b", Const(2)))

    # ------------------------------------------------------------------ documents of other writers
    B = build

    def doc(w, n):
        tn = lambda r, *names: B(w, "TN", None, [B(w, "T", x) for x in names], RefId=r)
        o = lambda r, *kids: B(w, "Obj", None, list(kids), RefId=r)
        if n == "references":
            return o("0", B(w, "LST", None, [o("1", tn("0", "A.B", "System.Object"), B(w, "MS", None, [B(w, "I32", "1", N="x")])), B(w, "Ref", RefId="1"), o("2", B(w, "TNRef", RefId="0"), B(w, "MS", None, [B(w, "Ref", RefId="1", N="r")]))]))
        if n == "dictionary":
            en = lambda k, v: B(w, "En", None, [k, v])
            return o("0", tn("0", "System.Collections.Hashtable", "System.Object"), B(w, "DCT", None, [en(B(w, "S", "a", N="Key"), B(w, "I32", "1", N="Value")), en(B(w, "I64", "2", N="Key"), o("1", B(w, "LST", None, [], N="Value")))]))
        if n == "value before key":
            return o("0", B(w, "DCT", None, [B(w, "En", None, [B(w, "I32", "1", N="Value"), B(w, "S", "a", N="Key")])]))
        if n == "properties and entries":
            return o("0", tn("0", "User.List"), B(w, "LST", None, [B(w, "S", "x")]), B(w, "Props", None, [B(w, "S", "p", N="Adapted")]), B(w, "MS", None, [B(w, "S", "q", N="Extended")]), B(w, "ToString", "text"))
        if n == "enum":
            return o("0", tn("0", "System.ConsoleColor", "System.Enum", "System.ValueType", "System.Object"), B(w, "ToString", "Red"), B(w, "I32", "12"))
        if n == "stack and queue":
            return o("0", B(w, "LST", None, [o("1", B(w, "STK", None, [B(w, "I32", "1"), B(w, "I32", "2")])), o("2", B(w, "QUE", None, [B(w, "I32", "1"), B(w, "I32", "2")])), o("3", B(w, "IE", None, [B(w, "I32", "1")]))]))
        if n == "extended primitive":
            return o("0", B(w, "S", S("t", "str")), B(w, "MS", None, [B(w, "S", "x", N="Extra")]))
        if n == "escapes":
            return o("0", B(w, "MS", None, [B(w, "S", "_x000A_ _x005F_x0", N="_x0041_b")]))
        if n == "progress":
            return B(w, "PR", None, [B(w, "AV", "a"), B(w, "AI", "1"), B(w, "Nil"), B(w, "PI", "-1"), B(w, "PC", "5"), B(w, "T", "Processing"), B(w, "SR", "6"), B(w, "SD", "d")])
        if n == "secure":
            return o("0", B(w, "LST", None, [B(w, "SS", S("c", "str")), B(w, "SS", "")]))
        if n == "strings":
            return o("0", B(w, "LST", None, [B(w, "S", ""), B(w, "S"), B(w, "C", "65"), B(w, "B", "true"), B(w, "DT", "2008-04-11T10:42:32.2731993-07:00"), B(w, "TS", "P1DT2H3M4.5S"), B(w, "BA", "YWI="), B(w, "G", GUID), B(w, "Version", "1.2"), B(w, "URI", "http://x"), B(w, "XD", "<a/>"), B(w, "SBK", "x"), B(w, "Nil")]))

    for n in ("references", "dictionary", "value before key", "properties and entries", "enum", "stack and queue", "extended primitive", "escapes", "progress", "secure", "strings"):
        def peer(w, n=n):
            it = w.it
            e = doc(w, n)
            w.built = True
            out = []
            f = freeze([("document", e)])
            r1, y1 = attempt(w, lambda: deserialize(w, e))
            same_state(out, "document", "read", f)
            r2, y2 = attempt(w, lambda: deserialize(w, e))
            out.append(("reread", "second time", None if y1 == y2 and (y1 or stable(shape(it, r1)) == stable(shape(it, r2))) else f"the document is read as {y2 or str(shape(it, r2))[:200]} the second time, first as {y1 or str(shape(it, r1))[:200]}"))
            return out

        settle("document", f"document with {n}", peer, plain)

    # ------------------------------------------------------------------ texts of documents
    def h_root(it, args, kw, node):
        t = h_tostring(it, args, kw, node).v
        return Const("<Objs>" + t + "</Objs>" if isinstance(t, str) else b"<Objs>" + t + b"</Objs>")

    texts = lambda: link_config(ext_hooks={"xml.etree.ElementTree.tostring": h_root})

    for name, mk in [("list", lambda w: ListV([Const(1), bag(w, x=ListV([Const(2)]))])), ("list of records", lambda w: ListV([error(w), info(w), progress(w)])), ("pairs", lambda w: ListV([TupleV([Const("a"), w.enum("ClixmlStream", "OUTPUT")]), TupleV([error(w), w.enum("ClixmlStream", "ERROR")])])),
                     ("error record", lambda w: error(w, True)), ("queue", lambda w: queue_of(w, "PSQueue", Const(1))), ("empty list", lambda w: ListV([])), ("object", lambda w: graph(w, bag(w), bag(w)))]:
        def whole(w, mk=mk):
            it = w.it
            v = mk(w)
            ci = cipher(w)
            w.built = True
            out = []
            f = freeze([("value", v)])
            fn = prog.func("serialize_clixml")
            t1, x1 = attempt(w, lambda: it.call(fn, [v, ci], {}, None))
            same_state(out, "unchanged", "serialize_clixml", f)
            n = len(w.docs)
            t2, x2 = attempt(w, lambda: it.call(fn, [v, ci], {}, None))
            if x1 is None and x2 is None and n == 1 and len(w.docs) == 2:
                a, b = (canon(it, snap(it, d)) for d in w.docs)
                out.append(("again", "second document", None if a == b else f"{snap(it, w.docs[1])!r:.300} the second time, {snap(it, w.docs[0])!r:.300} first"))
            elif x1 != x2:
                out.append(("again", "second document", f"raises {x2} the second time, {x1} first"))
            if x1 is None and w.docs:
                d = freeze([("document", w.docs[0])])
                attempt(w, lambda: it.call(prog.func("deserialize_clixml"), [t1, ci], {}, None))
                same_state(out, "document", "deserialize_clixml", d)
            return out

        settle("unchanged", f"{name} as a text", whole, texts)

    def shell(s, mk):
        def body(w):
            it = w.it
            v = mk(w)
            sh = w.new("ClixmlShell")
            w.built = True
            out = []
            f = freeze([("value", v)])
            for i in (1, 2):
                if s == "progress":
                    w.call(sh, "write_progress", Const(3), v)
                else:
                    w.call(sh, f"write_{s}", v)
            same_state(out, "sent", "queued", f)
            w.call(sh, "data_to_send")
            same_state(out, "sent", "sent", f)
            w.call(sh, f"write_{s}", *([Const(3)] if s == "progress" else []), v)
            w.call(sh, "data_to_send")
            same_state(out, "sent", "sent again", f)
            if len(w.docs) == 2:
                a, b = (snap(it, d) for d in w.docs)
                if a.kids and b.kids:
                    out.append(("sent-again", "element", None if canon(it, a.kids[0]) == canon(it, b.kids[0]) else f"{b.kids[0]!r:.300} the second time, {a.kids[0]!r:.300} first"))
            return out
        return body

    for s, n, mk in (("output", "graph", lambda w: graph(w, bag(w), bag(w))), ("output", "error record", lambda w: error(w, True)), ("output", "list", lambda w: ListV([Const(1), ListV([])])), ("error", "error record", lambda w: error(w, True)), ("error", "short error record", error),
                     ("progress", "record", progress), ("information", "record", info), ("output", "queue", lambda w: queue_of(w, "PSQueue", Const(1)))):
        settle("sent", f"shell {s}: {n}", shell(s, mk))

    # ------------------------------------------------------------------ operations of the pools
    def cap(w, pool, version):
        from ..ops import version_peer
        version_peer(w, pool, version)

    def keyed_pair(w, version="2.3"):
        c, s = pair(w)
        for p in (c, s):
            for v in p.attrs.values():
                if isinstance(v, InstV) and v.cls.name == "PSRemotingCrypto":
                    w.call(v, "register_key", S("session", "bytes"))
            if version:
                cap(w, p, version)
        return c, s

    def running(w, c, s, n=PID):
        p = w.new("ClientPowerShell", c, pipeline_id=Const(n))
        w.call(p, "add_command", Const("cmd"))
        w.set_state(p, "Running", "PSInvocationState")
        sp = w.new("ServerPipeline", s, Const(n))
        w.set_state(sp, "Running", "PSInvocationState")
        return p, sp

    def op_command(w, c, s, v):
        p = w.new("ClientPowerShell", c, pipeline_id=Const(PID))
        if isinstance(v, InstV) and v.cls.name == "Command":
            w.call(p, "add_command", v)
        else:
            w.call(p, "add_command", Const("cmd"))
            w.call(p, "add_parameter", Const("Path"), v)
            w.call(p, "add_argument", v)

        def act():
            w.set_state(p, "Completed", "PSInvocationState")
            w.call(p, "start")
        return c, act, [("pipeline", w.get(p, "metadata"))]

    def op_host_info(w, c, s, v):
        p = w.new("ClientPowerShell", c, host=v, pipeline_id=Const(PID))
        w.call(p, "add_script", Const("cmd"))

        def act():
            w.set_state(p, "Stopped", "PSInvocationState")
            w.call(p, "start")
        return c, act, [("pipeline", w.get(p, "metadata"))]

    def op_metadata(w, c, s, v):
        p = w.new("ClientGetCommandMetadata", c, v, namespace=v, arguments=v, pipeline_id=Const(PID))

        def act():
            w.set_state(p, "Stopped", "PSInvocationState")
            w.call(p, "start")
        return c, act, [("pipeline", w.get(p, "metadata"))]

    def op_input(w, c, s, v):
        p, sp = running(w, c, s)
        return c, lambda: w.call(p, "send", v), []

    def host_op(side):
        def op(w, c, s, v):
            p, sp = running(w, c, s)
            o = sp if side == "pipeline" else s
            return s, lambda: w.call(o, "host_call", w.enum("HostMethodIdentifier", "WriteLine2"), v), []
        return op

    def response_op(err):
        def op(w, c, s, v):
            def act():
                w.call(s, "host_call", w.enum("HostMethodIdentifier", "ReadLine"))
                ms = [e for e in pump(w, s, c)]
                ci = w.get(ms[-1], "ci")
                if err:
                    w.call(c, "host_response", ci, NONE, v)
                else:
                    w.call(c, "host_response", ci, v)
            return c, act, []
        return op

    def op_event(w, c, s, v):
        return s, lambda: w.call(s, "send_event", Const(1), Const("id"), v, v if isinstance(v, ListV) else ListV([v]), v, w.new("PSDateTime", Const(2020), Const(1), Const(1)), Const("c")), []

    def op_output(w, c, s, v):
        p, sp = running(w, c, s)
        return s, lambda: w.call(sp, "write_output", v), []

    def op_error(w, c, s, v):
        p, sp = running(w, c, s)
        parts = [w.new("NETException", Message=Const("m")), w.new("ErrorCategoryInfo", Activity=Const("a")), v, Const("id"), w.new("ErrorDetails", Message=Const("d")), invocation(w), ListV([Const(1)]), Const("trace")]
        return s, lambda: w.call(sp, "write_error", *parts), [(f"argument {i}", x) for i, x in enumerate(parts)]

    def informational_op(n):
        def op(w, c, s, v):
            p, sp = running(w, c, s)
            iv, l = invocation(w), ListV([Const(1)])
            return s, lambda: w.call(sp, n, Const("text"), iv, l), [("invocation", iv), ("iterations", l)]
        return op

    def op_information(w, c, s, v):
        p, sp = running(w, c, s)
        tags = ListV([Const("t")])
        return s, lambda: w.call(sp, "write_information", v, Const("src"), w.new("PSDateTime", Const(2020), Const(1), Const(1)), tags, Const("u"), Const("c"), Const(1), Const(2), Const(3)), [("tags", tags)]

    V = [("list", lambda w: ListV([Const(1), ListV([Const(2)]), bag(w, x=Const(1))])), ("graph", lambda w: graph(w, bag(w), bag(w))), ("dict", lambda w: mkdict((Const("k"), ListV([Const(1)])))), ("record", lambda w: w.new("Record", Name=Const("n"), Extra=ListV([]))),
         ("queue", lambda w: queue_of(w, "PSQueue", Const(1))), ("error record", lambda w: error(w, True)), ("enum", lambda w: w.enum("ConsoleColor", "Red")), ("credential", lambda w: w.new("PSCredential", UserName=Const("u"), Password=w.new("PSSecureString", S("secret", "str"))))]
    L = [v for v in V if v[0] == "list"]
    OPS = [("parameters", op_command, V), ("command", op_command, [("shared command", command)]), ("host of a pipeline", op_host_info, [("host", host)]), ("metadata request", op_metadata, L), ("pipeline input", op_input, V), ("pool host call", host_op("pool"), L + [("empty list", lambda w: ListV([]))]),
           ("pipeline host call", host_op("pipeline"), L), ("host response", response_op(False), V), ("host error", response_op(True), [("error record", lambda w: error(w, True)), ("short error record", error)]), ("event", op_event, V[:4] + [("empty list", lambda w: ListV([]))]), ("output", op_output, V),
           ("error", op_error, V[:4]), ("information", op_information, V[:4])]
    OPS += [(n, informational_op(n), [("message", lambda w: Const("x"))]) for n in ("write_debug", "write_verbose", "write_warning")]

    def numbered(x):
        """Messages that carry the number of a call."""
        return any(k.attrib.get("N") is not None and isinstance(k.attrib["N"], Const) and k.attrib["N"].v == "ci" for k in x.walk())

    for oname, op, vals in OPS:
        for vname, mk in vals:
            for version in ("2.3", "2.1") if op in (op_command, op_host_info) else ("2.3",):
                def sent(w, op=op, mk=mk, version=version):
                    it = w.it
                    c, s = keyed_pair(w, version)
                    v = mk(w)
                    src, act, more = op(w, c, s, v)
                    drain(w, src)
                    f = freeze([("value", v)] + more)
                    w.built = True
                    out, docs = [], []
                    for i in (1, 2, 3):
                        if i == 3 and version:  # to a peer of another version and back again
                            cap(w, src, "2.1" if version == "2.3" else "2.3")
                            attempt(w, act)
                            drain(w, src)
                            cap(w, src, version)
                        n = len(w.docs)
                        attempt(w, act)
                        same_state(out, "sent", f"queued ({i})", f)
                        pls, ms = drain(w, src)
                        same_state(out, "sent", f"sent ({i})", f)
                        docs.append([snap(it, m.doc) for m in ms if m.doc is not None][-1:])
                        if i == 1:
                            dst = s if src is c else c
                            fp = freeze([(f"payload {j}", p) for j, p in enumerate(pls)] + [("document", d) for d in w.docs[n:]])
                            attempt(w, lambda: (deliver(w, pls, dst), events(w, dst)))
                            same_state(out, "received", "payload", fp)
                            same_state(out, "sent", "received", f)
                    for i in (1, 2):
                        if docs[0] and docs[i] and not numbered(docs[0][0]):
                            a, b = canon(it, docs[0][0]), canon(it, docs[i][0])
                            out.append(("sent-again", f"message {i + 1}", None if a == b else f"{docs[i][0]!r:.300} is sent, {docs[0][0]!r:.300} the first time"))
                        elif bool(docs[0]) != bool(docs[i]):
                            out.append(("sent-again", f"message {i + 1}", f"{'nothing' if docs[0] else 'a message'} is sent"))
                    return out

                settle("sent", f"{oname}: {vname} (peer {version})", sent)

    # ------------------------------------------------------------------ what a pool is configured with
    for side in ("client", "server"):
        def opening(w, side=side):
            it = w.it
            v = mkdict((Const("k"), ListV([Const(1), bag(w, x=Const(1))])), (Const("d"), mkdict((Const("x"), NONE))))
            h = host(w)
            if side == "client":
                c, s = pair(w, None, client={"application_arguments": v, "host": h})
            else:
                c, s = pair(w, None, server={"application_private_data": v})
            w.built = True
            f = freeze([("value", v), ("host", h)])
            out = []
            w.call(c, "open")
            same_state(out, "sent", "opening", f)
            for i in range(4):
                pump(w, c, s)
                pump(w, s, c)
            same_state(out, "sent", "opened", f)
            return out

        settle("sent", f"opening, {side} configuration", opening)
