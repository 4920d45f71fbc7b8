"""C23: CLIXML shell output keeps streams, order and the one header."""
import itertools

from ..vals import *
from ..xmltext import *
from .c21 import Doc

META = {
    "level": "other",
    "technique": "abstract interpretation of the shell writer and of the output reader over all short interleavings of writes and collections, document texts kept as markup with opaque leaf texts",
    "explanation": "Every interleaving of writes to the seven streams and collections up to a length is interpreted; the concatenated text is taken apart into marker and documents and its elements are compared, in order, "
                   "with the serialization and the stream name of what was written. Documents with every stream name, value kind, header form and chunking are given to the interpreted reader, whose lists are compared with what "
                   "was written. Texts are symbolic; contents that look like a marker, a document or markup are included.",
    "rules": ["marker", "written", "read", "operation"],
}
MARK = "#< CLIXML"
STREAMS = ["output", "error", "debug", "verbose", "warning", "progress", "information"]
NASTY = "#< CLIXML\r\n<Objs a=\"b\">/></Objs>"


def check(chk):
    prog = chk.prog
    prog.extra("user_types")

    def assume(it, s):
        return True if s.op in ("resub", "arg", "encode", "decode") else None

    cfg = lambda: Config(hooks=CRYPT, ext_hooks=TEXT_HOOKS, recursion=12, assume=assume)

    def settle(rule, name, body):
        def decide():
            def go(w):
                w.tokens = []
                return body(w)

            ps = chk.seen(run(prog, go, cfg()))
            if not any(getattr(p.world, "built", False) for p in ps):
                raise Unsupported("the scenario cannot be built: " + "; ".join(sorted({str(p.exc_name()) for p in ps})))
            for p in ps:
                if p.kind == "return":
                    for r, label, b in p.value:
                        chk.need(b is None, r, f"{name}: {label}", b, path=p)
                elif getattr(p.world, "built", False):
                    chk.bad(rule, name, f"raises {p.exc_name()}", path=p)

        chk.attempt(rule, name, decide)

    # ------------------------------------------------------------------ values of a stream
    def text(w, i):
        return S(f"text{i}", "str")

    def error(w, i):
        return w.new("ErrorRecord", Exception=w.new("NETException", Message=text(w, i)), CategoryInfo=w.new("ErrorCategoryInfo", Category=w.enum("ErrorCategory", "DeviceError"), Activity=Const("act")),
                     FullyQualifiedErrorId=Const(f"id{i}"), TargetObject=Const(7))

    def info(w, i):
        return w.new("InformationRecord", MessageData=text(w, i), Source=Const(f"src{i}"), Tags=w.new("PSList", ListV([Const("t")])), User=Const("u"), Computer=Const("c"), ProcessId=Const(5), NativeThreadId=Const(6),
                     ManagedThreadId=Const(8), TimeGenerated=w.new("PSDateTime", Const(2020), Const(1), Const(1), Const(3), Const(4), Const(5)))

    def bag(w, i):
        o = w.new("PSObject")
        it = w.it
        it.call(prog.func("add_note_property"), [o, Const("Name"), text(w, i)], {}, None)
        return o

    KINDS = {s: [("text", text), ("nasty", lambda w, i: Const(NASTY)), ("''", lambda w, i: Const("")), ("spaces", lambda w, i: Const(" \r\n x "))] for s in STREAMS if s != "progress"}
    KINDS["progress"] = [(t, lambda w, i, t=t: progress(w, t, Activity=text(w, i), ActivityId=Const(i))) for t in ("Processing", "Completed")]
    KINDS["error"].append(("record", error))
    KINDS["information"].append(("record", info))
    KINDS["output"] += [("None", lambda w, i: NONE), ("int", lambda w, i: Const(i)), ("False", lambda w, i: FALSE), ("list", lambda w, i: ListV([Const(i), text(w, i)])), ("list []", lambda w, i: ListV([])),
                        ("dict", lambda w, i: mkdict((Const("k"), text(w, i)))), ("object", bag),
                        ("stream", lambda w, i: w.enum("ClixmlStream", "ERROR")), ("error record", error), ("progress record", lambda w, i: progress(w, Activity=text(w, i))), ("user record", lambda w, i: w.new("Record", Name=text(w, i)))]

    def write(w, sh, s, v, i):
        if s == "progress":
            w.call(sh, "write_progress", Const(i + 40), v)
        else:
            w.call(sh, f"write_{s}", v)

    def expected(w, s, v, i):
        """The normalized element of a written value."""
        if s == "progress":
            o = w.new("PSObject")
            add = prog.func("add_note_property")
            w.it.call(add, [o, Const("SourceId"), w.new("PSInt64", Const(i + 40))], {}, None)
            w.it.call(add, [o, Const("Record"), v], {}, None)
            v = o
        d = Doc(snap(w.it, serialize(w, v)))
        return d.norm(d.root)

    def const(w, t):
        t = w.it.prim(t)
        if not isinstance(t, Const) or not isinstance(t.v, str):
            raise Unsupported("collected text " + show(t))
        return t.v

    ROOT = re.compile(r"<Objs\b[^>]*?(/>|>)")

    def documents(t):
        """The documents of a text, in order; None when there is something else."""
        out = []
        t = t.strip("\r\n")
        while t:
            m = ROOT.match(t)
            if not m:
                return None
            if m.group(1) == "/>":
                end = m.end()
            else:
                end = t.find("</Objs>") + len("</Objs>")
                if end < len("</Objs>"):
                    return None
            out.append(t[:end])
            t = t[end:].lstrip("\r\n")
        return out

    def strip_ns(x):
        return X(x.tag.rpartition("}")[2], x.attrib, x.text, [strip_ns(k) for k in x.kids])

    def elements(w, whole, out):
        if not whole:
            return []
        n = whole.startswith(MARK)
        out.append(("marker", "start", None if n else f"the text starts with {whole[:20]!r}"))
        if not n:
            return None
        rest = whole[len(MARK):]
        out.append(("marker", "line", None if rest[:1] in ("\n", "\r") else "the marker is not a line of its own"))
        plain = rest.replace(NASTY.replace("<", "&lt;").replace(">", "&gt;"), "")
        out.append(("marker", "once", None if MARK not in plain.replace("#&lt; CLIXML", "") else "the marker is repeated"))
        ds = documents(rest)
        if ds is None:
            out.append(("written", "documents", "the text is not a sequence of documents: " + rest[:80]))
            return None
        got = []
        for d in ds:
            e = load(w, d)
            if e is None:
                out.append(("written", "documents", "a document is not well formed"))
                return None
            x = snap(w.it, e)
            ok = x.tag == "{http://schemas.microsoft.com/powershell/2004/04}Objs" and isinstance(x.attrib.get("Version"), Const) and x.attrib["Version"].v == "1.1.0.1"
            out.append(("written", "root", None if ok else f"the root is {x.tag} {x.attrib}"))
            x = strip_ns(x)
            doc = Doc(x)
            for k in x.kids:
                s = k.attrib.pop("S", None)
                got.append((s.v if isinstance(s, Const) else None, doc.norm(k)))
        return got

    def sequence(label, ops):
        """ops: None collects, (stream, builder) writes."""
        def body(w):
            it = w.it
            sh = w.new("ClixmlShell")
            vs, i = [], 0
            made = {}
            for op in ops:
                if op is not None:
                    s, b = op
                    if isinstance(b, str):
                        v = made[b]
                    elif isinstance(b, tuple):
                        v = made[b[0]] = b[1](w, i)
                    else:
                        v = b(w, i)
                    vs.append((s, v, i))
                    i += 1
            exp = [(s, expected(w, s, v, i)) for s, v, i in vs]
            w.built = True
            out, whole, pend, n = [], "", 0, 0
            for op in list(ops) + [None]:
                if op is None:
                    t = const(w, w.call(sh, "data_to_send"))
                    out.append(("written", "nothing new", None if pend or not t else f"{t[:60]!r} although nothing was written since the last collection"))
                    whole += t
                    pend = 0
                else:
                    write(w, sh, *vs[n])
                    n += 1
                    pend += 1
            got = elements(w, whole, out)
            if got is None:
                return out
            out.append(("written", "number", None if len(got) == len(exp) else f"{len(got)} objects are written, {len(exp)} were given"))
            for j, ((s, e), (gs, g)) in enumerate(zip(exp, got)):
                out.append(("written", f"stream of {j}", None if gs == s else f"object {j} is in stream {gs}, it was written to {s}"))
                out.append(("written", f"object {j}", None if same(it, e, g) else f"is {str(g)[:200]}, given was {str(e)[:200]}"))
            return out

        settle("operation", "shell " + label, body)

    # every interleaving of writes to streams and collections
    short = 2 if chk.tier == "quick" else 3
    ops = [None] + STREAMS
    for n in range(0, short + 1):
        for c in itertools.product(ops, repeat=n):
            if c and c[-1] is None and n > 1 and c[-2] is None:
                continue
            sequence(" ".join("collect" if o is None else o for o in c) or "nothing", [None if o is None else (o, KINDS[o][0][1]) for o in c])
    two = [None, "output", "error"]
    for n in range(short + 1, 5 if chk.tier == "quick" else 8):
        for c in itertools.product(two, repeat=n):
            sequence(" ".join("collect" if o is None else o for o in c), [None if o is None else (o, KINDS[o][0][1]) for o in c])
    for s in STREAMS:
        for k, b in KINDS[s]:
            sequence(f"{s} {k}", [(s, b)])
            sequence(f"{s} {k} among others", [("output", text), (s, b), None, (s, b), ("debug", text)])
    for k, b in KINDS["output"]:
        sequence(f"the same {k} twice", [("output", ("x", b)), ("output", "x")])
        sequence(f"the same {k} again after a collection", [("output", ("x", b)), None, ("output", "x"), ("warning", text)])
    for n in (20, 300) if chk.tier == "quick" else (20, 300, 1100):
        sequence(f"{n} objects", [("output", text)] * n)
        sequence(f"{n} objects, then one more", [("verbose", text)] * n + [None, ("output", text), None])
    sequence("twenty collections", [x for i in range(20) for x in ((STREAMS[i % 7], KINDS[STREAMS[i % 7]][0][1]), None)])

    # two shells have nothing to do with each other
    def two_shells(w):
        a, b = w.new("ClixmlShell"), w.new("ClixmlShell")
        w.built = True
        w.call(a, "write_output", text(w, 1))
        t = const(w, w.call(a, "data_to_send"))
        w.call(b, "write_output", text(w, 2))
        u, v = const(w, w.call(b, "data_to_send")), const(w, w.call(a, "data_to_send"))
        out = [("marker", "second shell", None if t.startswith(MARK) and u.startswith(MARK) else "has no marker"), ("written", "second shell", None if not v else "writes into the first")]
        return out

    settle("operation", "two shells", two_shells)

    # ------------------------------------------------------------------ reading
    def expect_read(w, s, v, how):
        """(class, getter path, expected shape) of what is read for a written value."""
        it = w.it
        if s == "error" and how != "record":
            return ("ErrorRecord", ("Exception", "Message"), v)
        if s in ("debug", "verbose", "warning"):
            return (s.capitalize() + "Record", ("Message",), v)
        if s == "information" and how != "record":
            return ("InformationRecord", ("MessageData",), v)
        return (v.cls.name if isinstance(v, InstV) else None, (), v)

    def bare(s):
        """Without type names and the distinction of adapted and extended properties."""
        if isinstance(s, tuple):
            if len(s) == 4 and isinstance(s[0], str) and all(isinstance(x, tuple) for x in s[1:]):
                if s[1][:1] == ("attrs",) and not any(isinstance(x, tuple) and str(x[0]).startswith("$") for x in s[1][1:]):
                    return ("object", ("attrs",), tuple(sorted(((p[1], bare(p[2])) for p in s[2] if p[2] != ("None",)), key=repr)))
                return (s[0], bare(s[1]), bare(s[2]), s[3])
            return tuple(bare(x) for x in s)
        return s

    def reading(label, items, text_of, rule="read"):
        """items: (stream it has to be read from, kind, builder); text_of(w, values) -> texts given to the reader."""
        def body(w):
            it = w.it
            vs = [b(w, i) for i, (s, k, b) in enumerate(items)]
            ts = text_of(w, vs)
            w.built = True
            arg = Const(ts) if isinstance(ts, str) else ListV([Const(t) for t in ts])
            o = w.call(prog.cls("ClixmlOutput"), "from_clixml", arg)
            out = []
            per = {s: [] for s in STREAMS}
            for (s, k, b), v in zip(items, vs):
                per[s].append((k, v))
            for s in STREAMS:
                l = it.prim(w.get(o, s))
                if not isinstance(l, ListV) or l.base is not None:
                    raise Unsupported(f"list of {s}: {show(l)}")
                out.append((rule, f"number in {s}", None if len(l.items) == len(per[s]) else f"{len(l.items)} objects, {len(per[s])} were written"))
                for j, (g, (k, v)) in enumerate(zip(l.items, per[s])):
                    cls, path, e = expect_read(w, s, v, k)
                    if cls is not None:
                        c = g.cls.name if isinstance(g, InstV) else type(g).__name__
                        out.append((rule, f"type of {s} {j}", None if c == cls else f"is a {c}, not a {cls}"))
                        if c != cls:
                            continue
                    for a in path:
                        g = w.get(g, a)
                    es, gs = bare(shape(it, e)), bare(shape(it, g))
                    out.append((rule, f"{s} {j}", None if same(it, es, gs) or text_same(it, es, gs) else f"is {str(gs)[:250]}, written was {str(es)[:250]}"))
            return out

        settle("operation", "reader " + label, body)

    def text_same(it, a, b):
        if len(a) < 2 or len(b) < 2 or a[0] != "PSString" or b[0] != "PSString":
            return False
        ka, kb = a[1], b[1]
        if kb[0] == "value":
            kb = kb[1]
        for _ in range(4):
            ka, kb = num_base(key_base(ka)), num_base(key_base(kb))
        return ka == kb

    def shell_texts(items, collect):
        def f(w, vs):
            sh = w.new("ClixmlShell")
            ts = []
            for i, ((s, k, b), v) in enumerate(zip(items, vs)):
                write(w, sh, s, v, i)
                if collect(i):
                    ts.append(const(w, w.call(sh, "data_to_send")))
            ts.append(const(w, w.call(sh, "data_to_send")))
            return ts
        return f

    for s in STREAMS:
        for k, b in KINDS[s]:
            if s == "output" and k == "stream":  # enums are read as what C12 says
                continue
            items = [(s, k, b)]
            reading(f"{s} {k}", items, lambda w, vs, f=shell_texts(items, lambda i: False): f(w, vs)[0])
            items = [("output", "text", text), (s, k, b), ("error", "text", text), (s, k, b)]
            for n, c in (("one document", lambda i: False), ("documents", lambda i: True), ("two documents", lambda i: i == 1)):
                reading(f"{s} {k} among others, {n}", items, shell_texts(items, c))
    items = [(s, k, b) for s in STREAMS for k, b in KINDS[s][-1:] if s != "output"] + [("output", "text", text), ("warning", "text", text)]
    reading("all streams", items, shell_texts(items, lambda i: False))
    reading("all streams backwards", items[::-1], shell_texts(items[::-1], lambda i: i % 3 == 0))

    def doc(w, v, **att):
        e = snap(w.it, serialize(w, v))
        e.attrib.update({k: Const(x) for k, x in att.items()})
        return ET.tostring(_plain_x(w, e), encoding="unicode")

    def _plain_x(w, x):
        from ..xmltext import _plain
        return _plain(w.it, w, x)

    HEAD = '<Objs Version="1.1.0.1" xmlns="http://schemas.microsoft.com/powershell/2004/04">'
    for s in STREAMS:
        if s == "progress":
            continue
        for name in (s, s.capitalize(), s.upper()):
            reading(f"stream name {name}", [(s, "text", text)], lambda w, vs, name=name: f"{MARK}\n{HEAD}{doc(w, vs[0], S=name)}</Objs>")
    for name in ("", "unknown", "output1", "erro", "errorr", "stdout", " error"):
        for k, b in (("text", text), ("object", bag), ("error record", error)):
            reading(f"{k} with stream name {name!r}", [("output", k, b)], lambda w, vs, name=name: f"{MARK}\n{HEAD}{doc(w, vs[0], S=name)}</Objs>")
    for k, b in (("text", text), ("object", bag), ("None", lambda w, i: NONE)):
        reading(f"{k} without a stream name", [("output", k, b)], lambda w, vs: f"{MARK}\n{HEAD}{doc(w, vs[0])}</Objs>")
    for n, head, tail in (("marker and line feed", MARK + "\n", ""), ("marker and carriage return", MARK + "\r\n", ""), ("marker and two lines", MARK + "\r\n\r\n", ""), ("no marker", "", ""), ("a blank line", "\n", ""), ("line feed at the end", MARK + "\n", "\r\n")):
        for m, root in (("namespace", HEAD), ("no namespace", "<Objs>"), ("single quotes", HEAD.replace('"', "'"))):
            reading(f"{n}, {m}", [("warning", "text", text), ("output", "nasty", lambda w, i: Const(NASTY))],
                    lambda w, vs, head=head, tail=tail, root=root: f"{head}{root}{doc(w, vs[0], S='warning')}{doc(w, vs[1])}</Objs>{tail}")
    for n, t in (("empty root", f"{MARK}\n{HEAD}</Objs>"), ("closed root", f"{MARK}\n{HEAD[:-1]} />"), ("closed root without space", f"{MARK}\n{HEAD[:-1]}/>"), ("empty text", ""), ("closed plain root", "<Objs/>")):
        reading(n, [], lambda w, vs, t=t: t)
        reading(n + " in a list", [("output", "text", text)], lambda w, vs, t=t: [t, f"{MARK}\n{HEAD}{doc(w, vs[0])}</Objs>", t])
    reading("an empty list", [], lambda w, vs: [])

    # a second reading does not see the first
    def twice(w):
        v = text(w, 1)
        t = f"{MARK}\n{HEAD}{doc(w, v)}{doc(w, v, S='error')}</Objs>"
        w.built = True
        a = w.call(prog.cls("ClixmlOutput"), "from_clixml", Const(t))
        b = w.call(prog.cls("ClixmlOutput"), "from_clixml", Const(t))
        out = []
        for s in STREAMS:
            n = [len(w.it.prim(w.get(o, s)).items) for o in (a, b)]
            e = 1 if s in ("output", "error") else 0
            out.append(("read", f"{s} twice", None if n == [e, e] else f"{n} objects"))
        return out

    settle("operation", "reader twice", twice)

    # objects of deserialize_clixml, with and without streams, in order
    for preserve in (False, True):
        for n in range(0, 4):
            for c in itertools.product(STREAMS if n < 2 else ["output", "error", "debug"], repeat=n):
                def body(w, c=c, preserve=preserve):
                    it = w.it
                    vs = [text(w, i) for i in range(len(c))]
                    t = f"{HEAD}" + "".join(doc(w, v, S=s) for v, s in zip(vs, c)) + "</Objs>"
                    w.built = True
                    r = it.prim(it.call(prog.func("deserialize_clixml"), [Const(t), cipher(w)], {"preserve_streams": TRUE} if preserve else {}, None))
                    if not isinstance(r, ListV) or r.base is not None:
                        raise Unsupported("result " + show(r))
                    out = [("read", "number", None if len(r.items) == len(c) else f"{len(r.items)} objects of {len(c)}")]
                    for j, (g, v, s) in enumerate(zip(r.items, vs, c)):
                        if preserve:
                            if not isinstance(g, TupleV) or len(g.items) != 2:
                                out.append(("read", f"object {j}", f"is {show(g)[:100]}, not a pair"))
                                continue
                            g, gs = g.items
                            out.append(("read", f"stream {j}", None if isinstance(gs, EnumV) and it.prim(gs.value).v == s else f"is {show(gs)}, not {s}"))
                        out.append(("read", f"object {j}", None if same(it, shape(it, v), shape(it, g)) else f"is {show(g)[:200]}"))
                    return out

                settle("operation", f"deserialize_clixml {' '.join(c) or 'nothing'}{' with streams' if preserve else ''}", body)
