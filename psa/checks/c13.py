"""C13: escaping of CLIXML text."""
import codecs
import itertools

from ..rewrite import *
from ..vals import *

META = {
    "level": "other",
    "technique": "abstract interpretation to the chain of substitutions, composition of the chains as streaming transducers compared with the identity",
    "explanation": "Serializing and deserializing a symbolic string gives the chain of regular expression substitutions and transcodings each applies. The "
                   "patterns are parsed and turned into streaming rewriters over sets of code points (all 1,114,112 of them are classified), writing and "
                   "reading are composed, and every reachable state of the composition is explored over representatives of all character classes: an "
                   "output that differs from the input yields the text that is changed, otherwise the round trip is the identity on texts of any length. "
                   "The replacement functions are folded on every code unit they can be applied to. Characters left unescaped are compared with the "
                   "characters XML allows. Every place a text can be written to or read from is shown to apply the same chains. Independent of the "
                   "shape of the code, constant texts over the class representatives are propagated through both directions.",
    "rules": ["round-trip", "letters", "valid-xml", "site-write", "site-read", "constant", "peer"],
}

BAD_XML = frozenset(list(range(0, 9)) + [0xB, 0xC, 0xD] + list(range(0xE, 0x20)) + list(range(0xD800, 0xE000)) + [0xFFFE, 0xFFFF])


def chain(t):
    """The operations applied to the base text, innermost first."""
    ops = []
    while isinstance(t, Sym):
        if t.op == "resub":
            ops.append(("sub", t.args[0], t.args[1], t.args[3]))
            t = t.args[2]
        elif t.op == "mcall" and t.args[0] in ("encode", "decode"):
            ops.append((t.args[0], tuple(t.args[2:])))
            t = t.args[1]
        elif t.op in ("encode", "decode"):
            ops.append((t.op, tuple(t.args[1:])))
            t = t.args[0]
        else:
            break
    return ops[::-1], t


def signature(ops):
    def one(o):
        if o[0] == "sub":
            r = o[2]
            return ("sub", o[1].pattern, o[1].flags, r.v if isinstance(r, Const) else getattr(r, "qual", None) or key(r), o[3])
        return (o[0], tuple(key(a) if isinstance(a, V) else a for a in o[1]))
    return tuple(one(o) for o in ops)


def codec_args(args):
    enc, err = "utf-8", "strict"
    pos = []
    for a in args:
        if isinstance(a, Sym) and a.op == "kw":
            v = a.args[1].v if isinstance(a.args[1], Const) else None
            if a.args[0] == "errors":
                err = v
            elif a.args[0] == "encoding":
                enc = v
        else:
            pos.append(a.v if isinstance(a, Const) else a)
    if pos:
        enc = pos[0]
    if len(pos) > 1:
        err = pos[1]
    return enc, err


def stages_of(it, ops):
    out, i = [], 0
    while i < len(ops):
        o = ops[i]
        if o[0] == "sub":
            rx, repl, count = o[1:]
            if count:
                raise NotFixed("count")

            def rw(text, rx=rx, repl=repl, cache={}):
                k = (rx.pattern, id(repl), text)
                if k not in cache:
                    m = rx.match(text)
                    if isinstance(repl, Const):
                        cache[k] = m.expand(repl.v)
                    else:
                        v = it.prim(it.call(repl, [Const(m)], {}, None))
                        if not isinstance(v, Const) or not isinstance(v.v, str):
                            raise NotFixed("replacement")
                        cache[k] = v.v
                return cache[k]

            rw.__defaults__[-1].clear()
            out.append(Stage(rx, rw))
            i += 1
        elif o[0] == "encode" and i + 1 < len(ops) and ops[i + 1][0] == "decode":
            a, b = codec_args(o[1]), codec_args(ops[i + 1][1])
            try:
                same_ = codecs.lookup(a[0]) == codecs.lookup(b[0]) and codecs.lookup(a[0]).name in (
                    "utf-16-be", "utf-16-le", "utf-8", "utf-32-be", "utf-32-le")
            except (LookupError, TypeError):
                same_ = False
            if not same_ or a[1] != "surrogatepass" or b[1] not in ("surrogatepass",):
                raise NotFixed(f"transcoding {a} {b}")
            out.append(Identity())
            i += 2
        else:
            raise NotFixed(o[0])
    return out


def check(chk):
    prog = chk.prog
    prog.extra("user_types")
    cfg = Config(hooks=CRYPT, recursion=8)
    got = {}

    def chains():
        def wbody(w):
            v = S("s", "str")
            return serialize(w, v)

        for p in chk.seen(run(prog, wbody, cfg)):
            if p.kind == "return":
                x = snap(p.interp, p.value)
                if isinstance(x.text, Sym):
                    ops, base = chain(x.text)
                    if key(base) == key(S("s", "str")):
                        got["write"] = (p.interp, ops)

        for p in chk.seen(run(prog, lambda w: TupleV([deserialize(w, build(w, "S", S("s", "str")))]), cfg)):
            if p.kind == "return":
                t = p.interp.prim(p.value.items[0])
                ops, base = chain(t)
                if isinstance(base, Sym) and key(base) == key(S("s", "str")):
                    got["read"] = (p.interp, ops)

    chk.attempt("round-trip", "chains", chains)

    def compose():
        if "write" not in got or "read" not in got:
            chk.undec("round-trip", "chains", "writing or reading a text is no chain of substitutions")
            return
        try:
            w = stages_of(got["write"][0], got["write"][1])
            r = stages_of(got["read"][0], got["read"][1])
            both = w + r
            reps, sets = classes(both)
            # the characters a replacement function is applied to alone are folded one by one
            alphabet, groups = [], {}
            single = [s for s in w if isinstance(s, Stage) and s.k == 1]
            for sig, cs in reps.items():
                hit = [s for s in single if cs[0] in s.sets[0]]
                if not hit:
                    alphabet.append(chr(cs[0]))
                    continue
                for c in cs:
                    if c > 0xFFFF and c not in (0x10000, 0x103FF, 0x10400, 0x1F4A9, 0xFFFFF, 0x10FFFF) and c % 997:
                        continue
                    out = push_chain(w, tuple("" for _ in w), chr(c))
                    text = out[1] + flush_chain(w, out[0])
                    g = (sig, tuple(tuple(ord(ch) in s for s in sets) for ch in text))
                    groups.setdefault(g, chr(c))
                    st, o = push_chain(both, tuple("" for _ in both), chr(c))
                    back = o + flush_chain(both, st)
                    chk.need(units(back) == units(chr(c)), "letters", f"U+{c:04X}" if units(back) != units(chr(c)) else "escaped characters",
                             f"the character U+{c:04X} is written as {text!r} and read back as {back!r}")
            alphabet += sorted(set(groups.values()))
            cx, n = identity_counterexample(both, alphabet)
            chk.need(cx is None, "round-trip", "every text", f"the text {cx!r} is not read back as it was written")
            chk.ok("round-trip", f"composition over {len(alphabet)} character classes", n)
            # what may appear in the written text
            plain = [cs for sig, cs in reps.items()]
            for cs in plain:
                bad = [c for c in cs if c in BAD_XML]
                for c in (bad[:1] + bad[-1:]):
                    st, o = push_chain(w, tuple("" for _ in w), chr(c))
                    text = o + flush_chain(w, st)
                    worst = [ch for ch in text if ord(ch) in BAD_XML]
                    chk.need(not worst, "valid-xml", f"U+{c:04X}", f"the character U+{c:04X} is written as {text!r}, which XML does not allow (or changes)")
        except NotFixed as e:
            chk.undec("round-trip", "chains", f"not a chain of fixed-length substitutions: {e}")

    chk.attempt("round-trip", "composition", compose)

    constants(chk, prog, cfg)
    places(chk, prog, cfg)
    if "write" in got and "read" in got:
        sites(chk, prog, cfg, signature(got["write"][1]), signature(got["read"][1]))


def constants(chk, prog, cfg):
    """Constant propagation through writing and reading; whatever the shape of the code."""
    special = [0, 1, 8, 9, 10, 11, 12, 13, 14, 0x1F, 0x20, 0x26, 0x3C, 0x5F, 0x7E, 0x7F, 0x80, 0x85, 0x9F, 0xA0, 0xFF, 0x17F, 0x212A, 0x2028, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF,
               0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F4A9, 0x10FFFF]
    texts = [chr(c) for c in special] + [chr(c) for c in range(0, 0x100)]
    # neighbouring escaped characters whose UTF-16 bytes, digits or text could be taken for something else
    texts += ["_x0041_", "_X0041_", "_x005F_", "_x005F_x0041_", "__x0041_", "_x_x0041_", "_x0041", "x0041_", "_x004_", "_x00_x0041_", "_x0041__x0042_", "_xabcd_", "_xABCD_", "_x00g0_",
              "a_xb", "\u5f00\u7800\u3000", "\u005f\u0078", "\u5f78", "\u0000_x0000_", "_\u0078", "_x\ud83c_", "_xD83C__xDF00_", "\ud83c_xDF00_", "_x005f_",
              "_x", "_X", "_", "__", "_x__x_", "_x1_x12_x123_x1234_", "\ud83c\n", "\U0001F4A9_x0041_", "a\U0001F4A9b", "\udf00\ud83c", "\r\n", " a ", "]]>", "<&>\"'", "\u00e9", "e\u0301", "\u212b"]
    for t in itertools.product("_xX4a\n\ud800z", repeat=3):
        texts.append("".join(t))
    for t in itertools.product(("_", "x", "0041", "_x", "\x01"), repeat=4):
        texts.append("".join(t))
    # substitutions that stop after so many occurrences, matches at either end of a long text
    texts += ["\x01" * 3000, "_x0041_" * 3000, "\x01a" * 1500 + "_x", "a" * 3000 + "\n", "\U0001F4A9" * 2000, "\ud83c " * 2000]
    texts = list(dict.fromkeys(texts))
    size = 60
    for lo in range(0, len(texts), size):
        part = texts[lo:lo + size]

        def decide(part=part):
            def body(w):
                out = []
                for t in part:
                    e = serialize(w, Const(t))
                    x = snap(w.it, e)
                    back = w.it.prim(deserialize(w, e))
                    out.append((t, x.text, back))
                return out

            ps = chk.seen(run(prog, body, cfg))
            for p in ps:
                if p.kind != "return":
                    if len(ps) == 1:
                        chk.bad("constant", f"one of {part[0]!r} ... {part[-1]!r}", f"{p.exc_name()} while it is written or read", path=p)
                    continue
                for t, w, b in p.value:
                    if w is not None and not isinstance(w, Const) or not isinstance(b, Const):
                        chk.undec("constant", repr(t), "not a constant")
                        continue
                    text = "" if w is None else w.v
                    chk.need(isinstance(b.v, str) and units(b.v) == units(t), "constant", repr(t)[:60], f"the text {t[:60]!r} is written as {text[:60]!r} and read back as {str(b.v)[:60]!r}", path=p)
                    worst = [c for c in text if ord(c) in BAD_XML]
                    chk.need(not worst, "valid-xml", repr(t)[:60], f"the text {t[:60]!r} is written as {text[:60]!r}, which XML does not allow (or changes)", path=p)

        chk.attempt("constant", f"texts {lo}-{lo + size}", decide)

    # what a peer wrote with either case of digits, or a pair of surrogates as two escapes
    peer = []
    for c in (0, 1, 9, 10, 13, 0x5F, 0x7F, 0x9F, 0xA0, 0xABCD, 0xD83D, 0xDCA9, 0xFFFE, 0xFFFF, 0x41):
        for f in ("_x%04x_", "_x%04X_"):
            for pat in ("%s", "a%sb", "_%s_", "x%s", "%s%s"):
                e = f % c
                t = chr(c)
                peer.append((pat.replace("%s", e), pat.replace("%s", t)))
    peer += [("_xD83D__xDCA9_", "\U0001F4A9"), ("_xd83d__xDca9_", "\U0001F4A9"), ("_x004_", "_x004_"), ("_x00411_", "_x00411_"), ("_x0041", "_x0041"), ("x0041_", "x0041_"), ("__x0041__", "_A_"),
             ("_x005F_x0041_", "_x0041_"), ("_x005f_x0041_", "_x0041_"), ("_x00g1_", "_x00g1_"), ("_x0041_x0042_", "Ax0042_"), ("", ""), ("_x", "_x"), ("_x0061_" * 700, "a" * 700)]
    for lo in range(0, len(peer), size):
        part = peer[lo:lo + size]

        def read(part=part):
            def body(w):
                return [(t, want, w.it.prim(deserialize(w, build(w, "S", t)))) for t, want in part]

            ps = chk.seen(run(prog, body, cfg))
            for p in ps:
                if p.kind != "return":
                    if len(ps) == 1:
                        chk.bad("peer", f"one of {part[0][0]!r} ... {part[-1][0]!r}", f"{p.exc_name()} while it is read", path=p)
                    continue
                for t, want, b in p.value:
                    if not isinstance(b, Const):
                        chk.undec("peer", repr(t), "not a constant")
                        continue
                    chk.need(isinstance(b.v, str) and units(b.v) == units(want), "peer", repr(t)[:60], f"the text {t[:60]!r} of a peer is read as {str(b.v)[:60]!r}, it denotes {want[:60]!r}", path=p)

        chk.attempt("peer", f"texts {lo}-{lo + size}", read)


def places(chk, prog, cfg):
    """Names that can only be constants: the attributes of plain objects."""
    names = ["plain", "with space", "a_x0041_b", "_x0041_", "a_Xb", "tab\tbell\x07", "\ud83c", "\U0001F4A9", "\x7f\x9f\uffff", "<&>\"'", "_x005F_x0041_"]

    def written(w, t):
        x = snap(w.it, serialize(w, Const(t)))
        return x.text.v if isinstance(x.text, Const) else x.text

    def attribute(w, t):
        o = w.new("Plain")
        w.it.setattr(o, t, Const(1), None)
        return o

    for t in names:
        def attr(t=t):
            for p in chk.seen(run(prog, lambda w: (written(w, t), [i.attrib.get("N") for i in snap(w.it, serialize(w, attribute(w, t))).walk()],
                                                   w.it.prim(field(w.it, deserialize(w, serialize(w, attribute(w, t))), t))), cfg)):
                what = f"attribute named {t!r} of a plain object"
                if p.kind != "return":
                    chk.bad("site-write", what, f"{p.exc_name()} while it is written or read", path=p)
                    continue
                want, got, back = p.value
                got = [g.v if isinstance(g, Const) else g for g in got]
                chk.need(want in got, "site-write", what, f"the names written are {got}; the text {t!r} is written as {want!r}", path=p)
                chk.need(isinstance(back, Const) and back.v == 1, "site-read", what, f"the property read under that name is {show(back)}", path=p)

        chk.attempt("site-write", f"attribute named {t!r} of a plain object", attr)


def sites(chk, prog, cfg, wsig, rsig):
    s = S("s", "str")
    k = key(s)

    def texts(x, want=None):
        """(place, term) of every text derived from s"""
        for e in x.walk():
            for a, v in list(e.attrib.items()) + [("text", e.text)]:
                if isinstance(v, Sym) and k in subkeys(key(v)):
                    yield f"{e.tag}.{a}", v

    write = [
        ("str", lambda w: s), ("PSString", lambda w: w.new("PSString", s)), ("PSScriptBlock", lambda w: w.new("PSScriptBlock", s)),
        ("PSUri", lambda w: w.new("PSUri", s)), ("PSXml", lambda w: w.new("PSXml", s)), ("user string class", lambda w: w.new("ExtString", s)),
        ("list item", lambda w: ListV([s])), ("PSStack item", lambda w: w.new("PSStack", ListV([s]))), ("queue item", lambda w: queue_of(w, "PSQueue", s)),
        ("dictionary value", lambda w: mkdict((Const("k"), s))), ("dictionary key", lambda w: mkdict((s, Const(1)))),
        ("property value", lambda w: w.new("PSCustomObject", a=s)),
        ("adapted property value", lambda w: w.new("Record", Name=s)),
        ("extended property name", lambda w: named(w, "extended_properties")), ("adapted property name", lambda w: named(w, "adapted_properties")),
        ("progress Activity", lambda w: progress(w, Activity=s)), ("progress StatusDescription", lambda w: progress(w, StatusDescription=s)),
        ("progress CurrentOperation", lambda w: progress(w, CurrentOperation=s)),
        ("ToString", lambda w: tostring(w)),
        ("extended primitive", lambda w: ext(w)),
    ]

    def named(w, group):
        o = w.new("PSCustomObject")
        p = w.new("PSNoteProperty", s, Const(1))
        w.it.list_append(w.it.prim(w.it.getattr(w.it.getattr(o, "PSObject", None), group, None)), p) if hasattr(w.it, "list_append") else w.call(
            w.it.getattr(w.it.getattr(o, "PSObject", None), group, None), "append", p)
        return o

    def tostring(w):
        o = w.new("PSCustomObject", a=Const(1))
        w.it.setattr(w.it.getattr(o, "PSObject", None), "to_string", s, None)
        return o

    def ext(w):
        o = w.new("PSString", s)
        w.it.call(w.prog.func("add_note_property"), [o, Const("p"), Const(1)], {}, None)
        return o

    for name, make in write:
        def decide(name=name, make=make):
            ps = chk.seen(run(prog, lambda w: serialize(w, make(w)), cfg))
            seen = 0
            for p in ps:
                if p.kind != "return":
                    chk.undec("site-write", name, f"{p.exc_name()} at {p.where}")
                    continue
                for place, t in texts(snap(p.interp, p.value)):
                    seen += 1
                    ops, base = chain(t)
                    chk.need(key(base) == k and signature(ops) == wsig, "site-write", name, f"{place} holds {show(t)[:200]}, which is not escaped like every other text", path=p)
            if not seen:
                chk.undec("site-write", name, "the text is not found in what is written")

        chk.attempt("site-write", name, decide)

    read = [
        ("S", lambda w: build(w, "S", s), lambda w, r: r), ("SBK", lambda w: build(w, "SBK", s), lambda w, r: r),
        ("URI", lambda w: build(w, "URI", s), lambda w, r: r), ("XD", lambda w: build(w, "XD", s), lambda w, r: r),
        ("list item", lambda w: build(w, "Obj", None, [build(w, "LST", None, [build(w, "S", s)])]), lambda w, r: w.it.prim(r).items[0]),
        ("dictionary value", lambda w: build(w, "Obj", None, [build(w, "DCT", None, [build(w, "En", None, [build(w, "S", "k", N="Key"), build(w, "S", s, N="Value")])])]),
         lambda w, r: list(w.it.prim(r).entries.values())[0][1]),
        ("dictionary key", lambda w: build(w, "Obj", None, [build(w, "DCT", None, [build(w, "En", None, [build(w, "S", s, N="Key"), build(w, "S", "v", N="Value")])])]),
         lambda w, r: list(w.it.prim(r).entries.values())[0][0]),
        ("property value", lambda w: build(w, "Obj", None, [build(w, "MS", None, [build(w, "S", s, N="p")])]), lambda w, r: field(w.it, r, "p")),
        ("adapted property value", lambda w: build(w, "Obj", None, [build(w, "Props", None, [build(w, "S", s, N="p")])]), lambda w, r: field(w.it, r, "p")),
        ("extended property name", lambda w: build(w, "Obj", None, [build(w, "MS", None, [build(w, "S", "v", N=s)])]), pname),
        ("adapted property name", lambda w: build(w, "Obj", None, [build(w, "Props", None, [build(w, "S", "v", N=s)])]), pname),
        ("ToString", lambda w: build(w, "Obj", None, [build(w, "MS", None, [build(w, "S", "v", N="p")]), build(w, "ToString", s)]),
         lambda w, r: w.it.getattr(w.it.getattr(r, "PSObject", None), "to_string", None)),
        ("ToString as str", lambda w: build(w, "Obj", None, [build(w, "MS", None, [build(w, "S", "v", N="p")]), build(w, "ToString", s)]),
         lambda w, r: w.it.call(ExtV("str"), [r], {}, None)),
    ] + [(f"progress {tag}", (lambda tag: lambda w: progress_elem(w, tag, s))(tag), (lambda a: lambda w, r: w.it.getattr(r, a, None))(attr))
         for tag, attr in (("AV", "Activity"), ("SD", "StatusDescription"), ("S", "CurrentOperation"))]

    for name, make, get in read:
        def decide(name=name, make=make, get=get):
            ps = chk.seen(run(prog, lambda w: TupleV([get(w, deserialize(w, make(w)))]), cfg))
            seen = 0
            for p in ps:
                if p.kind != "return":
                    chk.undec("site-read", name, f"{p.exc_name()} at {p.where}")
                    continue
                t = p.interp.prim(p.value.items[0])
                if isinstance(t, Const) and t.v in ("", None):
                    continue  # the path of an empty text
                seen += 1
                ops, base = chain(t)
                chk.need(key(base) == k and signature(ops) == rsig, "site-read", name, f"it is read as {show(t)[:200]}, which is not unescaped like every other text", path=p)
            if not seen:
                chk.undec("site-read", name, "the text is not found in what is read")

        chk.attempt("site-read", name, decide)


def pname(w, r):
    ps = props(w.it, r)
    return ps[0].attrs["name"]


def subkeys(k):
    out = set()

    def go(x):
        if isinstance(x, tuple):
            out.add(x)
            for y in x:
                go(y)
    go(k)
    return out


def progress_elem(w, tag, s):
    t = {"AV": "a", "AI": "1", "S": "o", "PI": "-1", "PC": "5", "T": "Processing", "SR": "6", "SD": "d"}
    t[tag] = s
    return build(w, "PR", None, [build(w, n, v) for n, v in t.items()])
