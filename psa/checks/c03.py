"""C03: reassembly of incoming fragments for every cut of the received bytes."""
import struct
import uuid

from ..ops import *
from ..wire import *

META = {
    "level": "other",
    "technique": "abstract interpretation of reception with unknown payload cuts and contents (linear position arithmetic)",
    "explanation": "A byte stream of fragments with known headers and unknown contents is received in payloads cut at unknown positions "
                   "(each path carries linear facts placing the cuts); next_event is interpreted until it has nothing more after every "
                   "payload. On every path the returned events, their order, the number of times each is returned and the exact bytes "
                   "handed to the XML parser are compared with the stream; headers with unknown fragment ids, interleaved objects, "
                   "repeated, missing and out of order fragments and failing messages are scenarios of their own.",
    "rules": ["event-once", "contents", "order", "not-early", "sequence-error", "rejected-not-used", "failed-consumed", "buffered"],
}

HEAD = lambda num, rpid=RPID, pid=None, dest=1: struct.pack("<II", dest, num) + rpid.bytes_le + (pid or uuid.UUID(int=0)).bytes_le


class F:
    """A fragment of the stream: oid, fid (int or Sym), flags and its data term"""

    def __init__(self, oid, fid, end, msg, part, start=None):
        self.oid, self.fid, self.end, self.msg, self.part = oid, fid, end, msg, part
        self.start = (fid == 0) if start is None else start


def name_of(side):
    # a message type whose reception does nothing else
    return "UserEvent" if side == "client" else "GetAvailableRunspaces"


def body_sym(msg, part):
    return A(f"body{msg}_{part}", "bytes")


def stream(it, w, frags, side):
    parts = []
    num = w.mtype(name_of(side))
    for f in frags:
        data = body_sym(f.msg, f.part)
        if f.part == 0:
            data = it.cat([Const(HEAD(num, dest=1 if side == "client" else 2)), data], "bytes")
        fid = struct.pack(">Q", f.fid) if isinstance(f.fid, int) else None
        flags = (1 if f.start else 0) | (2 if f.end else 0)
        parts += [Const(struct.pack(">Q", f.oid)), Const(fid) if fid is not None else Sym("struct", ">Q", f.fid, typ="bytes"), Const(bytes([flags])),
                  Sym("struct", ">I", it.m_len(data), typ="bytes"), data]
    return it.cat(parts, "bytes")


class Sc:
    def __init__(self, name, frags, events, cuts=1, error_at=None, fail=(), poll=True):
        """events: list of (message, its parts) in order; error_at: index of a fragment that must be rejected;
        fail: messages whose processing fails"""
        self.name, self.frags, self.events, self.cuts, self.error_at, self.fail, self.poll = name, frags, events, cuts, error_at, fail, poll


def scenarios(tier):
    one = [F(7, 0, True, 0, 0)]
    two = [F(7, 0, False, 0, 0), F(7, 1, True, 0, 1)]
    out = []
    for poll in (True, False):
        p = "" if poll else ", read at the end"
        out += [
            Sc("one fragment" + p, one, [(0, 1)], 1, poll=poll),
            Sc("one fragment, two cuts" + p, one, [(0, 1)], 2, poll=poll),
            Sc("two fragments" + p, two, [(0, 2)], 1, poll=poll),
            Sc("two messages" + p, [F(7, 0, True, 0, 0), F(8, 0, True, 1, 0)], [(0, 1), (1, 1)], 1, poll=poll),
            Sc("two messages, object ids descending" + p, [F(9, 0, True, 0, 0), F(3, 0, True, 1, 0)], [(0, 1), (1, 1)], 1, poll=poll),
            Sc("interleaved" + p, [F(7, 0, False, 0, 0), F(8, 0, True, 1, 0), F(7, 1, True, 0, 1)], [(1, 1), (0, 2)], 1, poll=poll),
            Sc("interleaved both ways" + p, [F(7, 0, False, 0, 0), F(8, 0, False, 1, 0), F(7, 1, True, 0, 1), F(8, 1, True, 1, 1)], [(0, 2), (1, 2)], 0, poll=poll),
            Sc("three messages" + p, [F(7, 0, True, 0, 0), F(8, 0, True, 1, 0), F(9, 0, True, 2, 0)], [(0, 1), (1, 1), (2, 1)], 0, poll=poll),
            Sc("never ended" + p, [F(7, 0, False, 0, 0), F(7, 1, False, 0, 1)], [], 1, poll=poll),
            Sc("first message fails" + p, [F(7, 0, True, 0, 0), F(8, 0, True, 1, 0)], [(1, 1)], 0, fail=(0,), poll=poll),
            Sc("second message fails" + p, [F(7, 0, True, 0, 0), F(8, 0, True, 1, 0), F(9, 0, True, 2, 0)], [(0, 1), (2, 1)], 0, fail=(1,), poll=poll),
        ]
    out += [
        Sc("object id used again after its message was read", [F(7, 0, True, 0, 0), F(7, 0, True, 1, 0)], [(0, 1), (1, 1)], ("at", 1)),
        Sc("three fragments", [F(7, 0, False, 0, 0), F(7, 1, False, 0, 1), F(7, 2, True, 0, 2)], [(0, 3)], 1),
        Sc("starts with the second fragment", [F(7, 1, True, 0, 0)], [], 0, error_at=0),
        Sc("fragment repeated", [F(7, 0, False, 0, 0), F(7, 0, False, 0, 1), F(7, 1, True, 0, 1)], [(0, 2)], 0, error_at=1),
        Sc("fragment left out", [F(7, 0, False, 0, 0), F(7, 2, True, 1, 1), F(7, 1, True, 0, 1)], [(0, 2)], 0, error_at=1),
        Sc("second fragment repeated", [F(7, 0, False, 0, 0), F(7, 1, False, 0, 1), F(7, 1, True, 1, 1), F(7, 2, True, 0, 2)], [(0, 3)], 0, error_at=2),
        Sc("error in one object, another goes on", [F(7, 1, False, 0, 1), F(8, 0, True, 1, 0)], [(1, 1)], 0, error_at=0),
    ]
    if tier == "thorough":
        out += [
            Sc("two fragments, two cuts", two, [(0, 2)], 2),
            Sc("two messages, two cuts", [F(7, 0, True, 0, 0), F(8, 0, True, 1, 0)], [(0, 1), (1, 1)], 2),
            Sc("interleaved, two cuts", [F(7, 0, False, 0, 0), F(8, 0, True, 1, 0), F(7, 1, True, 0, 1)], [(1, 1), (0, 2)], 2),
            Sc("three fragments, three cuts", [F(7, 0, False, 0, 0), F(7, 1, False, 0, 1), F(7, 2, True, 0, 2)], [(0, 3)], 3),
            Sc("three messages, one cut", [F(7, 0, True, 0, 0), F(8, 0, True, 1, 0), F(9, 0, True, 2, 0)], [(0, 1), (1, 1), (2, 1)], 1),
            Sc("interleaved both ways, one cut", [F(7, 0, False, 0, 0), F(8, 0, False, 1, 0), F(7, 1, True, 0, 1), F(8, 1, True, 1, 1)], [(0, 2), (1, 2)], 1),
        ]
    return out


def next_event(w, pool, fail):
    """('event', contents) | ('none',) | ('error', exception name) | ('failed', message contents)"""
    n = len(w.parsed)
    try:
        e = w.call(pool, "next_event")
    except PyRaise as x:
        if len(w.parsed) > n:
            return ("failed", w.parsed[-1])
        return ("error", x)
    if isinstance(e, Const) and e.v is None:
        return ("none",)
    if len(w.parsed) == n:
        return ("unparsed", e)
    return ("event", w.parsed[-1], e)


def scenario(chk, sc, side):
    def deser(w, it, data):
        w.parsed.append(data)
        return None

    def h_fromstring(it, args, kw, node):
        w = it.world
        d = it.prim(args[0])
        w.parsed.append(d)
        for m in sc.fail:
            if key(d) == key(body_sym(m, 0)):
                raise PyRaise(Sym("exc", "ParseError"), ExtV("Exception"), node)
        return Sym("element", it.term(d))

    def body(w):
        it = w.it
        pool = w.client() if side == "client" else w.server()
        w.set_state(pool, "Opened")
        w.parsed = []
        w.log = []
        for f in sc.frags:
            b = body_sym(f.msg, f.part)
            it.record_fact(Sym("lt0", it.m_len(b), typ="bool"), False)
        s = stream(it, w, sc.frags, side)
        total = it.m_len(s)
        cuts = []
        if isinstance(sc.cuts, tuple):
            cuts = [it.m_len(stream(it, w, sc.frags[:sc.cuts[1]], side))]
        else:
            prev = Const(0)
            for i in range(sc.cuts):
                n = A(f"cut{i}", "int")
                it.record_fact(it.less(n, prev), False)
                if key(prev) != key(Const(0)):
                    it.record_fact(it.less(n, Const(0)), False)
                it.record_fact(it.less(total, n), False)
                # a cut may fall anywhere; where it falls is decided by the code's own comparisons
                cuts.append(n)
                prev = n
        pos = [None] + cuts + [None]
        w.cuts = cuts
        for i in range(len(pos) - 1):
            lo, hi = pos[i], pos[i + 1]
            piece = it.get_item(s, Sym("sliceobj", lo if lo is not None else NONE, hi if hi is not None else NONE, NONE), None)
            w.receive_bytes(pool, piece)
            if sc.poll or hi is None:
                for _ in range(len(sc.frags) + 3):
                    r = next_event(w, pool, sc.fail)
                    w.log.append((hi, r))
                    if r[0] == "none":
                        break
        return NONE

    def assume(it, s):
        if s.op == "mcall" and s.args[0] == "startswith":
            return False
        return None

    cfg = config(assume=assume, unroll=12, max_paths=3000, seconds=25, ext_hooks={"xml.etree.ElementTree.fromstring": h_fromstring})
    ps = chk.seen(run(chk.prog, body, cfg))
    if not ps:
        raise Unsupported("no path")
    for p in ps:
        what = f"{side}: {sc.name}"
        chk.attempt("contents", what + ": " + p.describe_facts()[-150:], lambda: judge(chk, sc, side, p, what))


def judge(chk, sc, side, p, what):
    if any(d == "loop bound reached" for d, _ in p.facts):
        raise Unsupported("loop bound")
    if p.kind == "raise":
        if sc.error_at is None:
            chk.bad("sequence-error", what, f"raises {p.exc_name()}", path=p)
        return
    w, it = p.world, p.interp
    want = list(sc.events)
    got = []
    errors = 0
    failed = []
    for hi, r in w.log:
        if r[0] == "error":
            errors += 1
            chk.need(is_a(chk.prog, r[1].cls, "PSRPCoreError"), "sequence-error", what, f"raises {getattr(r[1].cls, 'name', r[1].cls)} instead of a PSRP error", path=p)
        elif r[0] == "event":
            got.append((hi, r[1], r[2]))
        elif r[0] == "failed":
            failed.append(r[1])
        elif r[0] == "unparsed":
            raise Unsupported("event without content")
    if sc.error_at is None:
        if not chk.need(errors == 0, "sequence-error", what, "a fragment in sequence is rejected", path=p):
            return
    elif not chk.need(errors == 1, "sequence-error", what, f"fragment {sc.error_at} of the stream is out of sequence, {errors} errors are raised", path=p):
        return
    contents = lambda m, k: it.cat([body_sym(m, i) for i in range(k)], "bytes")
    exp = [contents(m, k) for m, k in want]
    gk = [key(it.cat([g[1]], "bytes")) for g in got]
    ek = [key(e) for e in exp]
    if gk != ek:
        show_g = [show(g[1]) for g in got]
        rule = "event-once" if len(gk) != len(ek) else "order" if sorted(map(repr, gk)) == sorted(map(repr, ek)) else "contents"
        if sc.error_at is not None:
            rule = "rejected-not-used"
        # a difference that is only an unresolved position is not decided
        if any(g[1] is not None and unresolved(g[1]) for g in got):
            raise Unsupported(f"contents {show_g}")
        chk.bad(rule, what, f"the events carry {show_g}; the stream carries {[show(e) for e in exp]}", path=p)
        return
    chk.ok("contents", what)
    if sc.fail:
        fk = [key(x) for x in failed]
        chk.need(fk == [key(body_sym(m, 0)) for m in sc.fail], "failed-consumed", what, f"messages processed with a failure: {[show(f) for f in failed]}", path=p)
    # no event before its last byte arrived
    for (hi, c, e), (m, k) in zip(got, want):
        if hi is not None:
            idx = max(i for i, f in enumerate(sc.frags) if f.msg == m)
            end = it.m_len(stream(it, w, sc.frags[:idx + 1], side))
            chk.need(it.known_truth(it.less(hi, end)) is False, "not-early", what, f"message {m} is returned although only {show(hi)} of its {show(end)} bytes may have arrived", path=p)
        rp = it.prim(w.get(e, "runspace_pool_id"))
        chk.need(isinstance(rp, Const) and rp.v == RPID, "contents", what + " (pool id)", f"event carries pool id {show(rp)}", path=p)
    # and, when asked after a payload, as soon as it arrived
    for hi in [c for c in w.cuts]:
        if not sc.poll:
            break
        for (m, k) in want:
            idx = max(i for i, f in enumerate(sc.frags) if f.msg == m)
            end = it.m_len(stream(it, w, sc.frags[:idx + 1], side))
            if it.known_truth(it.less(hi, end)) is False:
                n = [i for i, g in enumerate(got) if g[0] is not None and key(g[1]) == key(contents(m, k))]
                chk.need(bool(n), "buffered", what, f"message {m} arrived completely with the payload up to {show(hi)} but is returned later", path=p)


def unresolved(t):
    if isinstance(t, Sym):
        return t.op == "slice" or any(unresolved(a) for a in t.args if isinstance(a, V))
    return False


def unknown_id(chk, side):
    """A fragment with an unknown id is accepted exactly when it is the next one."""
    for have in (0, 1, 2):
        def body(w, have=have):
            it = w.it
            pool = w.client() if side == "client" else w.server()
            w.set_state(pool, "Opened")
            w.parsed = []
            fr = [F(7, i, False, 0, i) for i in range(have)]
            fid = A("fid", "int")
            it.record_fact(it.less(fid, Const(0)), False)
            fr.append(F(7, fid, True, 0, have, start=have == 0))
            w.fid = fid
            for f in fr:
                it.record_fact(Sym("lt0", it.m_len(body_sym(f.msg, f.part)), typ="bool"), False)
            w.receive_bytes(pool, stream(it, w, fr, side))
            w.r = next_event(w, pool, ())
            return NONE

        def h(it, args, kw, node):
            it.world.parsed.append(it.prim(args[0]))
            return Sym("element", it.term(it.prim(args[0])))

        def go(have=have):
            ps = chk.seen(run(chk.prog, body, config(assume=lambda it, s: False if s.op == "mcall" and s.args[0] == "startswith" else None, unroll=12,
                                                     ext_hooks={"xml.etree.ElementTree.fromstring": h})))
            for p in ps:
                w, it = p.world, p.interp
                what = f"{side}: unknown fragment id after {have} fragments"
                if p.kind == "raise":
                    chk.bad("sequence-error", what, f"raises {p.exc_name()}", path=p)
                    continue
                eq = it.known_truth(it.eq(w.fid, Const(have)))
                if w.r[0] in ("event", "unparsed"):
                    chk.need(eq is True, "sequence-error", what, "accepted although its id may not be the next one", path=p)
                elif w.r[0] == "error":
                    chk.need(eq is False, "sequence-error", what, "rejected although its id may be the next one", path=p)
                else:
                    chk.bad("sequence-error", what, f"neither an event nor an error: {w.r[0]}", path=p)
        chk.attempt("sequence-error", f"{side}: unknown fragment id after {have} fragments", go)


def check(chk):
    for sc in scenarios("thorough"):
        for side in ("client", "server"):
            chk.attempt("contents", f"{side}: {sc.name}", lambda: scenario(chk, sc, side))
    for side in ("client", "server"):
        unknown_id(chk, side)
