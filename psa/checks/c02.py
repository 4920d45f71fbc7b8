"""C02: fragmentation of outgoing messages, decided on unknown message contents and unknown read sizes."""
import struct

from ..ops import *
from ..wire import *

META = {
    "level": "other",
    "technique": "abstract interpretation with linear length arithmetic over unknown message contents and read sizes",
    "explanation": "Messages of unknown content are queued through the public operations, data_to_send is interpreted with unknown amounts "
                   "(every path, each with linear facts between amounts and lengths) and then drained. Every payload is cut into "
                   "fragments symbolically; per path the pieces of each message must tile it exactly, ids, flags, lengths, order, "
                   "target and stream must be right and the payload length is compared with the amount as a linear form.",
    "rules": ["tiling", "fragment-ids", "end-flag", "order", "one-target", "size-limit", "refuse-small", "object-ids", "queue-empties"],
}


class Bad(Exception):
    pass


class Frag:
    pass


def relen(it, t):
    """A length term with the lengths of slices resolved by the facts of the path."""
    p = lin_parts(t)
    if p is None:
        return t
    out = Const(p[0])
    for tm, c in p[1].values():
        if isinstance(tm, Sym) and tm.op == "len":
            tm = it.m_len(tm.args[0])
        out = lin_add(out, lin_mul(Const(c), tm))
    return out


def parse(it, data):
    """The fragments of a payload."""
    cs = cells(data)
    out = []
    i = 0
    while i < len(cs):
        head = cs[i:i + 21]
        if len(head) < 21 or any(c[0] == "d" for c in head):
            raise Bad(f"no complete fragment header at cell {i}: {show_cells(head)}")
        f = Frag()
        f.oid, f.fid = number(head[0:8]), number(head[8:16])
        if head[16][0] != "c":
            raise Unsupported("flag byte " + show_cells(head[16:17]))
        f.flags = head[16][1]
        ln = relen(it, number(head[17:21]))
        i += 21
        tot = Const(0)
        f.cells = []
        while key(tot) != key(ln):
            if i >= len(cs):
                raise Bad(f"a fragment announces {show(ln)} bytes but carries {show(tot)}")
            c = cs[i]
            f.cells.append(c)
            tot = lin_add(tot, Const(1) if c[0] != "d" else it.m_len(c.term))
            i += 1
        # an empty part that follows belongs to nothing
        while i < len(cs) and cs[i][0] == "d" and key(it.m_len(cs[i].term)) == key(Const(0)):
            i += 1
        f.length = ln
        out.append(f)
    return out


def number(cs):
    """The big endian number a group of cells holds."""
    if all(c[0] == "c" for c in cs):
        return Const(int.from_bytes(bytes(c[1] for c in cs), "big"))
    if all(c[0] == "f" for c in cs) and len({c[1] for c in cs}) == 1 and [c[2] for c in cs] == list(reversed(range(len(cs)))) and cs[0][3] == len(cs):
        return cs[0].term
    raise Bad("a header field is not one big endian number: " + show_cells(cs))


def interval(it, f, msg):
    """(start, end) of the piece of msg a fragment carries; end None: to the end."""
    full = cells(msg)
    if f.cells == full:
        return Const(0), None
    if not f.cells:
        return "empty", "empty"
    if len(f.cells) == 1 and f.cells[0][0] == "d":
        t = f.cells[0].term
        r = slice_of(it, t, msg)
        if r is not None:
            lo, hi = r
            if hi is not None and it.known_truth(it.less(hi, it.m_len(msg))) is False:
                hi = None
            return lo, hi
    raise Unsupported("piece " + show_cells(f.cells)[:200])


def slice_of(it, t, msg):
    if key(t) == key(msg):
        return Const(0), None
    if isinstance(t, Sym) and t.op == "bytes":
        return slice_of(it, t.args[0], msg)
    if isinstance(t, Sym) and t.op == "slice" and isinstance(t.args[3], Const) and t.args[3].v is None:
        b = slice_of(it, t.args[0], msg)
        if b is None:
            return None
        lo0, hi0 = b
        lo, hi = t.args[1], t.args[2]
        lo = Const(0) if isinstance(lo, Const) and lo.v is None else lo
        if not it.not_negative(lo):
            raise Bad(f"a piece starts at {show(lo)}, which may be negative")
        nlo = lin_add(lo0, lo)
        if isinstance(hi, Const) and hi.v is None:
            nhi = hi0
        else:
            if not it.not_negative(hi):
                raise Bad(f"a piece ends at {show(hi)}, which may be negative")
            nhi = lin_add(lo0, hi)
            if hi0 is not None and it.known_truth(it.less(hi0, nhi)) is not False:
                raise Unsupported("nested slices")
        return nlo, nhi
    return None


class Sc:
    """A scenario: steps are ('q', pid, stream), ('r', amount), then drained."""

    def __init__(self, name, steps):
        self.name, self.steps = name, steps


def scenarios(tier):
    P, Q, N = Const(PID), Const(PID2), NONE
    D, R = "default", "prompt_response"
    q = lambda p=P, s=D: ("q", p, s)
    r = lambda i: ("r", i)
    out = [
        Sc("one message, three reads", [q(), r(0), r(1), r(2)]),
        Sc("two messages of one pipeline, two reads", [q(), q(), r(0), r(1)]),
        Sc("two pool messages, read", [q(N), q(N), r(0)]),
        Sc("message queued between reads", [q(), r(0), q(), r(1)]),
        Sc("two pipelines, read", [q(P), q(Q), r(0), r(1)]),
        Sc("pipeline then pool, read", [q(P), q(N), r(0), r(1)]),
        Sc("pool then pipeline, read", [q(N), q(P), r(0), r(1)]),
        Sc("two streams, read", [q(P, D), q(P, R), r(0), r(1)]),
        Sc("prompt stream first, read", [q(P, R), q(P, D), r(0), r(1)]),
        Sc("pool prompt stream, read", [q(N, R), q(N, D), r(0)]),
        Sc("three messages, targets A B A, read", [q(P), q(Q), q(P), r(0)]),
        Sc("three messages, streams default prompt default, read", [q(P, D), q(P, R), q(P, D), r(0)]),
        Sc("three messages of one target, read", [q(), q(), q(), r(0)]),
        Sc("nothing queued", [r(0)]),
        Sc("drained without limit", [q(), q(), q(N), q(P, R)]),
    ]
    if tier == "thorough":
        out += [
            Sc("one message, five reads", [q()] + [r(i) for i in range(5)]),
            Sc("three messages, two reads", [q(), q(), q(), r(0), r(1)]),
            Sc("four messages, one read", [q(), q(), q(), q(), r(0)]),
            Sc("mixed targets, three reads", [q(P), q(N), q(P), r(0), r(1), r(2)]),
            Sc("mixed streams, three reads", [q(P, R), q(P), q(P, R), r(0), r(1), r(2)]),
            Sc("interleaved queue and reads", [q(), r(0), q(), r(1), q(), r(2)]),
        ]
    return out


def scenario(chk, sc, side):
    def body(w):
        it = w.it
        pool = w.client() if side == "client" else w.server()
        w.set_state(pool, "Opened")
        it.try_stack  # anchors
        w.msgs, w.reads = [], []
        for st in sc.steps:
            if st[0] == "q":
                n = len(w.msgs)
                before = {id(m.inst) for m in w.queued(pool)}
                w.call(pool, "prepare_message", A(f"obj{n}"), w.enum("PSRPMessageType", "PipelineInput"), st[1], w.enum("StreamType", st[2]))
                new = [m for m in w.queued(pool) if id(m.inst) not in before]
                if len(new) != 1:
                    raise Unsupported("queue not found")
                m = new[0]
                buf = next((v for v in m.inst.attrs.values() if isinstance(v, BufV)), None)
                t = buf.val if buf is not None else next((v for v in m.inst.attrs.values() if isinstance(v, Sym) and v.typ == "bytes"), None)
                if t is None:
                    raise Unsupported("message bytes not found")
                w.msgs.append((t, st[1], st[2], m))
            else:
                a = A(f"amount{st[1]}", "int")
                try:
                    res = w.call(pool, "data_to_send", a)
                except PyRaise as e:
                    if getattr(e.cls, "name", None) == "ValueError" and it.known_truth(it.less(a, Const(22))) is True:
                        raise Infeasible()
                    w.reads.append((a, None, "raise " + str(getattr(e.cls, "name", None)), e))
                    return NONE
                w.reads.append((a, res, it.known_truth(it.less(a, Const(22))), len([m for m in w.msgs if m])))
        for _ in range(len(w.msgs) * 2 + 3):
            res = w.call(pool, "data_to_send")
            w.reads.append((None, res, False, None))
            if isinstance(res, Const) and res.v is None:
                break
        return NONE

    def assume(it, s):
        if s.op == "isinstance" and isinstance(s.args[1], ClassV) and s.args[1].name == "EndOfPipelineInput":
            return False
        if s.op == "is" and isinstance(s.args[0], Sym) and s.args[0].op == "arg" and str(s.args[0].args[0]).startswith("obj"):
            return False
        return None

    ps = chk.seen(run(chk.prog, body, config(assume=assume, max_paths=20000)))
    for n, p in enumerate(ps):
        what = f"{side}: {sc.name}: {p.describe_facts()[:160]}"
        if p.kind == "raise":
            chk.bad("tiling", f"{side}: {sc.name}", f"raises {p.exc_name()}", path=p)
            continue
        chk.attempt("tiling", what, lambda: judge(chk, sc, side, p))


def judge(chk, sc, side, p):
    w, it = p.world, p.interp
    name = f"{side}: {sc.name}"
    pieces = [[] for _ in w.msgs]
    ended = [False] * len(w.msgs)
    order = []
    oids = []
    for t, pid, stream, m in w.msgs:
        oids.append(it.prim(m.oid))
    c = [o.v for o in oids if isinstance(o, Const)]
    chk.need(len(c) == len(oids) and all(a < b for a, b in zip(c, c[1:])) and (not c or c[0] >= 1), "object-ids", name,
             f"object ids of messages in queue order are {[show(o) for o in oids]}", path=p)
    queued_at = []
    n = 0
    for st in sc.steps:
        if st[0] == "q":
            n += 1
        else:
            queued_at.append(n)
    for ri, (amount, res, small, _) in enumerate(w.reads):
        avail = queued_at[ri] if ri < len(queued_at) else len(w.msgs)
        if isinstance(small, str):
            chk.bad("refuse-small", name, f"a read of an amount that may be 22 or more ends with {small}", path=p)
            return
        if amount is not None:
            if small is not False:
                chk.bad("refuse-small", name, "an amount that may be below 22 is not refused", path=p)
                return
            chk.ok("refuse-small", name)
        pending = [i for i in range(avail) if not ended[i]]
        if isinstance(res, Const) and res.v is None:
            chk.need(not pending, "queue-empties", name, f"nothing is handed out although messages {pending} are not complete", path=p)
            continue
        if not isinstance(res, InstV):
            raise Unsupported("payload " + show(res))
        data = it.prim(w.get(res, "data"))
        data = data.val if isinstance(data, BufV) else data
        try:
            frags = parse(it, data)
        except Bad as e:
            chk.bad("tiling", name, str(e), path=p)
            return
        if not frags:
            chk.bad("queue-empties", name, "an empty payload is handed out", path=p)
            return
        rp, rs = it.prim(w.get(res, "pipeline_id")), w.get(res, "stream_type")
        for k, f in enumerate(frags):
            if not isinstance(f.oid, Const) or f.oid.v not in c:
                chk.bad("object-ids", name, f"a fragment carries the object id {show(f.oid)}, queued were {c}", path=p)
                return
            i = c.index(f.oid.v)
            t, pid, stream, m = w.msgs[i]
            first = next((j for j in range(avail) if not ended[j]), None)
            if not chk.need(i == first, "order", name, f"a fragment of message {i} is handed out while message {first} is not complete", path=p):
                return
            chk.need(key(rp) == key(pid), "one-target", name, f"the payload for {show(rp)} carries message {i} for {show(pid)}", path=p)
            chk.need(isinstance(rs, EnumV) and rs.name == stream, "one-target", name, f"the payload of stream {show(rs)} carries message {i} of stream {stream}", path=p)
            fid = relen(it, f.fid) if not isinstance(f.fid, Const) else f.fid
            if not chk.need(isinstance(fid, Const) and fid.v == len(pieces[i]), "fragment-ids", name,
                            f"fragment {len(pieces[i])} of message {i} has the id {show(fid)}", path=p):
                return
            try:
                pc = interval(it, f, t)
            except Bad as e:
                chk.bad("tiling", name, str(e), path=p)
                return
            pieces[i].append(pc)
            # where the piece must start
            prev = [x for x in pieces[i][:-1] if x[0] != "empty"]
            if pc[0] != "empty":
                at = prev[-1][1] if prev else Const(0)
                if not chk.need(at is not None and key(pc[0]) == key(at), "tiling", name,
                                f"a fragment of message {i} starts at {show(pc[0])}, handed out so far is up to {show(at) if at is not None else 'the end'}", path=p):
                    return
            at = next((x[1] for x in reversed(pieces[i]) if x[0] != "empty"), Const(0))
            complete = at is None
            if not complete:
                t_ = it.known_truth(it.less(at, it.m_len(t)))
                if t_ is False:
                    complete = True
                elif t_ is None:
                    raise Unsupported("whether the message is complete")
            start, end = bool(f.flags & 1), bool(f.flags & 2)
            chk.need(start == (len(pieces[i]) == 1), "fragment-ids", name, f"fragment {len(pieces[i]) - 1} of message {i} has flags {f.flags:#x}", path=p)
            if not chk.need(end == complete, "end-flag", name,
                            f"a fragment of message {i} reaching {show(at) if at is not None else 'the end'} of {show(it.m_len(t))} bytes has flags {f.flags:#x}", path=p):
                return
            ended[i] = complete
        if amount is not None:
            total = relen(it, it.m_len(data))
            r = below(it, total, amount)
            if r is None:
                raise Unsupported(f"size {show(total)} against {show(amount)}")
            chk.need(r, "size-limit", name, f"the payload has {show(total)} bytes, asked for was {show(amount)}", path=p)
    for i, e in enumerate(ended):
        chk.need(e, "queue-empties", name, f"message {i} never completed", path=p)


def below(it, total, amount):
    """total <= amount: True, False or None (not known)"""
    r = it.known_truth(it.less(amount, total))
    if r is not None:
        return not r
    d = lin_add(amount, total, -1)
    plain = lambda t: isinstance(t, Sym) and (t.op == "arg" or t.op == "len" and not (isinstance(t.args[0], Sym) and t.args[0].op == "slice"))
    return False if all(plain(t) for t, _ in it.lin_terms(d)) else None


def boundary(chk):
    """Constant amounts around the limit."""
    for amount in list(range(0, 25)) + [-1, 60, 61, 62, 82, 83, 84, 4096]:
        def go(amount=amount):
            def body(w):
                pool = w.client()
                w.set_state(pool, "Opened")
                w.call(pool, "prepare_message", w.new("EndOfPipelineInput"), NONE, Const(PID))
                w.call(pool, "prepare_message", w.new("EndOfPipelineInput"), NONE, Const(PID))
                w.reset()
                w.out = w.call(pool, "data_to_send", Const(amount))
                w.rest = []
                for _ in range(80):
                    r = w.call(pool, "data_to_send", Const(max(amount, 22)))
                    if isinstance(r, Const):
                        break
                    w.rest.append(r)
                return NONE
            ps = chk.seen(run(chk.prog, body, config()))
            what = f"data_to_send({amount})"
            for p in ps:
                if amount < 22:
                    chk.need(p.kind == "raise" and p.exc_name() == "ValueError", "refuse-small", what, f"{p.kind} {p.exc_name() or show(p.value)}", path=p)
                    continue
                if p.kind == "raise":
                    chk.bad("refuse-small", what, f"raises {p.exc_name()}", path=p)
                    continue
                got = b""
                per = {}
                for x in [p.world.out] + p.world.rest:
                    d = p.interp.prim(p.world.get(x, "data"))
                    d = d.val if isinstance(d, BufV) else d
                    if not isinstance(d, Const):
                        raise Unsupported(show(d))
                    chk.need(0 < len(d.v) <= amount, "size-limit", what, f"a payload has {len(d.v)} bytes", path=p)
                    b = d.v
                    while b:
                        oid, fid, fl, ln = struct.unpack(">QQBI", b[:21])
                        per.setdefault(oid, []).append((fid, fl, b[21:21 + ln]))
                        b = b[21 + ln:]
                for oid, fr in per.items():
                    data = b"".join(x[2] for x in fr)
                    chk.need(len(data) == 40 and [x[0] for x in fr] == list(range(len(fr))) and
                             [x[1] for x in fr] == [(1 if i == 0 else 0) | (2 if i == len(fr) - 1 else 0) for i in range(len(fr))],
                             "tiling", what, f"message {oid} left as {[(a, b, len(c)) for a, b, c in fr]}", path=p)
                chk.need(sorted(per) == [1, 2], "queue-empties", what, f"messages {sorted(per)} left", path=p)
        chk.attempt("refuse-small", f"data_to_send({amount})", go)


def counters(chk):
    """The numbering beyond the numbers short runs reach: whatever was handed out before, the next id is one more."""
    def moved(o, before):
        return [n for n, v in o.attrs.items() if isinstance(v, Const) and type(v.v) is int and n in before and isinstance(before[n], Const) and type(before[n].v) is int and v.v == before[n].v + 1]

    def one(it, w, r):
        d = it.prim(w.get(r, "data"))
        d = d.val if isinstance(d, BufV) else d
        if not isinstance(d, Const):
            raise Unsupported(show(d))
        return struct.unpack(">QQBI", d.v[:21])

    for side in ("client", "server"):
        for big in (255, 256, 32767, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53):
            def go(big=big, side=side):
                def body(w):
                    pool = w.client() if side == "client" else w.server()
                    w.set_state(pool, "Opened")
                    w.marks = []
                    w.call(pool, "prepare_message", w.new("EndOfPipelineInput"), NONE, Const(PID))
                    m = [x.inst for x in w.queued(pool)][0]
                    was = dict(m.attrs)
                    one(w.it, w, w.call(pool, "data_to_send", Const(22)))
                    names = moved(m, was)
                    if len(names) != 1:
                        raise Unsupported(f"the count of a message's fragments is not one of its numbers: {names}")
                    m.attrs[names[0]] = Const(big)
                    w.reset()
                    for i in range(3):
                        _, fid, fl, _ = one(w.it, w, w.call(pool, "data_to_send", Const(22)))
                        w.marks.append(("fragment-ids", fid, big + i, fl))
                    while not isinstance(w.call(pool, "data_to_send"), Const):
                        pass
                    was = dict(pool.attrs)
                    w.call(pool, "prepare_message", w.new("EndOfPipelineInput"), NONE, Const(PID))
                    names = moved(pool, was)
                    if len(names) != 1:
                        raise Unsupported(f"the count of the pool's messages is not one of its numbers: {names}")
                    pool.attrs[names[0]] = Const(big)
                    while not isinstance(w.call(pool, "data_to_send"), Const):
                        pass
                    last = None
                    for i in range(3):
                        w.call(pool, "prepare_message", w.new("EndOfPipelineInput"), NONE, Const(PID))
                        oid, fid, fl, _ = one(w.it, w, w.call(pool, "data_to_send"))
                        w.marks.append(("object-ids", oid, None if last is None else last + 1, fl))
                        last = oid
                    return NONE

                for p in chk.seen(run(chk.prog, body, config())):
                    what = f"{side}: counting on from {big}"
                    if p.kind == "raise":
                        chk.bad("fragment-ids", what, f"raises {p.exc_name()}", path=p)
                        continue
                    for i, (rule, got, want, fl) in enumerate(p.world.marks):
                        if rule == "fragment-ids":
                            chk.need(got == want and fl == 0, rule, f"{what}, {i}", f"the id is {got} with flags {fl}, expected {want} with flags 0", path=p)
                        elif want is not None:
                            chk.need(got > want - 1, rule, f"{what}, {i}", f"the object id {got} follows {want - 1}", path=p)

            chk.attempt("fragment-ids", f"{side}: counting on from {big}", go)


def check(chk):
    counters(chk)
    for sc in scenarios(chk.tier):
        for side in ("client", "server") if chk.tier == "thorough" or len(sc.steps) < 4 else ("client",):
            chk.attempt("tiling", f"{side}: {sc.name}", lambda: scenario(chk, sc, side))
    boundary(chk)
