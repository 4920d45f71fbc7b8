"""C01: byte layout of fragments and messages."""
import struct
import uuid

from ..ops import *
from ..wire import *

META = {
    "level": "other",
    "technique": "abstract interpretation to byte-cell layouts, compared with the MS-PSRP layout table",
    "explanation": "create_fragment and create_message are interpreted on unknown arguments and their result reduced to one cell per "
                   "byte (which byte of which value); unpack_fragment and unpack_message are interpreted on an unknown buffer, every "
                   "field being reduced to offset, width and byte order, and on constant headers covering all 256 flag bytes, zero "
                   "and one-hot pipeline ids and the BOM variants. The messages queued by client and server pools and the payload of "
                   "data_to_send are reduced to the same cells.",
    "rules": ["pack-fragment", "pack-message", "unpack-fragment", "unpack-message", "flag-byte", "zero-pipeline", "bom", "pool-message",
              "pool-fragment"],
}


def call(chk, name, args, kw=None, assume=None):
    f = chk.prog.func(name)
    return chk.seen(run(chk.prog, lambda w: w.it.call(f, args(), kw or {}, None), config(assume=assume)))


def fragment_cells(oid, fid, flag, data):
    return uint(oid, 8, ">") + uint(fid, 8, ">") + raw(bytes([flag])) + uint(Sym("len", data, typ="int"), 4, ">") + [("d", key(data))]


def same(chk, rule, what, value, want, path):
    try:
        got = cells(value)
    except NoLayout as e:
        chk.undec(rule, what, f"no byte layout: {e}")
        return
    # an opaque part is only a match when it is the very same part
    chk.need(got == want, rule, what, f"bytes are {show_cells(got)}; the layout is {show_cells(want)}", path=path)


def pack(chk):
    oid, fid, data = A("object_id", "int"), A("fragment_id", "int"), A("data", "bytes")
    for first in (True, False):
        for end in (True, False):
            what = f"create_fragment(first={first}, end={end})"

            def go(first=first, end=end, what=what):
                def assume(it, s):
                    if s.op == "eq0" and key(s.args[0]) == key(fid):
                        return False
                    if s.op == "lt0" and not first:
                        p = lin_parts(s.args[0])
                        if p and list(p[1]) == [key(fid)]:
                            c, n = p[0], p[1][key(fid)][1]
                            if n == 1 and c >= -1:      # fid + c < 0 with fid >= 1
                                return False
                            if n == -1 and c <= 0:      # c - fid < 0 with fid >= 1
                                return True
                    return None
                f = Const(0) if first else fid
                ps = call(chk, "create_fragment", lambda: [oid, f, data, Const(end)], assume=assume)
                n = 0
                for p in ps:
                    if p.kind == "return":
                        n += 1
                        w = (uint(oid, 8, ">") + (raw(bytes(8)) if first else uint(fid, 8, ">")) + raw(bytes([first + 2 * end])) +
                             uint(Sym("len", data, typ="int"), 4, ">") + [("d", key(data))])
                        same(chk, "pack-fragment", what, p.value, w, p)
                    else:
                        chk.bad("pack-fragment", what, f"raises {p.exc_name()}", path=p)
                if not n:
                    chk.bad("pack-fragment", what, "never returns")
            chk.attempt("pack-fragment", what, go)

    def default_end():
        ps = call(chk, "create_fragment", lambda: [oid, Const(0), data])
        for p in ps:
            if p.kind == "return":
                same(chk, "pack-fragment", "create_fragment(default end)", p.value,
                     uint(oid, 8, ">") + raw(bytes(8)) + raw(b"\x03") + uint(Sym("len", data, typ="int"), 4, ">") + [("d", key(data))], p)
    chk.attempt("pack-fragment", "create_fragment(default end)", default_end)

    rpid, pid = A("rpid", "uuid.UUID"), A("pid", "uuid.UUID")
    for client in (True, False):
        for p_, pn in ((pid, "pid"), (NONE, "no pid"), (Const(PID), "constant pid")):
            for m in ("SessionCapability", "PipelineHostResponse", None):
                what = f"create_message(client={client}, {m or 'any type'}, {pn})"

                def go(client=client, p_=p_, m=m, what=what):
                    def run_(w):
                        mt = w.enum("PSRPMessageType", m) if m else A("message_type")
                        w.mt = mt
                        return w.it.call(chk.prog.func("create_message"), [Const(client), mt, data, rpid, p_], {}, None)
                    ps = chk.seen(run(chk.prog, run_, config(assume=lambda it, s: True if key(s) == key(pid) else None)))
                    for p in ps:
                        if p.kind != "return":
                            chk.bad("pack-message", what, f"raises {p.exc_name()}", path=p)
                            continue
                        if m:
                            num = p.interp.prim(p.world.mt.value).v
                            mc = raw(struct.pack("<I", num))
                        else:
                            mc = None
                        pc = guid(pid) if p_ is pid else raw(bytes(16)) if p_ is NONE else raw(PID.bytes_le)
                        head = raw(struct.pack("<I", 2 if client else 1))
                        if mc is None:
                            try:
                                got = cells(p.value)
                            except NoLayout as e:
                                chk.undec("pack-message", what, f"no byte layout: {e}")
                                continue
                            t = got[4:8]
                            mc = t if all(c[0] == "f" and c[3] == 4 for c in t) and [c[2] for c in t] == [0, 1, 2, 3] and len({c[1] for c in t}) == 1 \
                                and repr(key(A("message_type"))) in repr(t[0][1]) else [("f", "the message type number", i, 4) for i in range(4)]
                        same(chk, "pack-message", what, p.value, head + mc + guid(rpid) + pc + [("d", key(data))], p)
                chk.attempt("pack-message", what, go)


def read_field(v, base):
    """(offset, width, order, signed) of an integer read from the buffer, or None"""
    if isinstance(v, Sym) and v.op == "unpacked" and key(v.args[0]) == key(base) and isinstance(v.args[2], Const):
        fm = v.args[1]
        order = fm[0] if fm[0] in "<>=@!" else None
        ch = fm[-1]
        size = {"b": 1, "h": 2, "i": 4, "l": 4, "q": 8}.get(ch.lower())
        return v.args[2].v, size, (order if size > 1 else None), ch.islower()
    return None


def unpack_sym(chk):
    data = A("data", "bytes")

    def frag():
        ps = call(chk, "unpack_fragment", lambda: [BufV(data)])
        for p in ps:
            if p.kind != "return":
                continue
            for name, want in (("object_id", (0, 8, ">", False)), ("fragment_id", (8, 8, ">", False))):
                v = p.interp.getattr(p.value, name, None)
                got = read_field(p.interp.prim(v), data)
                if got is None:
                    chk.undec("unpack-fragment", name, f"not a field of the buffer: {show(v)}")
                else:
                    chk.need(got == want, "unpack-fragment", name, f"read from offset, width, order, signed = {got}; the layout is {want}", path=p)
            v = p.interp.prim(p.interp.getattr(p.value, "data", None))
            if isinstance(v, BufV):
                v = v.val
            if isinstance(v, Sym) and v.op == "slice" and key(v.args[0]) == key(data):
                ln = Sym("unpacked", data, ">I", Const(17), typ="int")
                lo, hi = v.args[1], v.args[2]
                ok = isinstance(lo, Const) and lo.v == 21 and not isinstance(hi, Const) and key(lin_add(hi, lin_add(ln, Const(21)), -1)) == key(Const(0))
                chk.need(ok, "unpack-fragment", "data", f"data is {show(v)}; the layout is data[21:21+length] with the length at 17:21", path=p)
            else:
                chk.undec("unpack-fragment", "data", f"not a slice of the buffer: {show(v)}")
    chk.attempt("unpack-fragment", "unpack_fragment(unknown buffer)", frag)

    def msg():
        ps = call(chk, "unpack_message", lambda: [BufV(data)])
        for p in ps:
            if p.kind != "return":
                continue
            v = p.interp.prim(p.interp.getattr(p.value, "destination", None))
            got = read_field(v, data)
            if got is None:
                chk.undec("unpack-message", "destination", show(v))
            else:
                chk.need(got[:3] == (0, 4, "<"), "unpack-message", "destination", f"read from {got}", path=p)
            v = p.interp.prim(p.interp.getattr(p.value, "message_type", None))
            got = read_field(v.args[1], data) if isinstance(v, Sym) and v.op == "enum" else None
            if got is None:
                chk.undec("unpack-message", "message_type", show(v))
            else:
                chk.need(got == (4, 4, "<", False), "unpack-message", "message_type", f"read from {got}", path=p)
    chk.attempt("unpack-message", "unpack_message(unknown buffer)", msg)


def unpack_const(chk):
    """Constant headers: every byte distinct, so that each field shows where it was read."""
    oid, fid = 0x0102030405060708, 0x1112131415161718
    payload = bytes(range(0x30, 0x50))

    def frag(flag, o=oid, f=fid, body=payload, extra=b""):
        def go():
            head = struct.pack(">QQBI", o, f, flag, len(body))
            ps = call(chk, "unpack_fragment", lambda: [BufV(Const(head + body + extra))])
            for p in ps:
                what = f"unpack_fragment(flags={flag:#04x})"
                if p.kind != "return":
                    chk.bad("flag-byte", what, f"raises {p.exc_name()}", path=p)
                    continue
                it = p.interp
                for n, w in (("object_id", o), ("fragment_id", f), ("start", bool(flag & 1)), ("end", bool(flag & 2)), ("data", body)):
                    v = it.prim(it.getattr(p.value, n, None))
                    if isinstance(v, BufV):
                        v = v.val
                    if n in ("start", "end"):
                        t = it.known_truth(v)
                        v = Const(t) if t is not None else v
                    if isinstance(v, Const):
                        chk.need(v.v == w, "flag-byte" if n in ("start", "end") else "unpack-fragment", f"{what}.{n}", f"is {v.v!r}, packed was {w!r}", path=p)
                    else:
                        chk.undec("unpack-fragment", f"{what}.{n}", show(v))
        chk.attempt("unpack-fragment", f"unpack_fragment(flags={flag:#04x})", go)
    for flag in range(256):
        frag(flag)
    frag(3, 1, 0, b"")
    frag(0, 2 ** 64 - 1, 2 ** 64 - 2, b"x" * 300)
    frag(2, 2 ** 63, 2 ** 32, payload, b"\x00" * 21 + b"more")

    rp = uuid.UUID(bytes=bytes(range(0x61, 0x71)))
    pids = [uuid.UUID(int=0), uuid.UUID(bytes=bytes(range(0x71, 0x81)))] + [uuid.UUID(bytes_le=bytes(1 if i == j else 0 for i in range(16))) for j in range(16)]
    tails = [b"", b"<x/>", b"\xef\xbb\xbf<x/>", b"\xef\xbb\xbf", b"\xef\xbb<x/>", b"\xef\xbb\xbf\xef\xbb\xbf<x/>", b"<\xef\xbb\xbf/>"]
    members = chk.prog.cls("PSRPMessageType").enum_members or {}
    nums = {}
    for n, m in members.items():
        v = chk.prog.init_interp.prim(m.value)
        if isinstance(v, Const):
            nums[n] = v.v
    cases = [(1, "SessionCapability", p, b"<x/>") for p in pids] + [(d, n, pids[1], t) for d, n in ((1, "SessionCapability"), (2, "PipelineHostResponse")) for t in tails]
    cases += [(1, n, pids[0], b"<x/>") for n in nums]
    for dest, n, pid, tail in cases:
        rule = "bom" if b"\xef" in tail else "zero-pipeline" if pid.int == 0 else "unpack-message"
        what = f"unpack_message({dest}, {n}, {pid}, {tail!r})"

        def go():
            if n not in nums:
                raise AnchorLost("PSRPMessageType." + n)
            data = struct.pack("<II", dest, nums[n]) + rp.bytes_le + pid.bytes_le + tail
            ps = call(chk, "unpack_message", lambda: [BufV(Const(data))])
            for p in ps:
                if p.kind != "return":
                    chk.bad(rule, what, f"raises {p.exc_name()}", path=p)
                    continue
                it = p.interp
                body = tail[3:] if tail.startswith(b"\xef\xbb\xbf") else tail
                for f, w in (("destination", dest), ("rpid", rp), ("pid", pid if pid.int else None), ("data", body)):
                    v = it.prim(it.getattr(p.value, f, None))
                    if isinstance(v, BufV):
                        v = v.val
                    if isinstance(v, Const):
                        chk.need(v.v == w, rule, f"{what}.{f}", f"is {v.v!r}, packed was {w!r}", path=p)
                    else:
                        chk.undec(rule, f"{what}.{f}", show(v))
                v = it.getattr(p.value, "message_type", None)
                chk.need(isinstance(v, EnumV) and v.name == n, rule, f"{what}.message_type", f"is {show(v)}", path=p)
        chk.attempt(rule, what, go)


def pools(chk):
    """What the pools queue and hand out is made of these layouts."""
    from ..ops import CLIENT_POOL, SERVER_POOL, CLIENT_PIPE, SERVER_PIPE
    pick = [o for o in CLIENT_POOL if o.name in ("open", "get_available_runspaces", "set_max_runspaces")] + \
           [o for o in SERVER_POOL if o.name in ("request_key", "send_event")] + \
           [o for o in CLIENT_PIPE if o.name in ("start", "send", "send_eof") and o.kind == "ClientPowerShell"] + \
           [o for o in SERVER_PIPE if o.name in ("write_output", "complete", "host_call")]
    for op in pick:
        def go(op=op):
            def body(w):
                st = "BeforeOpen" if op.name == "open" else "Opened"
                op.apply(w, pool_state=st, pipe_state="NotStarted" if op.name == "start" else "Running", general=False)
                msgs = w.queued(w.pool)
                # what is on the wire afterwards
                w.sent = []
                for m in msgs:
                    buf = next((v for v in m.inst.attrs.values() if isinstance(v, BufV)), None)
                    w.sent.append((m, buf.val if buf else None))
                for v in w.pool.attrs.values():
                    if isinstance(v, ListV) and any(w.is_message(x) for x in v.items):
                        v.base = None
                w.payload_out = w.call(w.pool, "data_to_send")
                return NONE
            ps = chk.seen(run(chk.prog, body, config(assume=not_void)))
            n = 0
            for p in ps:
                if p.kind != "return":
                    continue
                w = p.world
                allc = []
                for m, t in w.sent:
                    what = f"{op}: {m.name}"
                    if t is None:
                        chk.undec("pool-message", what, "no message buffer")
                        continue
                    got = cells(t)
                    num = p.interp.prim(m.type.value) if isinstance(m.type, EnumV) else None
                    if not isinstance(num, Const):
                        chk.undec("pool-message", what, "unknown message type")
                        continue
                    rp = p.interp.prim(w.pool.attrs["runspace_pool_id"])
                    rpc = raw(rp.v.bytes_le) if isinstance(rp, Const) else guid(rp)
                    pidc = raw(PID.bytes_le) if op.target == "pipeline" else raw(bytes(16))
                    want = raw(struct.pack("<II", 2 if op.side == "client" else 1, num.v)) + rpc + pidc
                    n += 1
                    chk.need(got[:40] == want, "pool-message", what, f"header is {show_cells(got[:40])}; the layout is {show_cells(want)}", path=p)
                    tail = [c for c in got[40:] if c[0] != "d"]
                    oid = p.interp.prim(m.oid)
                    oc = raw(struct.pack(">Q", oid.v)) if isinstance(oid, Const) else uint(oid, 8, ">")
                    allc.append((oc, got, t))
                out = w.payload_out
                if isinstance(out, InstV) and len({(key(m.stream), key(m.pid)) for m, _ in w.sent}) == 1:
                    gd = p.interp.prim(w.get(out, "data"))
                    gd = gd.val if isinstance(gd, BufV) else gd
                    try:
                        gc = cells(gd)
                    except NoLayout as e:
                        chk.undec("pool-fragment", str(op), str(e))
                        continue
                    want = []
                    for oc, mc, t in allc:
                        ln = p.interp.m_len(t)
                        lc = raw(struct.pack(">I", ln.v)) if isinstance(ln, Const) else uint(ln, 4, ">")
                        want += oc + raw(bytes(8)) + raw(b"\x03") + lc + mc
                    chk.need(gc == want, "pool-fragment", str(op), f"payload is {show_cells(gc)[:600]}; the layout is {show_cells(want)[:600]}", path=p)
            if not n:
                chk.undec("pool-message", str(op), "no message was queued")
        chk.attempt("pool-message", str(op), go)


def check(chk):
    pack(chk)
    unpack_sym(chk)
    unpack_const(chk)
    pools(chk)
