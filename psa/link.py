"""Two abstract pools joined by their public data methods: what one sends the other receives.

The XML text of a document is replaced by a short constant naming it, everything else of the package is interpreted as it is written:
the conversion of the objects, the message and fragment layout, the buffers and the handlers.
"""
import re

from .xmlt import *

DOC = re.compile(rb"<document (\d+)/>")


def h_tostring(it, args, kw, node):
    w = it.world
    w.docs.append(args[0])
    t = b"<document %d/>" % (len(w.docs) - 1)
    enc = kw.get("encoding") or (args[1] if len(args) > 1 else None)
    if isinstance(enc, Const) and enc.v == "unicode":
        return Const(t.decode())
    return Const(t)


def h_fromstring(it, args, kw, node):
    w = it.world
    d = it.prim(args[0])
    v = d.v if isinstance(d, Const) else None
    v = v.encode() if isinstance(v, str) else v
    m = DOC.search(v) if isinstance(v, bytes) else None
    if m is None:
        raise Unsupported("document text " + show(d))
    return w.docs[int(m.group(1))]


XML_HOOKS = {"xml.etree.ElementTree.tostring": h_tostring, "xml.etree.ElementTree.fromstring": h_fromstring, "xml.etree.ElementTree.XML": h_fromstring}


def link_config(hooks=None, ext_hooks=None, **kw):
    kw.setdefault("recursion", 12)
    return Config(hooks={**CRYPT, **(hooks or {})}, ext_hooks={**XML_HOOKS, **(ext_hooks or {})}, **kw)


def start(w):
    w.docs = []


def truth(it, v):
    v = it.prim(v)
    return not (isinstance(v, Const) and v.v is None)


class Sent:
    """One message handed to the transport."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


def drain(w, pool, limit=40, amount=None):
    """Everything the pool has to send: (payloads, messages)."""
    it = w.it
    pls, parts, out = [], {}, []
    for _ in range(limit):
        pl = w.call(pool, "data_to_send", *([Const(amount)] if amount else []))
        if not truth(it, pl):
            break
        pls.append(pl)
        d = it.prim(w.get(pl, "data"))
        if not isinstance(d, Const) or not isinstance(d.v, (bytes, bytearray)):
            raise Unsupported("payload " + show(d))
        d = bytes(d.v)
        while d:
            oid, fid, flag, n = struct.unpack(">QQBI", d[:21])
            parts.setdefault(oid, []).append(d[21:21 + n])
            if flag & 2:
                m = b"".join(parts.pop(oid))
                dest, number = struct.unpack("<iI", m[:8])
                pid = uuid.UUID(bytes_le=m[24:40])
                out.append(Sent(oid=oid, number=number, dest=dest, rpid=uuid.UUID(bytes_le=m[8:24]), pid=None if pid.int == 0 else pid, data=m[40:],
                                name=type_name(w, number), stream=it.prim(w.get(pl, "stream_type")),
                                doc=w.docs[int(DOC.search(m[40:]).group(1))] if DOC.search(m[40:]) else None))
            d = d[21 + n:]
    else:
        raise Unsupported("endless data")
    return pls, out


def type_name(w, number):
    for n, m in (w.cls("PSRPMessageType").enum_members or {}).items():
        v = w.it.prim(m.value)
        if isinstance(v, Const) and v.v == number:
            return n
    return number


def deliver(w, pls, dst):
    for pl in pls:
        w.call(dst, "receive_data", pl)


def events(w, dst, limit=40):
    evs = []
    for _ in range(limit):
        ev = w.call(dst, "next_event")
        if not truth(w.it, ev):
            return evs
        evs.append(ev)
    raise Unsupported("endless events")


def step(w, dst):
    """One event: ('event', it or None) or ('raise', class)."""
    try:
        ev = w.call(dst, "next_event")
        return ("event", ev if truth(w.it, ev) else None)
    except PyRaise as e:
        return ("raise", e.cls)


def pump(w, src, dst, limit=40, amount=None):
    """Everything src has to send is given to dst; the events it yields."""
    it = w.it
    evs = []
    for _ in range(limit):
        pl = w.call(src, "data_to_send", *([Const(amount)] if amount else []))
        if not truth(it, pl):
            break
        w.call(dst, "receive_data", pl)
    else:
        raise Unsupported("endless data")
    for _ in range(limit):
        ev = w.call(dst, "next_event")
        if not truth(it, ev):
            break
        evs.append(ev)
    else:
        raise Unsupported("endless events")
    return evs


def pair(w, state="Opened", client=None, server=None):
    """A client and a server that know each other; state as after a handshake."""
    c = w.client(**(client or {}))
    s = w.server(**(server or {}))
    if state is not None:
        s.attrs["runspace_pool_id"] = c.attrs["runspace_pool_id"]
        w.set_state(c, state)
        w.set_state(s, state)
        c.attrs["their_capability"], s.attrs["their_capability"] = s.attrs["our_capability"], c.attrs["our_capability"]
    return c, s
