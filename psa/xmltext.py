"""XML text of abstract documents: the markup and constant texts as they are, every other text a token that stands for it."""
import re
import xml.etree.ElementTree as ET

from .xmlt import *

TOKEN = re.compile("\ue000(\\d+)\ue001")


def _text(it, w, v):
    v = it.prim(v)
    if isinstance(v, Const):
        if not isinstance(v.v, str):
            raise PyRaise(Sym("exc", "TypeError"), ExtV("TypeError"), None)
        return v.v
    k = key(v)
    for i, (k2, _) in enumerate(w.tokens):
        if k2 == k:
            return f"\ue000{i}\ue001"
    w.tokens.append((k, v))
    return f"\ue000{len(w.tokens) - 1}\ue001"


def _plain(it, w, x):
    e = ET.Element(x.tag)
    for k, v in x.attrib.items():
        e.set(k, _text(it, w, v))
    if x.text is not None:
        e.text = _text(it, w, x.text)
    for k in x.kids:
        e.append(_plain(it, w, k))
    return e


def _back(it, w, s):
    if s is None:
        return None
    parts = TOKEN.split(s)
    vs = [w.tokens[int(p)][1] if i % 2 else Const(p) for i, p in enumerate(parts) if i % 2 or p]
    if not vs:
        return Const("")
    return vs[0] if len(vs) == 1 else it.cat(vs, "str")


def load(w, text):
    """The abstract element the text describes; None when it is not well formed."""
    it = w.it
    try:
        e = ET.fromstring(text)
    except ET.ParseError:
        return None

    def conv(e):
        return build(w, e.tag, _back(it, w, e.text), [conv(c) for c in e], **{k: _back(it, w, v) for k, v in e.attrib.items()})

    return conv(e)


def h_tostring(it, args, kw, node):
    w = it.world
    enc = kw.get("encoding") or (args[1] if len(args) > 1 else None)
    enc = it.prim(enc) if enc is not None else None
    rest = set(kw) - {"encoding", "method", "short_empty_elements", "element"}
    if rest or len(args) > 2:
        raise Unsupported("tostring options")
    flags = {k: v.v for k, v in ((k, it.prim(v)) for k, v in kw.items()) if k in ("method", "short_empty_elements") and isinstance(v, Const)}
    t = ET.tostring(_plain(it, w, snap(it, args[0] if args else kw["element"])), encoding="unicode", **flags)
    if isinstance(enc, Const) and enc.v == "unicode":
        return Const(t)
    if enc is None or (isinstance(enc, Const) and str(enc.v).lower().replace("-", "") in ("utf8", "usascii", "none")):
        return Const(t.encode())
    raise Unsupported("encoding " + show(enc))


def h_fromstring(it, args, kw, node):
    d = it.prim(args[0])
    if not isinstance(d, Const) or not isinstance(d.v, (str, bytes)):
        raise Unsupported("document text " + show(d))
    e = load(it.world, d.v)
    if e is None:
        raise PyRaise(Sym("exc", "ParseError"), ExtV("xml.etree.ElementTree.ParseError"), node)
    return e


TEXT_HOOKS = {"xml.etree.ElementTree.tostring": h_tostring, "xml.etree.ElementTree.fromstring": h_fromstring, "xml.etree.ElementTree.XML": h_fromstring}
