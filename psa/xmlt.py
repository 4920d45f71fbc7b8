"""Abstract CLIXML documents: elements of the model of ElementTree, built, shown and compared."""
from .drive import *


class X:
    """A snapshot of an abstract element."""

    def __init__(self, tag, attrib, text, kids, inst=None):
        self.tag, self.attrib, self.text, self.kids, self.inst = tag, attrib, text, kids, inst

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()

    def find(self, *tags):
        return [k for k in self.kids if k.tag in tags]

    def __repr__(self):
        a = "".join(f" {k}={show(v)}" for k, v in sorted(self.attrib.items()))
        t = show(self.text)[:120] if self.text is not None else ""
        return f"<{self.tag}{a}>{t}" + "".join(map(repr, self.kids)) + "</>"


def snap(it, e):
    if not isinstance(e, InstV) or "_children" not in e.attrs:
        raise Unsupported("not an element: " + show(e))
    g = lambda n: it.prim(e.attrs[n])
    tag, text, att = g("tag"), g("text"), g("attrib")
    if not isinstance(att, DictV) or att.base is not None:
        raise Unsupported("attributes of " + show(e))
    kids = e.attrs["_children"]
    if kids.base is not None:
        raise Unsupported("children of " + show(e))
    return X(tag.v if isinstance(tag, Const) else show(tag), {(k.v if isinstance(k, Const) else show(k)): it.prim(v) for k, v in att.entries.values()},
             None if isinstance(text, Const) and text.v is None else text, [snap(it, c) for c in kids.items], e)


def build(w, tag, text=None, kids=(), **attrib):
    """A model element."""
    cls = w.prog.models["xml.etree.ElementTree"].frame.vars["Element"]
    e = w.it.call(cls, [Const(tag) if isinstance(tag, str) else tag], {}, None)
    for k, v in attrib.items():
        e.attrs["attrib"].entries[key(Const(k))] = (Const(k), v if isinstance(v, V) else Const(v))
    if text is not None:
        e.attrs["text"] = text if isinstance(text, V) else Const(text)
    e.attrs["_children"].items.extend(kids)
    return e


def serialize(w, value, ci=None, **kw):
    return w.it.call(w.prog.func("serialize"), [value, ci if ci is not None else cipher(w)], kw, None)


def deserialize(w, elem, ci=None, **kw):
    return w.it.call(w.prog.func("deserialize"), [elem, ci if ci is not None else cipher(w)], kw, None)


def cipher(w):
    """The session cipher, its operations opaque."""
    if getattr(w, "cipher", None) is None:
        w.cipher = w.new("PSRemotingCrypto")
    return w.cipher


def h_crypt(op, fail=False):
    def h(it, f, args, kw, node):
        if fail and it.choose(2) == 1:
            it.raise_(it.prog.cls("MissingCipherError"), "", node) if False else None
            raise PyRaise(Sym("exc", "MissingCipherError"), it.prog.cls("MissingCipherError"), node)
        a = args[1] if len(args) > 1 else kw.get("value")
        it.effect(op, args[0], None, it.term(a))
        return Sym(op, args[0], it.term(it.prim(a)), typ="str")
    return h


CRYPT = {"PSRemotingCrypto.encrypt": h_crypt("encrypted"), "PSRemotingCrypto.decrypt": h_crypt("decrypted")}


def text_base(t):
    """The text an escape, an unescape or a text codec was applied to."""
    while isinstance(t, Sym):
        if t.op == "resub":
            t = t.args[2]
        elif t.op in ("encode", "decode") and isinstance(t.args[0], Sym):
            t = t.args[0]
        elif t.op == "mcall" and t.args[0] in ("encode", "decode"):
            t = t.args[1]
        else:
            break
    return t


def tkey(it, v):
    """A comparable form of a text or number."""
    v = it.prim(v)
    v = text_base(v)
    return key(v)


PLAIN = {"str": "PSString", "int": "PSInt", "bool": "bool", "bytes": "PSByteArray", "float": "PSSingle", "UUID": "PSGuid",
         "datetime": "PSDateTime", "timedelta": "PSDuration", "Decimal": "PSDecimal", "list": "PSList", "dict": "PSDict", "tuple": "tuple"}


def shape(it, v, seen=None, depth=0):
    """A canonical description of an abstract value: class, content, type names and properties; cycles by position."""
    seen = {} if seen is None else seen
    if isinstance(v, EnumV):
        return ("enum", v.cls.qualname, v.name)
    if isinstance(v, Const):
        if v.v is None:
            return ("None",)
        n = type(v.v).__name__
        if n == "int" and not -2**31 <= v.v < 2**31:
            return ("PSInt64", key(v))
        return (PLAIN.get(n, n), key(v))
    if isinstance(v, Sym):
        t = text_base(v)
        n = t.typ if isinstance(t, Sym) else None
        n = PLAIN.get(n.rpartition(".")[2], n) if isinstance(n, str) else n
        return (n, key(t))
    if not isinstance(v, Heap):
        return ("?", key(v))
    if id(v) in seen:
        return ("ref", seen[id(v)])
    seen[id(v)] = len(seen)
    if depth > 12:
        raise Unsupported("deep value")
    if isinstance(v, (ListV, DictV)):
        if v.base is not None:
            raise Unsupported("open container " + show(v))
        return (("PSList" if isinstance(v, ListV) else "PSDict"), content(it, v, seen, depth), ())
    if isinstance(v, TupleV):
        return ("tuple", tuple(shape(it, x, seen, depth + 1) for x in v.items), ())
    if not isinstance(v, InstV):
        return ("?", key(v))
    ps = []
    meta = v.attrs.get("PSObject")
    tn = ()
    if isinstance(meta, InstV):
        for g in ("adapted_properties", "extended_properties"):
            for n, pv in group_values(it, v, g):
                ps.append((g[:2], n, shape(it, pv, seen, depth + 1)))
        tn = type_names(it, v)
    return (v.cls.name, content(it, v, seen, depth), tuple(ps), tn)


def group_values(it, v, group):
    meta = v.attrs.get("PSObject")
    l = it.prim(it.getattr(meta, group, None))
    if not isinstance(l, ListV) or l.base is not None:
        raise Unsupported("properties of " + show(v))
    for p in l.items:
        n = it.prim(it.getattr(p, "name", None))
        gv = it.class_attr(p.cls, "get_value")
        yield (n.v if isinstance(n, Const) else key(text_base(n))), it.call(gv, [p, v], {}, None)


def type_names(it, v):
    meta = v.attrs.get("PSObject") if isinstance(v, InstV) else v.cls.ns.get("PSObject") if isinstance(v, EnumV) else None
    if not isinstance(meta, InstV):
        return None
    l = it.prim(it.getattr(meta, "type_names", None))
    if isinstance(l, (ListV, TupleV)) and getattr(l, "base", None) is None:
        return tuple(key(it.prim(x)) for x in l.items)
    return None


def content(it, v, seen, depth):
    p = it.prim(v)
    if isinstance(p, ListV):
        if p.base is not None:
            raise Unsupported("open list " + show(v))
        return ("list",) + tuple(shape(it, x, seen, depth + 1) for x in p.items)
    if isinstance(p, DictV):
        if p.base is not None:
            raise Unsupported("open dict " + show(v))
        return ("dict",) + tuple((shape(it, k, seen, depth + 1), shape(it, x, seen, depth + 1)) for k, x in p.entries.values())
    if p is not v:
        return ("value", key(text_base(p)))
    if isinstance(v, InstV):
        q = v.attrs.get("queue")
        if isinstance(q, Heap):
            return content(it, q, seen, depth)
        out = []
        for n in sorted(v.attrs):
            if n == "PSObject":
                continue
            x = v.attrs[n]
            if n == "$args":
                out.append((n, tuple(key(text_base(it.prim(y))) for y in x.items)))
            elif isinstance(x, Heap) and not isinstance(x, InstV):
                out.append((n, content(it, x, seen, depth + 1)))
            else:
                y = it.prim(x) if isinstance(x, V) else x
                out.append((n, key(text_base(y)) if isinstance(y, (Const, Sym)) else shape(it, y, seen, depth + 1) if isinstance(y, V) else repr(y)))
        return ("attrs",) + tuple(out)
    return ("?", key(v))
