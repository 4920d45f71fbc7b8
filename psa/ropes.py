"""Slicing of byte strings made of known and unknown parts, with bounds that are linear terms."""
from .values import *


def parts_of(t):
    """The parts of a concatenation, multi field packed structures split into their fields."""
    if isinstance(t, Sym) and t.op == "cat":
        return [q for a in t.args for q in parts_of(a)]
    if isinstance(t, Sym) and t.op == "struct" and len(t.args) > 2:
        from .builtin_models import _struct_fields
        fields = _struct_fields(t.args[0])
        if len(fields) == len(t.args) - 1 and not any(f[0].endswith("s") for f in fields):
            order = t.args[0][0] if t.args[0][0] in "<>!" else None
            if order:
                return [Sym("struct", (fm if fm[0] in "<>" else fm), v, typ="bytes") for (fm, _, _), v in zip(fields, t.args[1:])]
    return [t]


def locate(it, parts, pos, cum):
    """(index of the part, offset within it) of a position, or None when it cannot be placed"""
    for i, c in enumerate(cum):
        d = lin_add(pos, c, -1)
        if isinstance(d, Const):
            if d.v == 0:
                return i, 0
            if d.v > 0 and i < len(parts) and isinstance(parts[i], Const) and d.v < len(parts[i].v):
                return i, d.v
    return None


def resolve(it, s, lo, hi, typ):
    parts = parts_of(s)
    cum = [Const(0)]
    for p in parts:
        n = it.m_len(p)
        c = lin_add(cum[-1], n)
        if c is None:
            return None
        cum.append(c)
    a = locate(it, parts, lo, cum)
    b = (len(parts), 0) if hi is None else locate(it, parts, hi, cum)
    if a is None or b is None:
        return None
    (i, o), (j, e) = a, b
    if (i, o) >= (j, e):
        return Const(b"" if typ == "bytes" else "")
    out = []
    for k in range(i, min(j + 1, len(parts))):
        p = parts[k]
        st = o if k == i else 0
        if k == j:
            if e == 0:
                break
            p = Const(p.v[st:e])
        elif st:
            p = Const(p.v[st:])
        out.append(p)
    return it.cat(out, typ)


def slice_rope(it, o, lo, hi):
    """o[lo:hi] for a byte or character string o; lo, hi: integer terms or None.  None: no simplification is known."""
    typ = o.typ if isinstance(o, Sym) else "bytes" if isinstance(o, Const) and isinstance(o.v, bytes) else "str" if isinstance(o, Const) and isinstance(o.v, str) else None
    if typ not in ("bytes", "str"):
        return None
    lo = Const(0) if lo is None else lo
    if lin_parts(lo) is None or (hi is not None and lin_parts(hi) is None):
        return None
    if not it.not_negative(lo) or (hi is not None and not it.not_negative(hi)):
        return None
    if isinstance(o, Sym) and o.op == "slice" and isinstance(o.args[3], Const) and o.args[3].v is None:
        base, a, b = o.args[:3]
        a = Const(0) if isinstance(a, Const) and a.v is None else a
        b = None if isinstance(b, Const) and b.v is None else b
        if it.not_negative(a) and (b is None or it.not_negative(b)):
            nlo = lin_add(a, lo)
            if hi is None:
                return slice_rope(it, base, nlo, b)
            nhi = lin_add(a, hi)
            if b is None:
                return slice_rope(it, base, nlo, nhi)
            if it.known_truth(it.less(b, nhi)) is False:
                return slice_rope(it, base, nlo, nhi)
            if it.known_truth(it.less(nhi, b)) is False:
                return slice_rope(it, base, nlo, b)
    ln = it.m_len(o)
    if hi is not None and it.known_truth(it.less(hi, ln)) is False:
        hi = None
    empty = Const(b"" if typ == "bytes" else "")
    if it.known_truth(it.less(lo, ln)) is False:
        return empty
    if hi is not None and it.known_truth(it.less(lo, hi)) is False:
        return empty
    if isinstance(lo, Const) and lo.v == 0 and hi is None:
        return o
    if isinstance(o, Const) and isinstance(lo, Const) and (hi is None or isinstance(hi, Const)):
        return Const(o.v[lo.v:hi.v if hi is not None else None])
    if isinstance(o, Sym) and o.op in ("cat", "struct"):
        r = resolve(it, o, lo, hi, typ)
        if r is not None:
            return r
    return Sym("slice", o, NONE if isinstance(lo, Const) and lo.v == 0 else lo, NONE if hi is None else hi, NONE, typ=typ)


def merge(it, a, b, typ):
    """The concatenation of two adjacent slices of the same string as one slice, or None."""
    if not (isinstance(a, Sym) and a.op == "slice" and isinstance(b, Sym) and b.op == "slice"):
        return None
    if a.typ != typ or b.typ != typ or key(a.args[0]) != key(b.args[0]):
        return None
    n = lambda x: isinstance(x, Const) and x.v is None
    if not n(a.args[3]) or not n(b.args[3]) or n(a.args[2]) or n(b.args[1]):
        return None
    if key(a.args[2]) != key(b.args[1]):
        return None
    lo = None if n(a.args[1]) else a.args[1]
    hi = None if n(b.args[2]) else b.args[2]
    # a.lo <= a.hi and b.lo <= b.hi, otherwise a gap or an overlap
    if lo is not None and it.known_truth(it.less(a.args[2], lo)) is not False:
        return None
    if hi is not None and it.known_truth(it.less(hi, b.args[1])) is not False:
        return None
    return slice_rope(it, a.args[0], lo, hi)


def parted(t):
    while isinstance(t, Sym) and t.op == "slice":
        t = t.args[0]
    return isinstance(t, Sym) and t.op in ("cat", "struct")
