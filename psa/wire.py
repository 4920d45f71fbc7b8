"""Byte level canonical form of abstract byte strings."""
import struct

from .values import *


class NoLayout(Exception):
    pass


class FieldCell(tuple):
    """('f', key, significance, width), remembering the term"""

    def __new__(cls, v, i, size):
        o = tuple.__new__(cls, ("f", key(v), i, size))
        o.term = v
        return o


class DataCell(tuple):
    def __new__(cls, t):
        o = tuple.__new__(cls, ("d", key(t)))
        o.term = t
        return o


def cells(t):
    """A byte string term as a list of cells: ('c', byte), ('f', key of the value, significance of this byte, width),
    ('u', key of the uuid, index of the little endian form), ('d', term) for a part of unknown length."""
    if isinstance(t, BufV):
        t = t.val
    if isinstance(t, Const):
        if not isinstance(t.v, (bytes, bytearray)):
            raise NoLayout(show(t))
        return [("c", b) for b in t.v]
    if isinstance(t, Sym):
        if t.op == "cat":
            return [c for a in t.args for c in cells(a)]
        if t.op == "bytes" and len(t.args) == 1:
            return cells(t.args[0])
        if t.op == "struct":
            from .builtin_models import _struct_fields
            out = []
            pos = 0
            fields = _struct_fields(t.args[0])
            if len(fields) != len(t.args) - 1:
                raise NoLayout(show(t))
            for (fm, off, size), v in zip(fields, t.args[1:]):
                out += [("c", 0)] * (off - pos)
                pos = off + size
                if fm.endswith("s"):
                    sub = cells(v)
                    if any(c[0] == "d" for c in sub):
                        raise NoLayout(show(t))
                    out += (sub + [("c", 0)] * size)[:size]
                    continue
                order = fm[0] if fm[0] in "<>=@" else "<"
                if isinstance(v, Const):
                    out += [("c", b) for b in struct.pack(fm, v.v)]
                    continue
                sig = range(size)
                if order == ">":
                    sig = reversed(sig)
                out += [FieldCell(v, i, size) for i in sig]
            return out
        if t.op == "attr" and t.args[1] == "bytes_le":
            return [("u", key(t.args[0]), i) for i in range(16)]
        return [DataCell(t)]
    raise NoLayout(show(t))


def show_cells(cs, names=None):
    out = []
    for c in cs:
        if c[0] == "c":
            out.append("%02x" % c[1])
        elif c[0] == "f":
            out.append(f"[{short(c[1])}:{c[2]}/{c[3]}]")
        elif c[0] == "u":
            out.append(f"[{short(c[1])}.le{c[2]}]")
        else:
            out.append(f"<{short(c[1])}>")
    return " ".join(out)


def short(k):
    s = str(k)
    return s if len(s) < 60 else s[:57] + "..."


def uint(v, width, order):
    """cells of an integer field"""
    s = range(width)
    return [("f", key(v), i, width) for i in (reversed(s) if order == ">" else s)]


def guid(v):
    return [("u", key(v), i) for i in range(16)]


def raw(b):
    return [("c", x) for x in b]
