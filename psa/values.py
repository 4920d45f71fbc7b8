"""Abstract values of the analyser.

Nothing of the analysed program is ever imported or executed.  A value is either a constant of the source text, a
reference to a definition of the source text, an abstract heap object, or a `Sym`: a value-origin expression that says
where an unknown value comes from (value numbering).
"""
import itertools

_seq = itertools.count(1)


class V:
    __slots__ = ()
    typ = None


class Const(V):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return repr(self.v)


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)


class Sym(V):
    """An unknown value, described by its origin."""

    __slots__ = ("op", "args", "typ", "_key")

    def __init__(self, op, *args, typ=None):
        self.op = op
        self.args = args
        self.typ = typ
        self._key = None

    def __repr__(self):
        return show(self)


class TupleV(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return show(self)


class EnumV(V):
    __slots__ = ("cls", "name", "value", "boxed")

    def __init__(self, cls, name, value, boxed=None):
        self.cls, self.name, self.value, self.boxed = cls, name, value, boxed

    def __repr__(self):
        return f"{self.cls.name}.{self.name}"


class ExtV(V):
    """A name of another package (or a builtin), known by its dotted path only."""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class ModV(V):
    __slots__ = ("mod",)

    def __init__(self, mod):
        self.mod = mod

    def __repr__(self):
        return f"<module {self.mod.name}>"


class Heap(V):
    __slots__ = ("born", "origin")

    def __init__(self, origin=None):
        self.born = next(_seq)
        self.origin = origin


class ClassV(Heap):
    __slots__ = ("name", "bases", "ns", "module", "node", "kw", "mro", "meta", "orig_bases", "deco", "enum_members",
                 "qualname", "annots")

    def __init__(self, name, bases, ns, module, node):
        super().__init__(name)
        self.name, self.bases, self.ns, self.module, self.node = name, bases, ns, module, node
        self.kw = {}
        self.meta = None
        self.orig_bases = []
        self.deco = []
        self.enum_members = None
        self.qualname = name
        self.annots = []

    def __repr__(self):
        return f"<class {self.name}>"


class FuncV(Heap):
    __slots__ = ("node", "module", "closure", "cls", "defaults", "kwdefaults", "name", "attrs", "qual")

    def __init__(self, node, module, closure, cls, defaults, kwdefaults, name, qual):
        super().__init__(name)
        self.node, self.module, self.closure, self.cls = node, module, closure, cls
        self.defaults, self.kwdefaults, self.name, self.qual = defaults, kwdefaults, name, qual
        self.attrs = {}

    def __repr__(self):
        return f"<function {self.qual}>"


class BoundV(V):
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func, self.self = func, self_

    def __repr__(self):
        return f"<bound {self.func!r} of {self.self!r}>"


class ExtMethod(V):
    """A method of a builtin/external type applied to an abstract value."""

    __slots__ = ("name", "self", "ext")

    def __init__(self, name, self_, ext=None):
        self.name, self.self, self.ext = name, self_, ext

    def __repr__(self):
        return f"<method {self.ext or ''}.{self.name} of {self.self!r}>"


class PartialV(V):
    __slots__ = ("func", "args", "kwargs")

    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs

    def __repr__(self):
        return f"<partial {self.func!r}>"


class PropV(V):
    __slots__ = ("fget", "fset")

    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticV(V):
    __slots__ = ("func",)

    def __init__(self, func):
        self.func = func


class ClassMethodV(V):
    __slots__ = ("func",)

    def __init__(self, func):
        self.func = func


class SuperV(V):
    __slots__ = ("cls", "obj", "start")

    def __init__(self, cls, obj, start):
        self.cls, self.obj, self.start = cls, obj, start

    def __repr__(self):
        return f"<super {self.cls.name}>"


class InstV(Heap):
    __slots__ = ("cls", "attrs", "lazy")

    def __init__(self, cls, origin=None, lazy=False):
        super().__init__(origin)
        self.cls = cls
        self.attrs = {}
        self.lazy = lazy

    def __repr__(self):
        return f"<{self.cls.name} {self.origin or '#%d' % self.born}>"


class ListV(Heap):
    """base: None, or the origin of an unknown prefix; items: known elements after it."""

    __slots__ = ("base", "items", "kind", "elem")

    def __init__(self, items=(), base=None, origin=None, kind="list", elem=None):
        super().__init__(origin)
        self.items = list(items)
        self.base = base
        self.kind = kind
        self.elem = elem

    def __repr__(self):
        b = f"*{self.base!r}, " if self.base is not None else ""
        return f"[{b}{', '.join(map(repr, self.items))}]"


class IterV(ListV):
    """An iterator: what is left of a known sequence, or a cursor over an unknown one."""

    __slots__ = ("gen",)

    def __init__(self, items=(), base=None, elem=None, gen=None):
        super().__init__(items, base=base, elem=elem)
        self.gen = gen


class DictV(Heap):
    __slots__ = ("base", "entries", "gone", "elem")

    def __init__(self, base=None, origin=None, elem=None):
        super().__init__(origin)
        self.base = base
        self.entries = {}  # key -> (keyval, val)
        self.gone = set()
        self.elem = elem

    def __repr__(self):
        b = f"**{self.base!r}, " if self.base is not None else ""
        return "{" + b + ", ".join(f"{k!r}: {v!r}" for k, v in self.entries.values()) + "}"


class AttrsV(DictV):
    """The __dict__ of an instance: what is stored in it is an attribute of the instance."""

    __slots__ = ("owner",)


class SetV(Heap):
    __slots__ = ("base", "entries")

    def __init__(self, base=None, origin=None):
        super().__init__(origin)
        self.base = base
        self.entries = {}


class BufV(Heap):
    """A bytearray: a cell holding an immutable byte string term."""

    __slots__ = ("val",)

    def __init__(self, val, origin=None):
        super().__init__(origin)
        self.val = val

    def __repr__(self):
        return f"bytearray({self.val!r})"


def key(v):
    """A hashable key; equal keys denote the same abstract value."""
    if isinstance(v, Const):
        return ("c", type(v.v).__name__, repr(v.v) if isinstance(v.v, float) else v.v)
    if isinstance(v, Sym):
        if v._key is None:
            v._key = ("s", v.op) + tuple(key(a) if isinstance(a, V) else ("raw", a) for a in v.args)
        return v._key
    if isinstance(v, EnumV):
        return ("e", v.cls.born, v.name)
    if isinstance(v, ExtV):
        return ("x", v.name)
    if isinstance(v, TupleV):
        return ("t",) + tuple(key(i) for i in v.items)
    if isinstance(v, Heap):
        return ("h", v.born)
    if isinstance(v, BoundV):
        return ("b", key(v.func), key(v.self))
    if isinstance(v, ExtMethod):
        return ("m", v.name, key(v.self))
    if isinstance(v, ModV):
        return ("mod", v.mod.name)
    return ("o", id(v))


def show(v, depth=0):
    if depth > 8:
        return "..."
    d = depth + 1
    if isinstance(v, Sym):
        a = [show(x, d) if isinstance(x, V) else str(x) for x in v.args]
        if v.op == "arg":
            return str(v.args[0])
        if v.op == "attr":
            return f"{a[0]}.{a[1]}"
        if v.op == "item":
            return f"{a[0]}[{a[1]}]"
        if v.op == "lin":
            out = []
            for t, c in v.args[1]:
                s = show(t, d)
                out.append(s if c == 1 else f"{c}*{s}")
            if v.args[0] or not out:
                out.append(str(v.args[0]))
            return "(" + " + ".join(out) + ")"
        return f"{v.op}({', '.join(a)})"
    if isinstance(v, TupleV):
        return "(" + ", ".join(show(i, d) for i in v.items) + ")"
    if isinstance(v, ListV):
        b = [f"*{show(v.base, d)}"] if v.base is not None else []
        return "[" + ", ".join(b + [show(i, d) for i in v.items]) + "]"
    return repr(v)


def lin_parts(v):
    """(const, {key: (term, coef)}) of an integer valued term, or None."""
    if isinstance(v, Const):
        if isinstance(v.v, bool) or not isinstance(v.v, int):
            return None
        return v.v, {}
    if isinstance(v, Sym) and v.op == "lin":
        return v.args[0], {key(t): (t, c) for t, c in v.args[1]}
    if isinstance(v, Sym):
        return 0, {key(v): (v, 1)}
    return None


def mk_lin(c, parts):
    parts = {k: (t, n) for k, (t, n) in parts.items() if n != 0}
    if not parts:
        return Const(c)
    if c == 0 and len(parts) == 1:
        (t, n), = parts.values()
        if n == 1:
            return t
    items = sorted(parts.values(), key=lambda tc: repr(key(tc[0])))
    s = Sym("lin", c, tuple(items), typ="int")
    s._key = ("s", "lin", c, tuple((key(t), n) for t, n in items))
    return s


def lin_add(a, b, sign=1):
    pa, pb = lin_parts(a), lin_parts(b)
    if pa is None or pb is None:
        return None
    out = dict(pa[1])
    for k, (t, n) in pb[1].items():
        out[k] = (t, out.get(k, (t, 0))[1] + sign * n)
    return mk_lin(pa[0] + sign * pb[0], out)


def lin_mul(a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Const) and isinstance(x.v, int) and not isinstance(x.v, bool):
            p = lin_parts(y)
            if p is None:
                return None
            return mk_lin(p[0] * x.v, {k: (t, n * x.v) for k, (t, n) in p[1].items()})
    return None
