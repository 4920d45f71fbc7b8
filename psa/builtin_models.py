"""Models of the builtins and of the few standard library operations the package uses.

Everything not modelled here is an opaque operation: its result is a term naming the operation and its arguments, and
the call itself is recorded as an effect.
"""
import builtins
import ast
import struct as _struct
import weakref
import datetime
import decimal
import uuid
import uuid as _uuid

from .values import *
from .ropes import parted

# external names whose result cannot be None and has a known type
_RESULT_TYPE = {
    "base64.b64encode": "bytes", "base64.b64decode": "bytes", "base64.b16encode": "bytes", "base64.b16decode": "bytes",
    "binascii.hexlify": "bytes", "binascii.unhexlify": "bytes", "binascii.b2a_base64": "bytes",
    "os.urandom": "bytes", "xml.etree.ElementTree.tostring": "bytes",
    "platform.node": "str", "getpass.getuser": "str", "os.getpid": "int", "threading.get_native_id": "int",
    "repr": "str", "format": "str", "ascii": "str", "hex": "str", "id": "int", "hash": "int", "ord": "int", "chr": "str",
    "re.escape": "str", "os.path.basename": "str", "os.path.dirname": "str", "posixpath.dirname": "str", "ntpath.dirname": "str", "posixpath.basename": "str", "ntpath.basename": "str", "uuid.uuid4": "uuid.UUID",
    "uuid.UUID": "uuid.UUID",
}
_METHOD_TYPE = {
    "decode": "str", "encode": "bytes", "upper": "str", "lower": "str", "strip": "str", "lstrip": "str", "rstrip": "str",
    "hex": "str", "isoformat": "str", "strftime": "str", "groupdict": "dict", "to_bytes": "bytes", "format": "str",
    "bit_length": "int", "ljust": "str", "rjust": "str", "zfill": "str", "title": "str", "casefold": "str",
    "finalize": "bytes", "sub": "str",
}
_OPAQUE_CLS = {"TypeVar", "NewType"}


def ordered(it, items, kwargs, node):
    """Known items in the order of sorted(), or None if the order is not known."""
    def fixed(v):
        v = it.prim(v)
        if isinstance(v, TupleV):
            xs = [fixed(x) for x in v.items]
            return None if any(x is None for x in xs) else tuple(x[0] for x in xs),
        return (v.v,) if isinstance(v, Const) else None

    if set(kwargs) - {"key", "reverse"}:
        return None
    f, rev = kwargs.get("key", NONE), it.prim(kwargs.get("reverse", FALSE))
    if not isinstance(rev, Const):
        return None
    keys = [fixed(x if isinstance(f, Const) and f.v is None else it.call(f, [x], {}, node)) for x in items]
    if any(k is None or k[0] is None for k in keys):
        return None
    try:
        return [items[i] for i in sorted(range(len(items)), key=lambda i: keys[i][0], reverse=bool(rev.v))]
    except TypeError:
        it.raise_("TypeError", "not supported between instances", node)


def _kwterms(self, kwargs):
    return [Sym("kw", k, self.term(v)) for k, v in sorted(kwargs.items())]


def opaque(self, name, args, kwargs, node, typ=None):
    t = Sym("call", ExtV(name), *[self.term(self.prim(a)) for a in args],
            *[Sym("kw", k, self.term(self.prim(v))) for k, v in sorted(kwargs.items())],
            typ=typ or _RESULT_TYPE.get(name) or ("str" if name.endswith((".__str__", ".__repr__")) else None))
    self.effect("extcall", ExtV(name), name, t)
    self.may_raise()
    return t


def m_len(self, v):
    p = self.prim(v)
    if isinstance(p, Const):
        try:
            return Const(len(p.v))
        except TypeError:
            self.raise_("TypeError", "len")
    if isinstance(p, TupleV):
        if not any(isinstance(i, Sym) and i.op == "star" for i in p.items):
            return Const(len(p.items))
    if isinstance(p, ListV):
        if not any(isinstance(i, Sym) and i.op == "star" for i in p.items):
            n = Const(len(p.items))
            if p.base is None:
                return n
            return lin_add(Sym("len", p.base, typ="int"), n)
    if isinstance(p, (DictV, SetV)):
        n = Const(len(p.entries))
        if p.base is None:
            return n
        if getattr(p, "gone", None):
            return Sym("len", self.term(p), typ="int")
        return Sym("len", p.base, typ="int") if not p.entries else Sym("len", self.term(p), typ="int")
    if isinstance(p, InstV):
        f = self.class_attr(p.cls, "__len__")
        if isinstance(f, FuncV):
            return self.call_func(f, [p], {}, None)
        return Sym("len", p, typ="int")
    if isinstance(p, Sym):
        return len_term(self, p)
    return Sym("len", self.term(p), typ="int")


def real_class(b):
    from .interp import real_class as rc
    return rc(b)


def hashable(self, v):
    if isinstance(v, (ListV, DictV, SetV, BufV)):
        return False
    if isinstance(v, InstV):
        for c in v.cls.mro:
            if isinstance(c, ClassV):
                if "__hash__" in c.ns:
                    return not (isinstance(c.ns["__hash__"], Const) and c.ns["__hash__"].v is None)
                if "__eq__" in c.ns or any(show(d).startswith("dataclass") or show(d) == "dataclasses.dataclass" for d in c.deco):
                    return False
            else:
                r = real_class(c)
                if r is not None and "__hash__" in r.__dict__:
                    return r.__hash__ is not None
        return True
    if isinstance(v, TupleV):
        return all(hashable(self, x) for x in v.items)
    if isinstance(v, Sym) and v.typ is None and v.op not in ("id", "hash"):
        self.may_raise("TypeError")
    return True


def weakrefable(self, v):
    if isinstance(v, (ListV, DictV, TupleV)):
        return False
    if isinstance(v, InstV):
        return not any((real_class(b) or object).__itemsize__ for b in self.ext_bases(v.cls))
    if isinstance(v, EnumV):
        return not any((real_class(b) or object).__itemsize__ for b in self.ext_bases(v.cls) if issubclass(real_class(b) or object, (int, str)))
    if isinstance(v, Const):
        try:
            weakref.ref(v.v)
        except TypeError:
            return False
        return True
    if isinstance(v, Sym):
        if v.typ in ("int", "str", "bytes", "bool", "float"):
            return False
        self.may_raise("TypeError")
    return True


def xml_children(self, e):
    l = e.attrs.get("_children") if isinstance(e, InstV) else None
    if not isinstance(l, ListV) or l.base is not None:
        raise Unsupported("children of " + show(e))
    return l.items


def xiter(self, e):
    yield e
    for c in xml_children(self, e):
        yield from xiter(self, c)


def xpath(self, e, path):
    """The subset of ElementPath with child steps, * and [@attribute] or [@attribute='value'] predicates."""
    import re
    if not isinstance(path, str):
        raise Unsupported("path " + repr(path))
    cur = [e]
    toks = re.findall(r"\[[^\]]*\]|//|/|\*|\.|[^/\[\]*.]+", path)
    if "".join(toks) != path:
        raise Unsupported("path " + path)
    for t in toks:
        if t in ("/", "."):
            continue
        if t == "//":
            cur = [d for c in cur for d in xiter(self, c)]
            continue
        if t.startswith("["):
            m = re.fullmatch(r"""\[@([\w:.-]+)(?:=(['"])(.*)\2)?\]""", t)
            if not m:
                raise Unsupported("path " + path)
            out = []
            for c in cur:
                d = self.prim(c.attrs["attrib"])
                if not isinstance(d, DictV) or d.base is not None:
                    raise Unsupported("attributes of " + show(c))
                v = d.entries.get(key(Const(m.group(1))))
                if v is None:
                    continue
                if m.group(3) is None or self.truth(self.eq(v[1], Const(m.group(3))), None):
                    out.append(c)
            cur = out
            continue
        out = []
        for c in cur:
            for ch in xml_children(self, c):
                tag = self.prim(ch.attrs["tag"])
                if t == "*" or isinstance(tag, Const) and tag.v == t or not isinstance(tag, Const) and self.truth(self.eq(tag, Const(t)), None):
                    out.append(ch)
        cur = out
    return cur


def len_term(self, p):
    if isinstance(p, Const):
        return Const(len(p.v))
    if isinstance(p, Sym):
        if p.op == "cat":
            tot = Const(0)
            for a in p.args:
                tot = lin_add(tot, len_term(self, a))
            return tot
        if p.op == "struct":
            return Const(_struct.calcsize(p.args[0]))
        if p.op == "attr" and p.args[1] in ("bytes_le", "bytes"):
            return Const(16)
        if p.op == "bytes":
            return len_term(self, p.args[0])
        if p.op == "slice" and p.typ in ("bytes", "str") and isinstance(p.args[3], Const) and p.args[3].v is None:
            d, lo, hi = p.args[:3]
            n = len_term(self, d)
            nl, nh = isinstance(lo, Const) and lo.v is None, isinstance(hi, Const) and hi.v is None
            if nh and not nl and self.not_negative(lo):
                if self.known_truth(self.less(n, lo)) is False:
                    return lin_add(n, lo, -1)
                if self.known_truth(self.less(lo, n)) is False:
                    return Const(0)
            if nl and not nh and self.not_negative(hi):
                if self.known_truth(self.less(n, hi)) is False:
                    return hi
                if self.known_truth(self.less(hi, n)) is False:
                    return n
            if not nl and not nh and self.not_negative(lo) and self.not_negative(hi):
                end = hi if self.known_truth(self.less(n, hi)) is False else n if self.known_truth(self.less(hi, n)) is False else None
                if end is not None:
                    if self.known_truth(self.less(end, lo)) is False:
                        return lin_add(end, lo, -1)
                    if self.known_truth(self.less(lo, end)) is False:
                        return Const(0)
    return Sym("len", p, typ="int")


_EXACT = {"str": str, "int": int, "float": float, "bool": bool, "bytes": bytes, "datetime.datetime": datetime.datetime,
          "datetime.timedelta": datetime.timedelta, "decimal.Decimal": decimal.Decimal, "uuid.UUID": uuid.UUID}


_CONST_CLS = {"datetime.timedelta": datetime.timedelta, "datetime.datetime": datetime.datetime, "datetime.timezone": datetime.timezone,
              "decimal.Decimal": decimal.Decimal, "datetime.datetime.strptime": datetime.datetime.strptime}


def number_text(v, name):
    """x when v is the text of the number x and reading it as int/float gives x back."""
    while isinstance(v, Sym) and v.op == "mcall" and v.args[0] in ("upper", "lower", "strip") and len(v.args) == 2:
        v = v.args[1]
    if isinstance(v, Sym) and v.op in ("str", "repr") and len(v.args) == 1 and isinstance(v.args[0], Sym) and v.args[0].typ == name:
        return v.args[0]
    return None


def text_nonempty(v):
    """The text of a number, identifier or truth value is never empty."""
    if isinstance(v, Sym) and v.op == "mcall" and v.args[0] in ("upper", "lower") and len(v.args) == 2:
        return text_nonempty(v.args[1])
    if isinstance(v, Sym) and v.op in ("str", "repr") and len(v.args) == 1 and isinstance(v.args[0], Sym):
        return v.args[0].typ in ("int", "float", "bool", "decimal.Decimal", "uuid.UUID", "datetime.datetime", "datetime.timedelta")
    return isinstance(v, Sym) and v.op == "call" and isinstance(v.args[0], ExtV) and v.args[0].name in (
        "uuid.UUID.__str__", "decimal.Decimal.__str__", "int.__str__", "float.__str__", "datetime.timedelta.__str__", "datetime.datetime.__str__")


def getattr_builtin(self, args, node):
    o, n = args[0], self.prim(args[1])
    if not isinstance(n, Const):
        if len(args) == 3:
            return Sym("call", ExtV("getattr"), *[self.term(a) for a in args])
        return Sym("attr", self.term(o), self.term(n))
    if len(args) == 2:
        return self.getattr(o, n.v, node)
    if isinstance(o, Const) and o.v is None:
        return args[2]
    if isinstance(o, Sym) and o.typ in _EXACT and not hasattr(_EXACT[o.typ], n.v):
        return args[2]
    if isinstance(o, Sym) and o.op not in ("generic",) and (key(o), n.v) not in self.symattrs:
        if isinstance(o.typ, ClassV) and (self.class_attr(o.typ, n.v) is not None or self.ps_class_prop(o.typ, n.v)):
            return self.getattr(o, n.v, node)
        if self.nofork:
            return Sym("call", ExtV("getattr"), self.term(o), n, self.term(args[2]))
        if self.truth(Sym("hasattr", o, n, typ="bool"), node):
            return self.getattr(o, n.v, node)
        return args[2]
    r = self.getattr_opt(o, n.v)
    if r is None:
        return args[2]
    if isinstance(o, InstV) and isinstance(r, Sym) and r.op == "attr" and r.args[0] is o and o.lazy:
        if not self.truth(Sym("hasattr", o, n, typ="bool"), node):
            return args[2]
    return r


_OP_CMP = {"eq": ast.Eq, "ne": ast.NotEq, "lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt, "ge": ast.GtE, "is": ast.Is, "is_not": ast.IsNot}
_OP_BIN = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "truediv": ast.Div, "floordiv": ast.FloorDiv, "mod": ast.Mod,
           "pow": ast.Pow, "and": ast.BitAnd, "or": ast.BitOr, "xor": ast.BitXor, "lshift": ast.LShift, "rshift": ast.RShift}


def call_ext(self, name, args, kwargs, node):
    h = self.cfg.ext_hooks.get(name)
    if h is not None:
        r = h(self, args, kwargs, node)
        if r is not None:
            return r
    if self.cfg.raise_ext is not None and not self.init:
        e = self.cfg.raise_ext(self, name, args)
        if e:
            self.raise_(e, name, node)
    a = args
    n = len(a)
    P = self.prim
    if name.startswith("operator."):
        op = name[9:].strip("_")
        if op in _OP_CMP and n == 2:
            return self.compare(_OP_CMP[op](), a[0], a[1], node)
        if op in _OP_BIN and n == 2:
            return self.binop(_OP_BIN[op](), a[0], a[1], node)
        if op == "getitem" and n == 2:
            return self.get_item(a[0], a[1], node)
        if op == "contains" and n == 2:
            return self.contains(a[0], a[1], node)
        if op == "not" and n == 1:
            return self.not_(a[0])
    if name == "isinstance":
        return self.isinstance_(a[0], a[1])
    if name == "issubclass":
        if isinstance(a[0], (ClassV, ExtV)):
            return Const(self.subclass(a[0], a[1]))
        return Sym("issubclass", self.term(a[0]), self.term(a[1]), typ="bool")
    if name == "len":
        return self.m_len(a[0])
    if name == "getattr":
        return getattr_builtin(self, a, node)
    if name == "setattr":
        k = P(a[1])
        if isinstance(k, Const):
            self.setattr(a[0], k.v, a[2], node)
        else:
            self.effect("setattr", a[0], k, a[2])
        return NONE
    if name == "delattr":
        k = P(a[1])
        self.effect("delattr", a[0], k.v if isinstance(k, Const) else k, None)
        if isinstance(a[0], InstV) and isinstance(k, Const):
            self.j_pop(a[0].attrs, k.v, a[0])
        return NONE
    if name == "hasattr":
        k = P(a[1])
        if isinstance(a[0], Sym) and a[0].typ in _EXACT and isinstance(k, Const):
            return Const(hasattr(_EXACT[a[0].typ], k.v))
        if isinstance(a[0], Sym) and a[0].op != "generic" and isinstance(k, Const):
            if isinstance(a[0].typ, ClassV) and (self.class_attr(a[0].typ, k.v) is not None):
                return TRUE
            return Sym("hasattr", a[0], k, typ="bool")
        if not isinstance(k, Const):
            return Sym("hasattr", self.term(a[0]), k, typ="bool")
        return Const(self.getattr_opt(a[0], k.v) is not None)
    if name == "type":
        if n == 1:
            t = self.type_of(a[0])
            return t if t is not None else Sym("type", self.term(a[0]), typ="type")
        return opaque(self, name, a, kwargs, node, "type")
    if name == "callable":
        return Const(isinstance(a[0], (FuncV, BoundV, ClassV, ExtMethod, ExtV, PartialV))) if not isinstance(
            a[0], Sym) else Sym("callable", a[0], typ="bool")
    if name == "bool":
        if not a:
            return FALSE
        t = self.known_truth(a[0])
        if t is not None:
            return Const(t)
        v = P(a[0])
        if isinstance(v, Sym) and v.typ == "bool":
            return v
        if isinstance(v, (ListV, DictV, SetV)):
            return Sym("nonempty", v.base, typ="bool")
        return Sym("bool", self.term(v), typ="bool")
    if name in ("int", "float"):
        if not a:
            return Const(0 if name == "int" else 0.0)
        v = P(a[0])
        if isinstance(v, EnumV):
            return P(v.value) if isinstance(P(v.value), (Const, Sym)) else v.value
        base = [P(x) for x in a[1:]] + [P(x) for x in kwargs.values()]
        if isinstance(v, Const) and all(isinstance(b, Const) for b in base):
            try:
                return Const(getattr(builtins, name)(v.v, *[b.v for b in base]))
            except (TypeError, ValueError) as e:
                self.raise_(type(e).__name__, str(e), node)
        if isinstance(v, Sym) and v.typ == "int" and name == "int" and not base:
            return v
        if not base and number_text(v, name) is not None:
            return number_text(v, name)
        if isinstance(v, InstV):
            f = self.class_attr(v.cls, "__%s__" % name)
            if isinstance(f, FuncV):
                return self.call_func(f, [v], {}, node)
        if isinstance(v, Sym) and isinstance(v.typ, ClassV) and v.typ.enum_members is not None and name == "int":
            return v.args[1] if v.op == "enum" else Sym("int", v, typ="int")
        if not base:
            if not (isinstance(v, Sym) and v.typ == "bool"):
                self.may_raise("ValueError", "TypeError")
            return Sym(name, self.term(v), typ=name)
        self.may_raise("ValueError")
        return Sym(name, self.term(v), *[self.term(b) for b in base], typ=name)
    if name == "str":
        if not a:
            return Const("")
        v = a[0]
        if isinstance(v, InstV):
            f = self.class_attr(v.cls, "__str__")
            if not isinstance(f, FuncV) and isinstance(self.prim(v), InstV):
                f = self.class_attr(v.cls, "__repr__")
            if isinstance(f, FuncV) and not self.cfg.__dict__.get("opaque_str"):
                return self.call_func(f, [v], {}, node)
        v = P(v)
        if isinstance(v, EnumV):
            f = self.class_attr(v.cls, "__str__")
            if isinstance(f, FuncV):
                return self.call_func(f, [v], {}, node)
        if isinstance(v, Const) and n == 1:
            return Const(str(v.v))
        if isinstance(v, Sym) and v.typ == "str":
            return v
        return Sym("str", self.term(v), *[self.term(x) for x in a[1:]], typ="str")
    if name == "format" and a and isinstance(a[0], InstV):
        return self.fmt_value(a[0], "", a[1] if n > 1 else None)
    if name in ("repr", "ascii"):
        if isinstance(a[0], InstV):
            f = self.class_attr(a[0].cls, "__repr__")
            if isinstance(f, FuncV) and not self.cfg.__dict__.get("opaque_str"):
                return self.call_func(f, [a[0]], {}, node)
        v = P(a[0])
        if isinstance(v, Const):
            return Const(repr(v.v))
        return Sym("repr", self.term(v), typ="str")
    if name in ("bytes", "bytearray", "memoryview"):
        if not a:
            r = Const(b"")
        else:
            v = P(a[0])
            if isinstance(v, Const) and isinstance(v.v, bytes):
                r = v
            elif isinstance(v, Const) and isinstance(v.v, int):
                r = Const(bytes(v.v)) if v.v < 65536 else Sym("bytes", v, typ="bytes")
            elif isinstance(v, Sym) and v.typ == "bytes":
                r = v
            elif isinstance(v, ListV) and v.base is None and all(isinstance(P(i), Const) for i in v.items):
                r = Const(bytes([P(i).v for i in v.items]))
            elif isinstance(v, Const) and isinstance(v.v, str) and len(a) > 1:
                r = Const(v.v.encode(a[1].v))
            else:
                r = Sym("bytes", self.term(v), typ="bytes")
        return BufV(r) if name == "bytearray" else r
    if name == "list":
        out = ListV()
        if a:
            self.list_extend(out, a[0], node, quiet=True)
        return out
    if name == "tuple":
        if not a:
            return TupleV([])
        kn = self.known_items(a[0])
        if kn is not None:
            return TupleV(kn)
        p = P(a[0])
        return ListV([], base=self.iter_source(a[0]), kind="tuple", elem=getattr(p, "elem", None))
    if name in ("dict", "collections.OrderedDict"):
        d = DictV()
        if a:
            self.dict_update(d, a[0], node, quiet=True)
        kw = dict(kwargs)
        rest = kw.pop("$rest", None)
        for k, v in kw.items():
            d.entries[key(Const(k))] = (Const(k), v)
        if rest is not None:
            d.base = self.term(rest)
        return d
    if name in ("set", "frozenset"):
        s = SetV()
        if a:
            kn = self.known_items(a[0])
            if kn is None:
                s.base = self.iter_source(a[0])
            else:
                for x in kn:
                    s.entries[key(P(x))] = x
        return s
    if name == "range":
        if all(isinstance(P(x), Const) for x in a):
            r = range(*[P(x).v for x in a])
            if not r or (r[-1] - r[0]) // r.step < 300:
                return ListV([Const(i) for i in r], kind="range")
        def el(it, src, idx, a=a):
            return Sym("rangeitem", src, idx, typ="int")
        return ListV([], base=Sym("range", *[self.term(P(x)) for x in a]), kind="range", elem=el)
    if name == "enumerate":
        start = P(a[1]) if n > 1 else P(kwargs.get("start", Const(0)))
        kn = self.known_items(a[0])
        if kn is not None and isinstance(start, Const):
            return ListV([TupleV([Const(i + start.v), x]) for i, x in enumerate(kn)])
        p = P(a[0])
        if isinstance(p, IterV) or (isinstance(p, ListV) and p.items):
            return IterV([], base=Sym("enumerate", self.term(p)), gen=(TupleV([lin_add(Const(i), start), x]) for i, x in enumerate(self.iterate(a[0], node))))
        src = self.iter_source(a[0])
        cont = a[0]
        def el(it, s, idx):
            i = Const(idx) if isinstance(idx, int) else Sym("index", src, idx, typ="int")
            return TupleV([lin_add(i, start) if lin_add(i, start) is not None else i, it.generic_elem(cont, src, idx)])
        return ListV([], base=src, elem=el)
    if name == "zip":
        kns = [self.known_items(x) for x in a]
        if all(k is not None for k in kns):
            return ListV([TupleV(t) for t in zip(*kns)])
        srcs = [self.iter_source(x) for x in a]
        def el(it, s, idx):
            out = []
            for x, kn, src in zip(a, kns, srcs):
                if kn is not None and isinstance(idx, int):
                    if idx >= len(kn):
                        raise_infeasible()
                    out.append(kn[idx])
                else:
                    out.append(it.generic_elem(x, src, idx))
            return TupleV(out)
        return ListV([], base=Sym("zip", *srcs), elem=el)
    if name in ("reversed", "sorted", "iter"):
        kn = self.known_items(a[0])
        if kn is not None:
            if name == "reversed":
                return ListV(kn[::-1])
            if name == "iter":
                return a[0] if isinstance(a[0], IterV) else IterV(kn)
            o = ordered(self, kn, kwargs, node)
            if o is not None:
                return ListV(o)
        p = P(a[0])
        if name == "iter":
            if isinstance(p, IterV):
                return p
            return IterV([], base=self.iter_source(a[0]), elem=getattr(p, "elem", None), gen=self.iterate(a[0], node))
        return ListV([], base=Sym(name, self.iter_source(a[0])), elem=getattr(p, "elem", None))
    if name == "next":
        if isinstance(a[0], IterV):
            if a[0].gen is not None:
                try:
                    return next(a[0].gen)
                except StopIteration:
                    pass
            elif a[0].items:
                self.progress += 1
                return a[0].items.pop(0)
            if n > 1:
                return a[1]
            self.raise_("StopIteration", "", node)
        kn = self.known_items(a[0])
        if kn is not None:
            if kn:
                return kn[0]
            if n > 1:
                return a[1]
            self.raise_("StopIteration", "", node)
        if n > 1:
            p = P(a[0])
            src = self.iter_source(a[0])
            if self.truth(Sym("nonempty", src), node):
                return self.generic_elem(a[0], src, 0)
            return a[1]
        self.may_raise("StopIteration")
        return self.generic_elem(a[0], self.iter_source(a[0]), 0)
    if name in ("map", "filter"):
        kn = self.known_items(a[1])
        if kn is not None:
            if name == "map":
                return ListV([self.call(a[0], [x], {}, node) for x in kn])
            return ListV([x for x in kn if self.truth(x if isinstance(a[0], Const) else self.call(a[0], [x], {}, node), node)])
        src = self.iter_source(a[1])
        cont = a[1]
        if name == "map":
            return ListV([], base=Sym("map", self.term(a[0]), src), elem=lambda it, s, idx: it.call(
                a[0], [it.generic_elem(cont, src, idx)], {}, node))
        return ListV([], base=Sym("filter", self.term(a[0]), src), elem=lambda it, s, idx: it.generic_elem(cont, src, idx))
    if name in ("min", "max") and n >= 2:
        vs = [P(x) for x in a]
        if all(isinstance(v, Const) for v in vs):
            return Const(getattr(builtins, name)(*[v.v for v in vs]))
        best = a[0]
        for x in a[1:]:
            lt = self.less(x, best) if name == "min" else self.less(best, x)
            if self.nofork:
                best = Sym(name, self.term(best), self.term(x), typ="int")
            elif self.truth(lt, node):
                best = x
        return best
    if name in ("min", "max", "sum"):
        kn = self.known_items(a[0])
        if kn is not None and kn and name != "sum":
            return call_ext(self, name, kn, {}, node) if len(kn) > 1 else kn[0]
        if kn is not None and name == "sum":
            tot = a[1] if n > 1 else Const(0)
            import ast
            for x in kn:
                tot = self.binop(ast.Add(), tot, x, node)
            return tot
        return Sym(name, self.iter_source(a[0]), typ="int" if name == "sum" else None)
    if name in ("any", "all"):
        kn = self.known_items(a[0])
        if kn is not None:
            if not kn:
                return Const(name == "all")
            ts = [self.known_truth(x) for x in kn]
            if name == "any":
                if any(t is True for t in ts):
                    return TRUE
                rest = [x for x, t in zip(kn, ts) if t is None]
                return FALSE if not rest else (rest[0] if len(rest) == 1 else Sym("or", *[self.term(P(x)) for x in rest], typ="bool"))
            if any(t is False for t in ts):
                return FALSE
            rest = [x for x, t in zip(kn, ts) if t is None]
            return TRUE if not rest else (rest[0] if len(rest) == 1 else Sym("and", *[self.term(P(x)) for x in rest], typ="bool"))
        return Sym(name, self.iter_source(a[0]), typ="bool")
    if name == "divmod":
        import ast
        for o, n2, other in ((a[0], "__divmod__", a[1]), (a[1], "__rdivmod__", a[0])):
            d = self.user_op(o, n2, [other])
            if d is not None:
                return d
        x, y = P(a[0]), P(a[1])
        return TupleV([self.binop(ast.FloorDiv(), x, y, node), self.binop(ast.Mod(), x, y, node)])
    if name in ("abs", "chr", "ord", "hex", "round", "pow"):
        vs = [P(x) for x in a]
        if name in ("abs", "pow", "round") and isinstance(a[0], InstV):
            d = self.user_op(a[0], f"__{name}__", list(a[1:]))
            if d is not None:
                return d
        if name == "pow" and n == 2:
            return self.binop(__import__("ast").Pow(), vs[0], vs[1], node)
        if all(isinstance(v, Const) for v in vs):
            try:
                return Const(getattr(builtins, name)(*[v.v for v in vs]))
            except (TypeError, ValueError) as e:
                self.raise_(type(e).__name__, str(e), node)
        return Sym(name, *[self.term(v) for v in vs], typ={"chr": "str", "hex": "str", "pow": "int" if n == 3 else None}.get(name, "int"))
    if name == "id":
        if not self.init and isinstance(a[0], Heap):
            self.id_log.append((a[0], [f.self0 for f in self.frames if f.self0 is not None], dict(self.frames[0].vars) if self.frames else {}))
        return Sym("id", a[0] if isinstance(a[0], Heap) else self.term(a[0]), typ="int")
    if name == "hash":
        if not hashable(self, a[0]):
            self.raise_("TypeError", "unhashable", node)
        hf = self.class_attr(a[0].cls, "__hash__") if isinstance(a[0], InstV) else None
        if isinstance(hf, FuncV):
            return self.call_func(hf, [a[0]], {}, node)
        return Sym("hash", a[0] if isinstance(a[0], Heap) else self.term(a[0]), typ="int")
    if name.endswith(".__hash__") and len(a) == 1:
        return Sym("hash", a[0] if isinstance(a[0], Heap) else self.term(a[0]), typ="int")
    if name == "weakref.ref":
        if not weakrefable(self, a[0]):
            self.raise_("TypeError", "cannot create weak reference", node)
        return Sym("weakref", a[0] if isinstance(a[0], Heap) else self.term(a[0]))
    if name == "__xpath__":
        return ListV(xpath(self, a[0], P(a[1]).v))
    if name == "__xiter__":
        return ListV([e for e in xiter(self, a[0]) if P(a[1]).v in (None, "*") or P(self.getattr(e, "tag", None)).v == P(a[1]).v])
    if name == "dir" and len(a) == 1 and isinstance(a[0], (InstV, ClassV)):
        o = a[0]
        names = set(dir(object))
        for c in (o.cls if isinstance(o, InstV) else o).mro:
            if isinstance(c, ClassV):
                names |= set(c.ns)
            else:
                names |= set(dir(real_class(c) or object))
        if isinstance(o, InstV):
            names |= set(o.attrs)
        return ListV([Const(n) for n in sorted(names) if isinstance(n, str) and not n.startswith("$")])
    if name == "dir":
        t = a[0]
        if isinstance(t, ClassV):
            names = sorted({k for c in t.mro if isinstance(c, ClassV) for k in c.ns if not k.startswith("$")})
            return ListV([Const(x) for x in names])
        return ListV([], base=Sym("dir", self.term(t)))
    if name in ("vars", "globals", "locals"):
        return Sym("call", ExtV(name), *[self.term(x) for x in a])
    if name == "slice":
        return Sym("sliceobj", *([NONE] * (1 if n == 1 else 0)), *a, *([NONE] * (2 - n if n < 3 else 0) if n > 1 else [NONE]))
    if name == "print":
        self.effect("extcall", ExtV(name), name, NONE)
        return NONE
    if name == "property":
        return PropV(a[0] if a else kwargs.get("fget", NONE), a[1] if n > 1 else kwargs.get("fset"))
    if name == "staticmethod":
        return StaticV(a[0])
    if name == "classmethod":
        return ClassMethodV(a[0])
    if name == "object":
        return InstV(self.object_class())
    if name == "object.__new__":
        return self.alloc(a[0], [], {})
    if name in ("object.__init__", "object.__init_subclass__"):
        return NONE
    if name in ("object.__setattr__",):
        k = P(a[1])
        self.effect("setattr", a[0], k.v, a[2])
        if isinstance(a[0], InstV):
            self.j_set(a[0].attrs, k.v, a[2], a[0])
        return NONE
    if name == "object.__getattribute__":
        return self.getattr(a[0], P(a[1]).v, node, native=True)
    if name in ("typing.cast",):
        return a[1]
    if name in ("typing.TypeVar", "typing.NewType"):
        return Sym("call", ExtV(name), a[0])
    if name == "functools.partial":
        return PartialV(a[0], list(a[1:]), dict(kwargs))
    if name == "functools.reduce":
        kn = self.known_items(a[1])
        if kn is not None:
            acc = a[2] if n > 2 else kn.pop(0)
            for x in kn:
                acc = self.call(a[0], [acc, x], {}, node)
            return acc
    if name == "collections.namedtuple":
        return self.make_namedtuple(a, node)
    if name == "collections.defaultdict":
        return DictV()
    if name == "memoryview" and n == 1 and not kwargs:
        p0 = P(a[0])
        return p0.val if isinstance(p0, BufV) else p0
    if name == "struct.calcsize" and isinstance(P(a[0]), Const):
        return Const(_struct.calcsize(P(a[0]).v))
    if name == "struct.pack":
        f = P(a[0])
        vals = [self.prim(x) for x in a[1:]]
        vals = [P(v.value) if isinstance(v, EnumV) and self.enum_is_int(v.cls) else v for v in vals]
        if isinstance(f, Const):
            if all(isinstance(v, Const) for v in vals):
                try:
                    return Const(_struct.pack(f.v, *[v.v for v in vals]))
                except _struct.error:
                    self.raise_("struct.error", "", node)
            return Sym("struct", f.v, *[self.term(v) for v in vals], typ="bytes")
    if name in ("struct.unpack", "struct.unpack_from"):
        f = P(a[0])
        if isinstance(f, Const):
            src = P(a[1])
            off = P(a[2]) if n > 2 else P(kwargs.get("offset", Const(0)))
            fields = _struct_fields(f.v)
            if isinstance(src, Const) and isinstance(src.v, bytes) and isinstance(off, Const):
                try:
                    if name == "struct.unpack":
                        return TupleV([Const(x) for x in _struct.unpack(f.v, src.v)])
                    return TupleV([Const(x) for x in _struct.unpack_from(f.v, src.v, off.v)])
                except _struct.error:
                    self.raise_("struct.error", "", node)
            if name == "struct.unpack":
                size = Const(_struct.calcsize(f.v))
            known = _unpack_cells(self, src, off, fields, f.v if name == "struct.unpack" else None)
            if known is not None:
                return TupleV(known)
            items = []
            base, lo, hi = src, Const(0), None
            if isinstance(src, Sym) and src.op == "slice" and isinstance(src.args[3], Const) and src.args[3].v is None:
                base, lo, hi = src.args[0], src.args[1], src.args[2]
                if isinstance(lo, Const) and lo.v is None:
                    lo = Const(0)
            lo = lin_add(lo, off) if lin_add(lo, off) is not None else lo
            for fm, o, sz in fields:
                pos = lin_add(lo, Const(o))
                items.append(Sym("unpacked", base, fm, pos, typ="int"))
            if name == "struct.unpack":
                self.effect("unpack", base, f.v, TupleV([lo, hi if hi is not None else NONE]))
            if name == "struct.unpack" and not self.nofork:
                self.may_raise("struct.error")
            return TupleV(items)
    if name in ("int.from_bytes",):
        src = P(a[0])
        if isinstance(src, Const) and len(a) > 1:
            return Const(int.from_bytes(src.v, P(a[1]).v, **{k: P(v).v for k, v in kwargs.items()}))
        order = P(a[1]) if n > 1 else P(kwargs.get("byteorder", Const("big")))
        if isinstance(src, Sym) and src.op == "slice" and not parted(src) and isinstance(src.args[1], Const) and isinstance(src.args[2], Const) and isinstance(order, Const):
            lo = src.args[1].v or 0
            size = src.args[2].v - lo
            ch = {1: "B", 2: "H", 4: "I", 8: "Q"}.get(size)
            if ch:
                if "signed" in kwargs and P(kwargs["signed"]).v:
                    ch = ch.lower()
                return Sym("unpacked", src.args[0], ("<" if order.v == "little" else ">") + ch if size > 1 else ch, Const(lo), typ="int")
        sg = P(kwargs.get("signed", FALSE))
        ln = self.m_len(src)
        if isinstance(src, Sym) and isinstance(order, Const) and isinstance(ln, Const) and isinstance(sg, Const):
            v = _read_cells(self, src, Const(0), ln.v, order.v, bool(sg.v))
            if v is not None:
                return v
        return Sym("from_bytes", self.term(src), self.term(order), typ="int")
    if name == "uuid.UUID":
        pa, pk = [P(x) for x in a], {k: P(x) for k, x in kwargs.items()}
        if all(isinstance(x, Const) for x in pa) and all(isinstance(x, Const) for x in pk.values()):
            try:
                return Const(_uuid.UUID(*[x.v for x in pa], **{k: x.v for k, x in pk.items()}))
            except (ValueError, TypeError) as e:
                self.raise_(type(e).__name__, str(e), node)
    if name == "bytes.fromhex" and isinstance(P(a[0]), Const):
        return Const(bytes.fromhex(P(a[0]).v))
    if name in ("copy.copy",) and isinstance(a[0], (ListV, DictV)):
        if isinstance(a[0], ListV):
            return ListV(a[0].items, a[0].base, elem=a[0].elem)
        d = DictV(a[0].base, elem=a[0].elem)
        d.entries.update(a[0].entries)
        return d
    if name == "str.join" and n == 2:
        return str_method(self, a[0], "join", [a[1]], kwargs, node)
    if name == "dict.fromkeys":
        d = DictV()
        kn = self.known_items(a[0])
        if kn is None:
            d.base = Sym("fromkeys", self.iter_source(a[0]))
        else:
            for k in kn:
                d.entries[key(k)] = (k, a[1] if n > 1 else NONE)
        return d
    if name == "inspect.signature" and isinstance(a[0], (FuncV, BoundV)):
        f = a[0] if isinstance(a[0], FuncV) else a[0].func
        ar = f.node.args
        d = DictV()
        def par(nm, kind, default):
            o = InstV(self.object_class())
            o.attrs.update(name=Const(nm), kind=ExtV("inspect.Parameter." + kind), default=default)
            d.entries[key(Const(nm))] = (Const(nm), o)
        empty = ExtV("inspect.Parameter.empty")
        pos = [(x.arg, "POSITIONAL_ONLY") for x in ar.posonlyargs] + [(x.arg, "POSITIONAL_OR_KEYWORD") for x in ar.args]
        if isinstance(a[0], BoundV):
            pos = pos[1:]
        for i, (nm, k) in enumerate(pos):
            j = i - (len(pos) - len(f.defaults))
            par(nm, k, f.defaults[j] if j >= 0 else empty)
        if ar.vararg:
            par(ar.vararg.arg, "VAR_POSITIONAL", empty)
        for x in ar.kwonlyargs:
            par(x.arg, "KEYWORD_ONLY", f.kwdefaults.get(x.arg, empty))
        if ar.kwarg:
            par(ar.kwarg.arg, "VAR_KEYWORD", empty)
        o = InstV(self.object_class())
        o.attrs["parameters"] = d
        return o
    if name == "enum.auto":
        return Sym("call", ExtV(name))
    if name in ("base64.b64decode", "base64.standard_b64decode", "binascii.a2b_base64") and n == 1 and not kwargs:
        v = P(a[0])
        if isinstance(v, Const):
            import base64
            try:
                return Const(base64.b64decode(v.v))
            except ValueError as e:
                self.raise_("ValueError", str(e), node)
        while isinstance(v, Sym) and v.op == "mcall" and v.args[0] in ("decode", "encode") and len(v.args) == 2:
            v = v.args[1]
        if isinstance(v, Sym) and v.op == "call" and isinstance(v.args[0], ExtV) and v.args[0].name in _B64[:2] and len(v.args) == 2:
            return v.args[1]
    if name in _B64[:2] and n == 1 and not kwargs and isinstance(P(a[0]), Const) and isinstance(P(a[0]).v, bytes):
        import base64
        return Const(base64.b64encode(P(a[0]).v))
    if name in _PURE and all(isinstance(P(x), Const) for x in list(a) + list(kwargs.values())):
        import importlib
        m, _, f = name.rpartition(".")
        try:
            r = getattr(importlib.import_module(m), f)(*[P(x).v for x in a], **{k: P(v).v for k, v in kwargs.items()})
        except Exception as e:
            self.raise_(type(e).__name__ if hasattr(builtins, type(e).__name__) else "ValueError", str(e), node)
        if isinstance(r, (str, bytes, int, float, bool)):
            return Const(r)
    if name in _CONST_CLS and all(isinstance(P(x), Const) for x in list(a) + list(kwargs.values())):
        try:
            return Const(_CONST_CLS[name](*[P(x).v for x in a], **{k: P(v).v for k, v in kwargs.items()}))
        except (TypeError, ValueError, ArithmeticError) as e:
            self.raise_(type(e).__name__, str(e), node)
    if name.endswith((".__str__", ".__repr__")) and n == 1 and isinstance(P(a[0]), Const) and isinstance(P(a[0]).v, (
            datetime.datetime, datetime.timedelta, decimal.Decimal, int, float)):
        return Const(getattr(type(P(a[0]).v), name.rpartition(".")[2])(P(a[0]).v))
    if name == "uuid.UUID.__init__" and n and isinstance(a[0], InstV):
        kw = {k: P(v) for k, v in kwargs.items()}
        pos = [P(x) for x in a[1:]]
        if not any(isinstance(x, Sym) for x in pos + list(kw.values())):
            try:
                a[0].attrs["$uuid"] = Const(uuid.UUID(*[x.v for x in pos], **{k: v.v for k, v in kw.items()}))
            except (TypeError, ValueError, AttributeError) as e:
                self.raise_(type(e).__name__, str(e), node)
        else:
            v = pos[0] if len(pos) == 1 and not kw else kw.get("int") if not pos and len(kw) == 1 else None
            if isinstance(v, Sym) and v.op == "attr" and v.args[1] in ("int", "hex") and getattr(v.args[0], "typ", None) == "uuid.UUID":
                v = v.args[0]
            elif isinstance(v, Sym) and v.op == "str" and getattr(v.args[0], "typ", None) == "uuid.UUID":
                v = v.args[0]
            else:
                self.may_raise("ValueError")
                v = Sym("call", ExtV("uuid.UUID"), *pos, *_kwterms(self, kwargs), typ="uuid.UUID")
            a[0].attrs["$uuid"] = v
        return NONE
    if name == "uuid.UUID.__str__" and n == 1 and isinstance(a[0], InstV) and "$uuid" in a[0].attrs:
        u = a[0].attrs["$uuid"]
        return Const(str(u.v)) if isinstance(u, Const) else Sym("str", u, typ="str")
    if name.startswith("re.") and len(a) >= 2:
        p = P(a[0])
        if isinstance(p, Const) or isinstance(p, Sym) and p.op == "call" and isinstance(p.args[0], ExtV) and p.args[0].name == "re.compile":
            fl = kwargs.get("flags")
            rx = regex_of(Sym("call", ExtV("re.compile"), p, *([fl] if fl is not None else []))) if isinstance(p, Const) else regex_of(p) if fl is None else None
            r = re_op(self, rx, name[3:], list(a[1:]), {k: v for k, v in kwargs.items() if k != "flags"}, node)
            if r is not None:
                return r
    if name == "warnings.warn":
        return NONE
    if "." in name:
        # an unbound method of a builtin class: str.upper(x), type.__call__(cls, ...), int.__new__(cls, v)
        ty, _, meth = name.rpartition(".")
        if ty in ("type",) and meth == "__call__":
            return self.instantiate(a[0], list(a[1:]), kwargs, node, no_meta=True)
        r = getattr(builtins, ty, None)
        if isinstance(r, type) and hasattr(r, meth) and a:
            if meth == "__new__" and isinstance(a[0], ClassV):
                return self.alloc(a[0], list(a[1:]), kwargs)
            if meth == "__init__":
                return super_ext(self, ExtMethod("__init__", a[0], ty), SuperV(getattr(a[0], "cls", None), a[0], None), list(a[1:]), kwargs, node)
            return self.call_ext_method(ExtMethod(meth, a[0], ty), list(a[1:]), kwargs, node)
        rc = self.real(name.rpartition(".")[0])
        if rc is not None and meth == "__new__" and a and isinstance(a[0], ClassV):
            return self.alloc(a[0], list(a[1:]), kwargs)
    rc = self.real(name)
    if rc is not None and issubclass(rc, BaseException):
        return Sym("call", ExtV(name), *[self.term(x) for x in a])
    if name == "type.__call__":
        return self.instantiate(a[0], list(a[1:]), kwargs, node, no_meta=True)
    typ = None
    if rc is not None and not issubclass(rc, type):
        typ = name
    c, _, meth = name.rpartition(".")
    if meth.startswith("__") and a and isinstance(a[0], InstV) and isinstance(P(a[0]), Const) and isinstance(real_class(c), type):   # T.__op__(x, ..)
        return dunder(self, P(a[0]), meth, list(a[1:]), node)
    return opaque(self, name, a, kwargs, node, typ)


def raise_infeasible():
    from .interp import Infeasible
    raise Infeasible()


def _unpack_cells(self, src, off, fields, exact):
    """The values of packed fields read back from a byte string whose parts are known."""
    if not isinstance(src, Sym) or src.op not in ("cat", "struct", "slice") or lin_parts(off) is None:
        return None
    if exact is not None and key(self.m_len(src)) != key(Const(_struct.calcsize(exact))):
        return None
    out = []
    for fm, o, size in fields:
        v = _read_cells(self, src, lin_add(off, Const(o)), size, "big" if fm[0] == ">" else "little", fm[-1].islower())
        if v is None:
            return None
        out.append(v)
    return out


def _read_cells(self, src, off, size, order, signed=False):
    """The integer packed in src[off:off + size], or None"""
    from .wire import NoLayout, cells
    from .ropes import slice_rope
    piece = slice_rope(self, src, off, lin_add(off, Const(size)))
    if piece is None or isinstance(piece, Sym) and piece.op == "slice":
        return None
    try:
        c = cells(piece)
    except NoLayout:
        return None
    if len(c) != size:
        return None
    if all(x[0] == "c" for x in c):
        return Const(int.from_bytes(bytes(x[1] for x in c), order, signed=signed))
    if all(x[0] == "f" and x[3] == size for x in c) and len({x[1] for x in c}) == 1:
        sig = [x[2] for x in c]
        if (sig[::-1] if order == "big" else sig) == list(range(size)):
            return c[0].term
    return None


def _struct_fields(fmt):
    order = ""
    f = fmt
    if f and f[0] in "<>!=@":
        order, f = f[0], f[1:]
    out = []
    cnt = ""
    pos = 0
    for ch in f:
        if ch.isdigit():
            cnt += ch
            continue
        if ch == " ":
            continue
        if ch == "s":
            nb = int(cnt or 1)
            out.append((f"{nb}s", pos, nb))
            pos += nb
        elif ch == "x":
            pos += int(cnt or 1)
        else:
            for _ in range(int(cnt or 1)):
                o = order if order and order != "!" else (">" if order == "!" else "")
                size = _struct.calcsize(o + ch)
                if not order:
                    pos = (pos + size - 1) // size * size
                out.append(((o if size > 1 else "") + ch, pos, size))
                pos += size
        cnt = ""
    return out


def call_ext_method(self, m, args, kwargs, node):
    o, name = m.self, m.name
    P = self.prim
    if isinstance(o, SuperV):
        return super_ext(self, m, o, args, kwargs, node)
    if isinstance(o, BufV):
        return buf_method(self, o, name, args, kwargs, node)
    if isinstance(o, ListV):
        return self.list_method(o, name, args, kwargs, node)
    if isinstance(o, DictV):
        return self.dict_method(o, name, args, kwargs, node)
    if isinstance(o, SetV):
        return self.set_method(o, name, args, kwargs, node)
    if isinstance(o, TupleV):
        if name in ("index", "count"):
            if name == "index":
                for i, x in enumerate(o.items):
                    r = self.eq(x, args[0])
                    if isinstance(r, Const) and r.v:
                        return Const(i)
                self.may_raise("ValueError")
                return Sym("index", self.term(o), self.term(args[0]), typ="int")
        return Sym("mcall", name, self.term(o), *[self.term(a) for a in args])
    if isinstance(o, PropV):
        if name == "setter":
            return PropV(o.fget, args[0])
        return o
    if isinstance(o, Const):
        return self.str_method(o, name, args, kwargs, node)
    if isinstance(o, InstV):
        p = P(o)
        if isinstance(p, (ListV, DictV, SetV)):
            return call_ext_method(self, ExtMethod(name, p), args, kwargs, node)
        if name in ("__init__", "__init_subclass__", "__setattr__", "__getattribute__", "__new__"):
            return super_ext(self, m, SuperV(o.cls, o, None), args, kwargs, node)
        if name in ("__str__", "__repr__"):
            if isinstance(p, Const) and name == "__str__":
                return Const(str(p.v))
            return Sym(name.strip("_"), self.term(p), typ="str")
        if name == "__hash__":
            return Sym("hash", self.term(p), typ="int")
        if name == "__eq__":
            return self.eq(p, args[0])
        if name.startswith("__") and name.endswith("__"):
            return dunder(self, p, name, args, node)
        if name == "_replace" and "$fields" in o.attrs:
            n = InstV(o.cls)
            n.attrs.update(o.attrs)
            n.attrs.update(kwargs)
            return n
        if name == "_asdict" and "$fields" in o.attrs:
            d = DictV()
            for f in o.attrs["$fields"]:
                d.entries[key(Const(f))] = (Const(f), o.attrs[f])
            return d
        if isinstance(p, Const) or (isinstance(p, Sym) and p is not o):
            return self.str_method(p, name, args, kwargs, node)
        t = Sym("mcall", name, self.term(p), *[self.term(P(a)) for a in args], *_kwterms(self, kwargs),
                typ=_METHOD_TYPE.get(name))
        self.effect("mcall", o, name, t)
        self.may_raise()
        return t
    if isinstance(o, EnumV):
        p = P(o.value)
        if name in ("__str__", "__repr__"):
            return Sym(name.strip("_"), o, typ="str")
        if name.startswith("__"):
            return dunder(self, p, name, args, node)
        return self.str_method(p, name, args, kwargs, node)
    if isinstance(o, Sym):
        return self.str_method(o, name, args, kwargs, node)
    t = Sym("mcall", name, self.term(o), *[self.term(P(a)) for a in args], *_kwterms(self, kwargs))
    self.effect("mcall", o, name, t)
    return t


def dunder(self, p, name, args, node):
    import ast
    ops = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "floordiv": ast.FloorDiv, "mod": ast.Mod, "and": ast.BitAnd,
           "or": ast.BitOr, "xor": ast.BitXor, "lshift": ast.LShift, "rshift": ast.RShift, "pow": ast.Pow,
           "truediv": ast.Div}
    n = name.strip("_")
    if n == "pow" and len(args) == 2:
        return self.call_ext("pow", [p] + list(args), {}, node)
    if n in ops and args:
        return self.binop(ops[n](), p, self.prim(args[0]), node)
    if n == "eq":
        return self.eq(p, args[0])
    if n == "ne":
        return self.neg(self.eq(p, args[0]))
    if n == "lt":
        return self.less(p, args[0])
    if n == "le":
        return self.less_eq(p, args[0])
    if n == "gt":
        return self.less(args[0], p)
    if n == "ge":
        return self.less_eq(args[0], p)
    if n == "len":
        return self.m_len(p)
    if n == "getitem":
        return self.get_item(p, args[0], node)
    if n == "setitem":
        self.set_item(p, args[0], args[1], node)
        return NONE
    if n == "contains":
        return self.contains(p, args[0], node)
    if n == "int":
        return self.call_ext("int", [p], {}, node)
    if n in ("str", "repr"):
        return self.call_ext(n, [p], {}, node)
    if n == "hash":
        return Sym("hash", self.term(p), typ="int")
    if n in ("neg", "abs", "invert", "pos") and isinstance(p, Const):
        return Const({"neg": lambda x: -x, "abs": abs, "invert": lambda x: ~x, "pos": lambda x: x}[n](p.v))
    if n == "neg" and self.intlike(p):
        return lin_mul(Const(-1), p)
    if n == "invert" and self.intsure(p):
        return lin_add(Const(-1), p, -1)
    if n in ("pos", "trunc", "index", "floor", "ceil") and self.intsure(p):
        return p
    if n == "divmod" and args:
        return self.call_ext("divmod", [p, args[0]], {}, node)
    if n == "pow" and len(args) == 2:
        return self.call_ext("pow", [p] + list(args), {}, node)
    if n == "abs" and self.intsure(p):
        return Sym("abs", self.term(p), typ="int")
    return Sym(n, self.term(p), *[self.term(self.prim(a)) for a in args])


def super_ext(self, m, s, args, kwargs, node):
    """super().<method> that resolves to a builtin or external class."""
    name = m.name
    obj = s.obj
    if name == "__new__":
        cls = args[0] if args else (obj if isinstance(obj, ClassV) else None)
        if isinstance(cls, ClassV):
            if self.enum_new and key(cls) == key(self.enum_new[0].meta):
                ecls, st = self.enum_new
                for k, x in (args[3].entries.values() if len(args) > 3 and isinstance(args[3], DictV) else ()):
                    if isinstance(k, Const):
                        ecls.ns[k.v] = x
                self.make_enum(ecls, st)
                return ecls
            if m.ext == "type":
                return cls
            if any(isinstance(c, ExtV) and c.name == "type" for c in cls.mro):
                return Sym("newclass", *[self.term(a) for a in args])
            return self.alloc(cls, list(args[1:]), kwargs)
        return Sym("new", *[self.term(a) for a in args])
    if name == "__init__":
        if isinstance(obj, InstV):
            p = self.prim(obj)
            if isinstance(p, ListV) and args:
                self.list_extend(p, args[0], node, quiet=True)
            elif isinstance(p, DictV) and (args or kwargs):
                if args:
                    self.dict_update(p, args[0], node, quiet=True)
                for k, v in kwargs.items():
                    p.entries[key(Const(k))] = (Const(k), v)
            rc = [self.real(b.name) for b in self.ext_bases(obj.cls)]
            if any(r and issubclass(r, BaseException) for r in rc):
                obj.attrs["$args"] = TupleV(args)
                obj.attrs["args"] = TupleV(args)
        return NONE
    if name == "__init_subclass__":
        return NONE
    if name == "__setattr__":
        k = self.prim(args[0])
        if self.raw and isinstance(obj, InstV) and isinstance(k, Const):
            self.setattr(obj, k.v, args[1], node, native=True)
            return NONE
        self.effect("setattr", obj, k.v if isinstance(k, Const) else k, args[1])
        if isinstance(obj, InstV) and isinstance(k, Const):
            self.j_set(obj.attrs, k.v, args[1], obj)
        return NONE
    if name == "__getattribute__":
        k = self.prim(args[0])
        if self.raw and isinstance(obj, InstV) and isinstance(k, Const):
            return self.getattr(obj, k.v, node, native=True)
        if isinstance(obj, InstV) and isinstance(k, Const):
            if k.v in obj.attrs:
                return obj.attrs[k.v]
            cv = self.class_attr(obj.cls, k.v)
            if cv is not None:
                return self.bind_attr(cv, obj, obj.cls)
            self.raise_("AttributeError", k.v, node)
        return Sym("attr", self.term(obj), k.v if isinstance(k, Const) else k)
    if name == "__call__" and isinstance(obj, ClassV):
        return self.instantiate(obj, list(args), kwargs, node, no_meta=True)
    if name == "__prepare__":
        return DictV()
    if name in ("__str__", "__repr__", "__hash__", "__eq__"):
        p = self.prim(obj) if not isinstance(obj, EnumV) else self.prim(obj.value)
        if name == "__eq__":
            if p is obj:
                return Sym("eq", *sorted((self.term(obj), self.term(args[0])), key=lambda t: repr(key(t))), typ="bool")
            return self.eq(p, args[0])
        if name == "__str__" and isinstance(p, Const) and m.ext != "object":
            return Const(str(p.v))
        if name == "__str__" and isinstance(p, Sym) and p.typ == "str":
            return p
        return Sym(name.strip("_"), self.term(p), typ="int" if name == "__hash__" else "str")
    if name == "strptime" and isinstance(obj, ClassV) and len(args) == 2 and all(isinstance(self.prim(x), Const) for x in args):
        try:
            return Const(datetime.datetime.strptime(*[self.prim(x).v for x in args]))
        except (TypeError, ValueError) as e:
            self.raise_(type(e).__name__, str(e), node)
    if isinstance(obj, InstV):
        p = self.prim(obj)
        if p is not obj:
            if isinstance(p, (ListV, DictV, SetV)) and not name.startswith("__"):
                return call_ext_method(self, ExtMethod(name, p), args, kwargs, node)
            if name.startswith("__"):
                return dunder(self, p, name, list(args), node)
            return self.str_method(p, name, args, kwargs, node)
    if isinstance(obj, EnumV) and name.startswith("__"):
        return dunder(self, self.prim(obj.value), name, list(args), node)
    t = Sym("supercall", m.ext or "", name, self.term(obj), *[self.term(self.prim(a)) for a in args], *_kwterms(self, kwargs))
    self.effect("supercall", obj, name, t)
    return t


def buf_method(self, o, name, args, kwargs, node):
    """bytearray: a cell holding an immutable byte string."""
    P = self.prim
    if name in ("extend", "append", "__iadd__"):
        v = P(args[0])
        if name == "append":
            v = Const(bytes([v.v & 255])) if isinstance(v, Const) else Sym("byte", self.term(v), typ="bytes")
        elif isinstance(v, ListV):
            v = self.call_ext("bytes", [v], {}, node)
        self.buf_set(o, self.cat([o.val, v], "bytes"), name)
        return NONE
    if name == "clear":
        self.buf_set(o, Const(b""), name)
        return NONE
    if name == "copy":
        return BufV(o.val)
    if name in ("pop", "insert", "remove", "reverse"):
        r = Sym("mcall", name, o.val, *[self.term(P(a)) for a in args], typ=None)
        self.buf_set(o, Sym("mutated", name, o.val, *[self.term(P(a)) for a in args], typ="bytes"), name)
        return r if name == "pop" else NONE
    return self.str_method(o.val, name, args, kwargs, node)


def list_method(self, l, name, args, kwargs, node):
    if name in ("append", "appendleft", "insert", "pop", "popleft", "remove", "clear", "reverse", "sort", "extend"):
        if name == "extend":
            self.list_extend(l, args[0], node)
            return NONE
        self.j_list(l)
        if name == "append":
            self.effect("append", l, None, args[0])
            l.items.append(args[0])
            return NONE
        if name in ("appendleft", "insert"):
            v = args[-1]
            i = self.prim(args[0]) if name == "insert" else Const(0)
            self.effect("insert", l, i, v)
            if isinstance(i, Const) and l.base is None:
                l.items.insert(i.v, v)
            elif i is not None and self.at_end(l, i):
                l.items.append(v)
            else:
                l.base = Sym("inserted", self.term(l), self.term(i), self.term(v))
                l.items = []
            return NONE
        if name in ("pop", "popleft"):
            i = self.prim(args[0]) if args else Const(-1 if name == "pop" else 0)
            self.effect("pop", l, i, None)
            if isinstance(i, Const):
                if l.base is None:
                    if -len(l.items) <= i.v < len(l.items):
                        return l.items.pop(i.v)
                    self.raise_("IndexError", "pop", node)
                if i.v < 0 and -i.v <= len(l.items):
                    return l.items.pop(i.v)
                old = l.base
                if i.v == 0 and l.items and self.known_truth(Sym("nonempty", old)) is False:
                    return l.items.pop(0)
                if not l.items or i.v == 0:
                    if not l.items and not self.truth(Sym("nonempty", old), node):
                        self.raise_("IndexError", "pop", node)
                    v = self.generic_elem(l, old, i.v)
                    l.base = Sym("popped", old, i.v)
                    return v
            v = Sym("item", self.term(l), self.term(i))
            l.base = Sym("popped", self.term(l), self.term(i))
            l.items = []
            return v
        if name == "remove":
            self.effect("remove", l, None, args[0])
            for i, x in enumerate(l.items):
                if key(x) == key(args[0]):
                    del l.items[i]
                    return NONE
            if l.base is None and not any(isinstance(self.eq(x, args[0]), Sym) for x in l.items):
                for i, x in enumerate(l.items):
                    r = self.eq(x, args[0])
                    if isinstance(r, Const) and r.v:
                        del l.items[i]
                        return NONE
                self.raise_("ValueError", "remove", node)
            l.base = Sym("removed", self.term(l), self.term(args[0]))
            l.items = []
            return NONE
        self.effect(name, l, None, None)
        if name == "clear":
            l.items, l.base = [], None
        elif name == "reverse" and l.base is None:
            l.items.reverse()
        elif name == "sort" and l.base is None and (o := ordered(self, l.items, kwargs, node)) is not None:
            l.items[:] = o
        else:
            l.base, l.items = Sym(name + "ed", self.term(l)), []
        return NONE
    if name in ("copy", "__copy__"):
        return ListV(l.items, l.base, elem=l.elem)
    if name == "index":
        for i, x in enumerate(l.items):
            r = self.eq(x, args[0])
            if isinstance(r, Const) and r.v and l.base is None:
                return Const(i)
        if l.base is None and not any(isinstance(self.eq(x, args[0]), Sym) for x in l.items):
            self.raise_("ValueError", "index", node)
        self.may_raise("ValueError")
        return Sym("index", self.term(l), self.term(args[0]), typ="int")
    if name == "count":
        return Sym("count", self.term(l), self.term(args[0]), typ="int")
    if name in ("__iter__",):
        return l
    if name.startswith("__"):
        return dunder(self, l, name, list(args), node)
    return Sym("mcall", name, self.term(l), *[self.term(a) for a in args])


def dict_method(self, d, name, args, kwargs, node):
    if name == "get":
        v = self.dict_get(d, args[0], node)
        return v if v is not None else (args[1] if len(args) > 1 else NONE)
    if name == "pop":
        v = self.dict_get(d, args[0], node)
        if v is None:
            if len(args) > 1:
                return args[1]
            self.raise_("KeyError", "", node)
        self.effect("delitem", d, args[0], v)
        self.j_dict(d)
        kk = self.dkey(d, args[0])
        d.entries.pop(kk, None)
        d.gone.add(kk)
        return v
    if name == "setdefault":
        v = self.dict_get(d, args[0], node)
        if v is not None:
            return v
        v = args[1] if len(args) > 1 else NONE
        self.effect("setitem", d, args[0], v)
        self.j_dict(d)
        kk = self.dkey(d, args[0])
        d.entries[kk] = (args[0], v)
        d.gone.discard(kk)
        return v
    if name in ("keys", "values", "items"):
        if d.base is None:
            if name == "keys":
                return ListV([k for k, _ in d.entries.values()])
            if name == "values":
                return ListV([v for _, v in d.entries.values()])
            return ListV([TupleV([k, v]) for k, v in d.entries.values()])
        base = d.base

        def el(it, src, idx):
            k = Sym("elem", base, idx)
            it.facts[key(Sym("haskey", base, k))] = True
            if name == "keys":
                return k
            v = d.elem(it, base, k) if d.elem is not None else Sym("item", base, k)
            d.entries.setdefault(key(k), (k, v)) if False else None
            return v if name == "values" else TupleV([k, v])
        l = ListV([], base=base, elem=el)
        for k, v in d.entries.values():
            l.items.append(k if name == "keys" else v if name == "values" else TupleV([k, v]))
        return l
    if name == "update":
        if args:
            self.dict_update(d, args[0], node)
        kw = dict(kwargs)
        rest = kw.pop("$rest", None)
        if kw or rest is not None:
            self.effect("update", d, None, NONE)
            self.j_dict(d)
        for k, v in kw.items():
            d.entries[key(Const(k))] = (Const(k), v)
        if rest is not None:
            d.base = self.term(rest) if d.base is None else Sym("merge", d.base, self.term(rest))
        return NONE
    if name in ("copy", "__copy__"):
        n = DictV(d.base, elem=d.elem)
        n.entries.update(d.entries)
        n.gone = set(d.gone)
        return n
    if name == "clear":
        self.effect("clear", d, None, None)
        self.j_dict(d)
        d.entries.clear()
        d.base = None
        return NONE
    if name == "popitem":
        self.effect("popitem", d, None, None)
        self.j_dict(d)
        if d.entries:
            k = list(d.entries)[-1]
            kv = d.entries.pop(k)
            d.gone.add(k)
            return TupleV(kv)
        if d.base is None:
            self.raise_("KeyError", "", node)
        k = Sym("elem", d.base, "last")
        d.gone.add(key(k))
        return TupleV([k, Sym("item", d.base, k)])
    if name == "__setitem__":
        self.set_item(d, args[0], args[1], node)
        return NONE
    if name == "__getitem__":
        return self.get_item(d, args[0], node)
    if name == "__delitem__":
        self.del_item(d, args[0], node)
        return NONE
    if name == "__contains__":
        return self.dict_has(d, args[0])
    if name.startswith("__"):
        return dunder(self, d, name, list(args), node)
    return Sym("mcall", name, self.term(d), *[self.term(a) for a in args])


def set_method(self, s, name, args, kwargs, node):
    if name == "add":
        self.effect("add", s, None, args[0])
        if s.born < self.prog_epoch() and not self.init:
            old = dict(s.entries)
            self.journal.append(lambda: (s.entries.clear(), s.entries.update(old)))
        s.entries[key(self.prim(args[0]))] = args[0]
        return NONE
    if name in ("discard", "remove"):
        self.effect(name, s, None, args[0])
        s.entries.pop(key(self.prim(args[0])), None)
        return NONE
    if name == "copy":
        n = SetV(s.base)
        n.entries.update(s.entries)
        return n
    if name in ("union", "intersection", "difference", "issubset", "issuperset", "isdisjoint"):
        o = self.known_items(args[0]) if args else []
        if s.base is None and o is not None:
            ok = {key(self.prim(x)): x for x in o}
            if name == "issubset":
                return Const(set(s.entries) <= set(ok))
            if name == "issuperset":
                return Const(set(ok) <= set(s.entries))
            if name == "isdisjoint":
                if set(ok) & set(s.entries):
                    return Const(False)
                if all(isinstance(P(x), Const) for P in (self.prim,) for x in list(ok.values()) + list(s.entries.values())):
                    return Const(True)
                return Sym("mcall", name, self.term(s), *[self.term(a) for a in args], typ="bool")
            n = SetV()
            n.entries = {"union": {**s.entries, **ok}, "intersection": {k: v for k, v in s.entries.items() if k in ok},
                         "difference": {k: v for k, v in s.entries.items() if k not in ok}}[name]
            return n
    if name in ("update", "clear", "pop"):
        self.effect(name, s, None, None)
    return Sym("mcall", name, self.term(s), *[self.term(a) for a in args])


def str_method(self, o, name, args, kwargs, node):
    """Methods of constants and unknown values."""
    from .interp import _PURE_STR
    P = self.prim
    o = P(o)
    pa = [P(a) for a in args]
    if isinstance(o, Sym) and o.op == "call" and isinstance(o.args[0], ExtV) and o.args[0].name == "re.compile":
        r = re_op(self, regex_of(o), name, args, kwargs, node)
        if r is not None:
            return r
    if isinstance(o, Sym) and o.op == "call" and isinstance(o.args[0], ExtV) and o.args[0].name == "struct.Struct" and name in (
            "pack", "unpack", "unpack_from"):
        return self.call_ext("struct." + name, [o.args[1]] + list(args), kwargs, node)
    if name == "to_bytes" and isinstance(o, Sym):
        ln = pa[0] if pa else P(kwargs.get("length", Const(1)))
        order = pa[1] if len(pa) > 1 else P(kwargs.get("byteorder", Const("big")))
        signed = P(kwargs.get("signed", FALSE))
        if isinstance(ln, Const) and isinstance(order, Const) and isinstance(signed, Const) and ln.v in (1, 2, 4, 8):
            ch = {1: "B", 2: "H", 4: "I", 8: "Q"}[ln.v]
            return Sym("struct", ("<" if order.v == "little" else ">") + (ch.lower() if signed.v else ch), self.term(o), typ="bytes")
    if isinstance(o, Const):
        if o.v is None:
            self.raise_("AttributeError", name, node)
        if type(o.v).__name__ == "Match" and all(isinstance(a, Const) for a in pa):
            r = getattr(o.v, name)(*[a.v for a in pa])
            if isinstance(r, tuple):
                return TupleV([Const(x) for x in r])
            if isinstance(r, dict):
                d = DictV()
                for k, v in r.items():
                    d.entries[key(Const(k))] = (Const(k), Const(v))
                return d
            return Const(r)
        if name == "join" and isinstance(o.v, (str, bytes)):
            kn = self.known_items(args[0])
            ty = "bytes" if isinstance(o.v, bytes) else "str"
            if kn is not None:
                parts = []
                for i, x in enumerate(kn):
                    if i and o.v:
                        parts.append(o)
                    px = P(x)
                    if isinstance(px, Sym) and px.op == "star":
                        px = Sym("join", o, px, typ=ty)
                    parts.append(px)
                return self.cat(parts, ty)
            p = P(args[0])
            if isinstance(p, ListV) and p.base is not None and not o.v:
                return self.cat([Sym("join", o, p.base, typ=ty)] + [P(x) for x in p.items], ty)
            return Sym("join", o, self.term(p), typ=ty)
        if name == "format" and isinstance(o.v, str):
            if all(isinstance(a, Const) for a in pa) and all(isinstance(P(v), Const) for v in kwargs.values()):
                try:
                    return Const(o.v.format(*[a.v for a in pa], **{k: P(v).v for k, v in kwargs.items()}))
                except (IndexError, KeyError, ValueError) as e:
                    self.raise_(type(e).__name__, str(e), node)
            return format_term(self, o.v, args, kwargs)
        if name in _PURE_STR and all(isinstance(a, Const) for a in pa) and all(isinstance(P(v), Const) for v in kwargs.values()):
            try:
                r = getattr(o.v, name)(*[a.v for a in pa], **{k: P(v).v for k, v in kwargs.items()})
            except Exception as e:
                self.raise_(type(e).__name__, str(e), node)
            if isinstance(r, list):
                return ListV([Const(x) for x in r])
            if isinstance(r, tuple):
                return TupleV([Const(x) for x in r])
            return Const(r)
        if name in ("startswith", "endswith") and isinstance(args[0], TupleV) and all(isinstance(P(x), Const) for x in args[0].items):
            return Const(getattr(o.v, name)(tuple(P(x).v for x in args[0].items)))
        if name.startswith("__"):
            return dunder(self, o, name, list(args), node)
    if isinstance(o, Sym):
        if o.op == "generic":
            return self.call(self.getattr(o.args[0], name, node), args, kwargs, node)
        if name == "join" and o.typ in ("str", "bytes"):
            return Sym("join", o, self.term(P(args[0])), typ=o.typ)
        if name in ("keys", "values", "items") and not args:
            d = DictV(base=o)
            return self.dict_method(d, name, [], {}, node)
        if name in ("__eq__", "__ne__", "__lt__", "__len__", "__getitem__"):
            return dunder(self, o, name, list(args), node)
        if name in ("startswith", "endswith") or name.startswith("is") and o.typ == "str":
            return Sym("mcall", name, o, *[self.term(a) for a in pa], typ="bool")
    if name in ("upper", "lower", "strip") and not pa and isinstance(o, Sym) and o.op in ("str", "repr") and isinstance(o.args[0], Sym) and o.args[0].typ == "int":
        return o
    if name in ("encode", "decode") and isinstance(o, Sym):
        e = codec(pa, kwargs, P)
        if e and o.op == "mcall" and o.args[0] == {"encode": "decode", "decode": "encode"}[name] and codec(list(o.args[2:]), {}, P) == e:
            return o.args[1]
        if e in _ASCII and name == "decode" and o.op == "call" and isinstance(o.args[0], ExtV) and o.args[0].name in _B64:
            return Sym("mcall", name, o, typ="str")
    typ = _METHOD_TYPE.get(name)
    if name in ("strip", "lstrip", "rstrip", "upper", "lower", "ljust", "rjust", "replace", "zfill") and isinstance(o, Sym) and o.typ in ("str", "bytes"):
        typ = o.typ
    if name in ("split", "rsplit", "splitlines", "findall"):
        t = Sym("mcall", name, self.term(o), *[self.term(a) for a in pa], *[Sym("kw", k, self.term(P(v))) for k, v in sorted(kwargs.items())])
        self.effect("mcall", o, name, t)
        return ListV([], base=t)
    t = Sym("mcall", name, self.term(o), *[self.term(a) for a in pa],
            *[Sym("kw", k, self.term(P(v))) for k, v in sorted(kwargs.items())], typ=typ)
    self.effect("mcall", o, name, t)
    self.may_raise()
    return t


def format_term(self, fmt, args, kwargs):
    import string
    parts = []
    auto = 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(fmt):
            if lit:
                parts.append(Const(lit))
            if field is None:
                continue
            if field == "":
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field in kwargs:
                v = kwargs[field]
            else:
                raise KeyError
            parts.append(self.fmt_value(v, conv or "", Const(spec) if spec else None))
        return self.cat(parts, "str")
    except Exception:
        return Sym("format", fmt, *[self.term(self.prim(a)) for a in args], *_kwterms(self, kwargs), typ="str")


_ASCII = ("ascii", "utf-8", "latin-1", "iso8859-1")
_PURE = {f"binascii.{n}" for n in ("hexlify", "unhexlify", "b2a_hex", "a2b_hex", "b2a_base64", "a2b_base64")} | {
    f"base64.{n}" for n in ("b16encode", "b16decode", "standard_b64encode", "standard_b64decode")} | {
    f"math.{n}" for n in ("floor", "ceil", "trunc", "isnan", "isinf", "isfinite", "copysign", "fabs", "gcd")} | {
    f"re.{n}" for n in ("escape",)} | {f"html.{n}" for n in ("escape", "unescape")} | {
    f"xml.sax.saxutils.{n}" for n in ("escape", "unescape", "quoteattr")} | {f"unicodedata.{n}" for n in ("category", "normalize", "name")}
_PURE |= {f"{m}.{n}" for m in ("posixpath", "ntpath") for n in ("dirname", "basename", "join", "normpath", "isabs")}
_B64 = ("base64.b64encode", "base64.standard_b64encode", "binascii.hexlify", "base64.b16encode")


def codec(pa, kwargs, P):
    """The normalised codec of an encode/decode call without an error handler, or None."""
    import codecs
    if any(isinstance(x, Sym) and x.op == "kw" for x in pa):
        kwargs = {x.args[0]: x.args[1] for x in pa if isinstance(x, Sym) and x.op == "kw"}
        pa = [x for x in pa if not (isinstance(x, Sym) and x.op == "kw")]
    if set(kwargs) - {"encoding"} or len(pa) > 1:
        return None
    e = pa[0] if pa else P(kwargs.get("encoding", Const("utf-8")))
    if not isinstance(e, Const):
        return None
    try:
        return codecs.lookup(e.v).name
    except LookupError:
        return None


def re_op(self, rx, name, args, kwargs, node):
    """An operation of a known regular expression: exact on constants, a canonical term for substitutions elsewhere."""
    if rx is None or name not in ("match", "search", "fullmatch", "sub", "findall", "finditer", "split"):
        return None
    args = list(args)
    if name == "sub":
        a = dict(zip(("repl", "string", "count", "flags"), args))
        a.update(kwargs)
        if "repl" not in a or "string" not in a or "flags" in a:
            return None
        repl, subj = a["repl"], self.prim(a["string"])
        count = self.prim(a.get("count", Const(0)))
        rc = self.prim(repl)
        if not isinstance(count, Const):
            return None
        if isinstance(subj, Const):
            if isinstance(rc, Const):
                try:
                    return Const(rx.sub(rc.v, subj.v, count.v))
                except Exception as e:
                    self.raise_(type(e).__name__, str(e), node)
            parts, pos = [], 0
            try:
                ms = list(rx.finditer(subj.v))
            except TypeError as e:
                self.raise_("TypeError", str(e), node)
            for m in ms[:count.v or None]:
                if m.start() > pos:
                    parts.append(Const(subj.v[pos:m.start()]))
                parts.append(self.prim(self.call(repl, [Const(m)], {}, node)))
                pos = m.end()
            if pos < len(subj.v):
                parts.append(Const(subj.v[pos:]))
            ty = "bytes" if isinstance(subj.v, bytes) else "str"
            return self.cat(parts, ty) if parts else Const(subj.v[:0])
        return Sym("resub", rx, rc if isinstance(rc, Const) else repl, self.term(subj), count.v, typ="str")
    subj = self.prim(args[0] if args else kwargs.get("string", NONE))
    if not isinstance(subj, Const) or len(args) > 1:
        return None
    try:
        r = getattr(rx, name)(subj.v)
    except TypeError as e:
        self.raise_("TypeError", str(e), node)
    if name in ("findall", "split"):
        return ListV([TupleV([Const(y) for y in x]) if isinstance(x, tuple) else Const(x) for x in r])
    if name == "finditer":
        return ListV([Const(x) for x in r])
    return Const(r)


def regex_of(o):
    """The compiled pattern of a re.compile(...) term over constants, or None."""
    import re

    def flag(x):
        if isinstance(x, ExtV) and x.name.startswith("re."):
            return int(getattr(re, x.name[3:], 0))
        if isinstance(x, Const) and isinstance(x.v, int):
            return x.v
        if isinstance(x, Sym) and x.op == "BitOr":
            return flag(x.args[0]) | flag(x.args[1])
        raise ValueError
    try:
        pat, fl = None, 0
        for x in o.args[1:]:
            if isinstance(x, Sym) and x.op == "kw":
                if x.args[0] == "pattern":
                    pat = x.args[1].v
                else:
                    fl |= flag(x.args[1])
            elif isinstance(x, Const) and isinstance(x.v, (str, bytes)):
                pat = x.v
            else:
                fl |= flag(x)
        return re.compile(pat, fl) if pat is not None else None
    except (ValueError, AttributeError, TypeError, re.error):
        return None
