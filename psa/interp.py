"""Path sensitive abstract interpretation of the repository's syntax trees.

The analysed code is never imported or run.  Every value that is not fixed by the source text is a value-origin
expression (`Sym`); a branch on such a value is taken both ways and remembered as a fact of the path, there is no solver
behind it.  Loops over unknown collections are analysed for no iteration and for up to `Config.unroll` generic
iterations; the state a public operation starts in is generalised by the drivers (see drive.py).
"""
import ast
import builtins
import datetime
from math import gcd
import decimal
import importlib
import os
import struct as _struct
import time
import uuid

from .values import *
from .linear import entailed
from .values import _seq  # noqa: F401


class Unsupported(Exception):
    pass


class OutOfTime(Unsupported):
    pass


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, exc, cls, node=None):
        self.exc = exc
        self.cls = cls  # ClassV or ExtV
        self.node = node
        self.where = None


class Infeasible(Exception):
    pass


_STD = {"builtins", "enum", "uuid", "datetime", "decimal", "queue", "collections", "typing", "types", "abc", "struct"}
_std_cache = {}


def real_class(ext):
    """The real class behind an external name of the standard library, if it is one we know (never repository code)."""
    n = ext.name if isinstance(ext, ExtV) else ext
    if n in _std_cache:
        return _std_cache[n]
    r = None
    if n == "NoneType":
        r = type(None)
    elif "." not in n:
        r = getattr(builtins, n, None)
    else:
        m, _, a = n.rpartition(".")
        if m in _STD:
            r = getattr(importlib.import_module(m), a, None)
    if not isinstance(r, type):
        r = None
    _std_cache[n] = r
    return r


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.frame = None
        self.done = False


class Frame:
    __slots__ = ("vars", "parent", "is_class", "module", "func", "self0", "node", "globals_", "nonlocals")

    def __init__(self, module, parent=None, func=None, is_class=False):
        self.vars = {}
        self.parent = parent
        self.is_class = is_class
        self.module = module
        self.func = func
        self.self0 = None
        self.node = None
        self.globals_ = set()
        self.nonlocals = set()


class Effect:
    __slots__ = ("kind", "obj", "name", "value", "where", "func", "stack")

    def __init__(self, kind, obj, name, value, where, func, stack):
        self.kind, self.obj, self.name, self.value = kind, obj, name, value
        self.where, self.func, self.stack = where, func, stack

    def __repr__(self):
        return f"{self.kind}({show(self.obj) if isinstance(self.obj, V) else self.obj}.{self.name}={self.value!r})@{self.where}"


# calls whose result is an input of the scenario rather than a function of known values
SOURCES = {
    "xml.etree.ElementTree.tostring", "base64.b64decode", "os.getpid", "threading.get_native_id", "startswith", "public_numbers", "public_key",
    "cryptography.hazmat.primitives.asymmetric.rsa.generate_private_key",
}


class Config:
    def __init__(self, **kw):
        self.unroll = 1
        self.const_loop = 0   # loops whose condition folds to a constant run up to this often
        self.max_paths = 3000
        self.max_depth = 60
        self.hooks = {}       # (class or module name, function name) -> callable(interp, func, args, kwargs)
        self.focus = {}       # enum class name -> member name, for conversions of unknown values
        self.assume = None    # callable(interp, atom_key, sym) -> True/False/None
        self.ext_hooks = {}   # external dotted name -> callable(interp, args, kwargs, node)
        self.raise_ext = None # callable(interp, name, args) -> None | exception name, to inject failures
        self.recursion = 2
        self.seconds = 60
        self.__dict__.update(kw)


class Program:
    """All modules of the package, their top levels abstractly interpreted once."""
    deadline = stop_at = float("inf")

    def __init__(self, root="/repo/src", package="psrpcore", models=()):
        self.root = root
        self.divmod = False   # quotients and remainders by a constant are kept as linear terms
        self.package = package
        self.modules = {}
        self.files = []
        base = os.path.join(root, package)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                is_pkg = rel.endswith(".__init__")
                if is_pkg:
                    rel = rel[: -len(".__init__")]
                with open(p, encoding="utf-8") as fh:
                    tree = ast.parse(fh.read(), p)
                self.modules[rel] = Module(rel, p, tree, is_pkg)
                self.files.append(p)
        self.subclasses = {}
        self.models = {}
        it = Interp(self, Config(), None)
        it.init = True
        self.init_interp = it
        here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "models")
        for name, f in {**_MODELS, **dict(models)}.items():
            p = os.path.join(here, f)
            with open(p, encoding="utf-8") as fh:
                m = self.models[name] = Module(name, p, ast.parse(fh.read(), p), False)
            it.load(m)
        for m in list(self.modules):
            it.import_module(m)
        self.epoch = next(_seq)

    def extra(self, name):
        """Analyse a module of psa/harness (code a user of the package writes) together with the package."""
        if name in self.modules:
            return self.modules[name]
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", name + ".py")
        with open(p, encoding="utf-8") as fh:
            m = self.modules[name] = Module(name, p, ast.parse(fh.read(), p), False)
        self.init_interp.load(m)
        self.epoch = next(_seq)
        return m

    def lookup(self, dotted):
        """psrpcore.x.Y -> value"""
        m, _, a = dotted.rpartition(".")
        mod = self.modules.get(m)
        if mod is None or a not in mod.frame.vars:
            raise AnchorLost(dotted)
        return mod.frame.vars[a]

    def cls(self, name):
        """Public class by simple name, wherever it is defined."""
        hits = {}
        for m in self.modules.values():
            v = m.frame.vars.get(name)
            if isinstance(v, ClassV):
                hits[v.born] = v
        if not hits:
            raise AnchorLost(name)
        if len(hits) > 1:
            # message class and its plain namesake: prefer an exported one
            for modname in (self.package, self.package + ".types"):
                v = self.modules[modname].frame.vars.get(name)
                if isinstance(v, ClassV):
                    return v
        return next(iter(hits.values()))

    def func(self, name):
        for m in self.modules.values():
            v = m.frame.vars.get(name)
            if isinstance(v, FuncV):
                return v
        raise AnchorLost(name)

    def all_functions(self):
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    yield m, n


class AnchorLost(Exception):
    pass


_MODELS = {"xml.etree.ElementTree": "etree.py", "queue": "queue.py"}

_GLOBAL_EXT = {
    "typing.TYPE_CHECKING": FALSE,
    "sys.version_info": TupleV([Const(3), Const(12), Const(0), Const("final"), Const(0)]),
    "sys.platform": Const("linux"),
    "os.name": Const("posix"),
    "datetime.timezone.utc": Const(datetime.timezone.utc),
}

_PURE_STR = {
    "upper", "lower", "strip", "lstrip", "rstrip", "split", "startswith", "endswith", "replace", "title", "encode",
    "decode", "zfill", "ljust", "rjust", "find", "index", "join", "isdigit", "capitalize", "splitlines", "partition",
    "rpartition", "format", "hex", "count", "rsplit", "isupper", "islower", "removeprefix", "removesuffix", "casefold",
    "bit_length", "to_bytes", "is_integer", "swapcase", "strftime", "isoformat", "utcoffset", "total_seconds", "tzname",
    "timestamp", "as_tuple", "is_nan", "is_finite", "normalize", "quantize",
}


class Path:
    def __init__(self, kind, value, interp):
        self.kind = kind          # 'return' | 'raise'
        self.value = value
        self.effects = interp.effects
        self.facts = interp.facts_list
        self.interp = interp
        self.exc_cls = None
        self.where = None

    def exc_name(self):
        return getattr(self.exc_cls, "name", None)

    def describe_facts(self):
        return "; ".join(f"{'' if b else 'not '}{d}" for d, b in self.facts) or "always"


def explore(prog, run, cfg):
    """Enumerate the abstract paths of run(interp)."""
    paths = Paths()
    stack = [[]]
    t0 = time.time()
    prog.stop_at = min(t0 + cfg.seconds, prog.deadline)
    while stack:
        prefix = stack.pop()
        it = Interp(prog, cfg, prefix)
        try:
            try:
                v = run(it)
                p = Path("return", v, it)
            except PyRaise as e:
                p = Path("raise", e.exc, it)
                p.exc_cls = e.cls
                p.where = e.where or it.raise_where
            paths.append(p)
        except Infeasible:
            pass
        except OutOfTime as e:
            paths.incomplete.append(str(e))
            break
        except Unsupported as e:
            # this path is left undecided, the others are judged
            paths.incomplete.append(f"{type(e).__name__}: {e}")
            if len(paths.incomplete) > 200:
                break
        finally:
            it.rollback()
        ch = it.choices
        for i in range(len(prefix), len(ch)):
            n, c = ch[i]
            for alt in range(c + 1, n):
                stack.append([x[1] for x in ch[:i]] + [alt])
        if len(paths) > cfg.max_paths:
            paths.incomplete.append(f"more than {cfg.max_paths} paths")
            break
    if not paths and paths.incomplete:
        raise Unsupported(paths.incomplete[0])
    return paths


class Paths(list):
    """The explored paths; incomplete: why some were not explored to their end"""

    def __init__(self, *a):
        super().__init__(*a)
        self.incomplete = []


_EX, _ST = {}, {}


class Interp:
    def __init__(self, prog, cfg, prefix):
        self.prog = prog
        self.cfg = cfg
        self.prefix = prefix or []
        self.choices = []
        self.effects = []
        self.facts = {}
        self.facts_list = []
        self.nonneg = []
        self.divided = set()
        self.distinct = []   # linear terms known not to be 0
        self.lin_cache = {}
        self.opaque = []
        self.eqval = {}
        self.neq = {}
        self.bounds = {}
        self.symattrs = {}
        self.enum_new = None
        self.journal = []
        self.depth = 0
        self.frames = []
        self.id_log = []
        self.init = False
        self.nofork = 0
        self.assume_typed = 0
        self.try_depth = 0
        self.calls = {}
        self.fn_seen = set()
        self.raw = bool(cfg.__dict__.get("raw_psobject"))   # interpret the attribute protocol of PSObject instead of its meaning
        self.steps = 0
        self.lazy_attr_types = {}
        self.progress = 0
        self.raise_where = None

    # ------------------------------------------------------------------ bookkeeping
    def rollback(self):
        for undo in reversed(self.journal):
            undo()
        self.journal = []

    def where_of(self, node):
        for f in reversed(self.frames):
            if f.node is not None:
                node = node or f.node
                return f"{os.path.relpath(f.module.path, os.path.dirname(self.prog.root))}:{getattr(node, 'lineno', '?')}"
        return None

    def here(self):
        f = self.frames[-1] if self.frames else None
        if f is None:
            return "?", "?"
        fn = f.func.qual if f.func else "<module>"
        rel = f.module.__dict__.get("rel")
        if rel is None:
            rel = f.module.rel = os.path.relpath(f.module.path, os.path.dirname(self.prog.root))
        return f"{rel}:{getattr(f.node, 'lineno', '?')}", fn

    def effect(self, kind, obj, name, value):
        if self.init:
            return
        w, fn = self.here()
        self.effects.append(Effect(kind, obj, name, value, w, fn, ()))

    def choose(self, n, label=None):
        i = len(self.choices)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.choices.append((n, c))
        return c

    def unsupported(self, node, what=""):
        raise Unsupported(f"{type(node).__name__ if node is not None else ''} {what} at {self.here()[0]}")

    def raise_(self, name, msg="", node=None):
        e = InstV(None) if False else Sym("exc", name, msg)
        raise PyRaise(e, ExtV(name), node)

    # ------------------------------------------------------------------ modules
    def import_module(self, name):
        mod = self.prog.modules.get(name)
        if mod is None:
            return None
        if mod.frame is None:
            parent = name.rpartition(".")[0]
            if parent:
                self.import_module(parent)
            if mod.frame is not None:
                return mod
            self.load(mod)
        return mod

    def load(self, mod):
        mod.frame = Frame(mod)
        mod.frame.vars["__name__"] = Const(mod.name)
        self.frames.append(mod.frame)
        try:
            for st in mod.tree.body:
                self.exec(st, mod.frame)
        finally:
            self.frames.pop()
        mod.done = True

    def ext(self, name):
        """An external name: the model of it, if there is one."""
        v = _GLOBAL_EXT.get(name)
        if v is None:
            m, _, a = name.rpartition(".")
            mod = self.prog.models.get(m)
            v = mod.frame.vars.get(a) if mod is not None and not a.startswith("__") else None
        return v if v is not None else ExtV(name)

    # ------------------------------------------------------------------ statements
    def exec_body(self, body, fr):
        for st in body:
            self.exec(st, fr)

    def exec(self, st, fr):
        self.steps += 1
        if not self.steps & 63 and time.time() > self.prog.stop_at:
            raise OutOfTime("time limit")
        if self.steps > 400000:
            raise Unsupported("step limit")
        fr.node = st
        m = _ST.get(type(st))
        if m is None:
            m = getattr(type(self), "st_" + type(st).__name__, None)
            if m is None:
                self.unsupported(st)
            _ST[type(st)] = m
        m(self, st, fr)

    def st_Expr(self, st, fr):
        self.eval(st.value, fr)

    def st_Pass(self, st, fr):
        pass

    def st_Global(self, st, fr):
        fr.globals_.update(st.names)

    def st_Nonlocal(self, st, fr):
        fr.nonlocals.update(st.names)

    def st_Import(self, st, fr):
        for a in st.names:
            if a.name.split(".")[0] == self.prog.package:
                self.import_module(a.name)
                if a.asname:
                    fr.vars[a.asname] = ModV(self.prog.modules[a.name])
                else:
                    fr.vars[a.name.split(".")[0]] = ModV(self.prog.modules[a.name.split(".")[0]])
            else:
                fr.vars[a.asname or a.name.split(".")[0]] = ExtV(a.name if a.asname else a.name.split(".")[0])

    def st_ImportFrom(self, st, fr):
        mod = st.module or ""
        if st.level:
            base = fr.module.name.split(".")
            if not fr.module.is_pkg:
                base = base[:-1]
            base = base[: len(base) - (st.level - 1)]
            mod = ".".join(base + ([mod] if mod else []))
        for a in st.names:
            if mod.split(".")[0] == self.prog.package:
                m = self.import_module(mod)
                if m is None:
                    self.raise_("ImportError", mod, st)
                if a.name == "*":
                    for k, v in m.frame.vars.items():
                        if not k.startswith("_"):
                            fr.vars[k] = v
                    continue
                if a.name in m.frame.vars:
                    v = m.frame.vars[a.name]
                elif self.import_module(mod + "." + a.name):
                    v = ModV(self.prog.modules[mod + "." + a.name])
                else:
                    self.raise_("ImportError", mod + "." + a.name, st)
                fr.vars[a.asname or a.name] = v
            elif mod == "__future__":
                pass
            else:
                n = mod + "." + a.name
                fr.vars[a.asname or a.name] = self.ext(n)

    def st_FunctionDef(self, st, fr):
        f = self.make_func(st, fr)
        v = f
        for d in reversed(st.decorator_list):
            dv = self.eval(d, fr)
            v = self.apply_decorator(dv, v, fr)
        self.store_name(st.name, v, fr)

    st_AsyncFunctionDef = st_FunctionDef

    def apply_decorator(self, dv, v, fr):
        if isinstance(dv, ExtV):
            n = dv.name
            if n == "property":
                return PropV(v)
            if n == "staticmethod":
                return StaticV(v)
            if n == "classmethod":
                return ClassMethodV(v)
            if n in ("typing.overload", "abc.abstractmethod", "functools.wraps", "typing.final"):
                return v
            if n in ("functools.lru_cache", "functools.cache", "functools.cached_property"):
                if isinstance(v, ClassV) is False and n == "functools.cached_property":
                    return PropV(v)
                return v
            if n == "dataclasses.dataclass" and isinstance(v, ClassV):
                v.deco.append(dv)
                return v
            return v
        if isinstance(dv, ExtMethod) and dv.name in ("setter", "getter", "deleter") and isinstance(dv.self, PropV):
            if dv.name == "setter":
                return PropV(dv.self.fget, v)
            return dv.self
        if isinstance(dv, Sym) and dv.op == "call" and isinstance(dv.args[0], ExtV):
            if dv.args[0].name == "dataclasses.dataclass" and isinstance(v, ClassV):
                v.deco.append(dv)
            return v
        return self.call(dv, [v], {}, None)

    def make_func(self, st, fr):
        a = st.args
        defaults = [self.eval(d, fr) for d in a.defaults]
        kwd = {}
        for arg, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[arg.arg] = self.eval(d, fr)
        name = getattr(st, "name", "<lambda>")
        cls = fr.vars.get("$class") if fr.is_class else None
        clsname = fr.vars["$qual"] + "." if fr.is_class else ((fr.func.qual + ".") if fr.func else "")
        f = FuncV(st, fr.module, fr, cls, defaults, kwd, name, clsname + name)
        return f

    def st_ClassDef(self, st, fr):
        bases, orig = [], []
        for b in st.bases:
            bv = self.eval(b, fr)
            orig.append(bv)
            if isinstance(bv, Sym) and bv.op == "generic":
                bv = bv.args[0]
            if isinstance(bv, ExtV) and bv.name in ("typing.Generic", "typing.Protocol"):
                continue
            if isinstance(bv, (ClassV, ExtV)):
                bases.append(bv)
            else:
                self.unsupported(st, "base class")
        kw = {k.arg: self.eval(k.value, fr) for k in st.keywords if k.arg}
        cfr = Frame(fr.module, fr, fr.func, is_class=True)
        cls = ClassV(st.name, bases, cfr.vars, fr.module, st)
        cls.orig_bases = orig
        cls.kw = kw
        cls.meta = kw.pop("metaclass", None)
        if cls.meta is None:
            for b in bases:
                if isinstance(b, ClassV) and b.meta is not None:
                    cls.meta = b.meta
                    break
        cls.qualname = (fr.vars["$qual"] + "." if fr.is_class else "") + st.name
        cfr.vars["$class"] = cls
        cfr.vars["$qual"] = cls.qualname
        self.frames.append(cfr)
        try:
            self.exec_body(st.body, cfr)
        finally:
            self.frames.pop()
        cls.annots = [(n.target.id, n) for n in st.body if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)]
        cls.mro = self.linearize(cls)
        if self.is_enum(cls):
            mn = self.class_attr(cls.meta, "__new__") if isinstance(cls.meta, ClassV) else None
            mn = mn.func if isinstance(mn, StaticV) else mn
            if isinstance(mn, FuncV):
                # the metaclass decides the namespace the members are created in
                ns = DictV()
                for k, x in cls.ns.items():
                    if not k.startswith("$"):
                        ns.entries[key(Const(k))] = (Const(k), x)
                self.enum_new = (cls, st)
                self.call_func(mn, [cls.meta, Const(st.name), TupleV(bases), ns], dict(kw), st)
                self.enum_new = None
            else:
                self.make_enum(cls, st)
        v = cls
        for b in cls.mro[1:]:
            if isinstance(b, ClassV) and "__init_subclass__" in b.ns:
                f = b.ns["__init_subclass__"]
                f = f.func if isinstance(f, ClassMethodV) else f
                self.call(BoundV(f, cls), [], dict(kw), st)
                break
        if isinstance(cls.meta, ClassV) and not self.is_enum(cls):
            i = self.class_attr(cls.meta, "__init__")
            if isinstance(i, FuncV):
                self.call_func(i, [cls, Const(st.name), TupleV(bases), DictV()], kw, st)
        for d in reversed(st.decorator_list):
            v = self.apply_decorator(self.eval(d, fr), v, fr)
        self.store_name(st.name, v, fr)

    def linearize(self, cls):
        seqs = []
        for b in cls.bases:
            seqs.append(list(b.mro) if isinstance(b, ClassV) else [b])
        seqs.append(list(cls.bases))
        out = [cls]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                c = s[0]
                if not any(self.in_tail(c, o) for o in seqs):
                    break
            else:
                c = seqs[0][0]
            out.append(c)
            seqs = [[x for x in s if key(x) != key(c)] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    @staticmethod
    def in_tail(c, s):
        return any(key(x) == key(c) for x in s[1:])

    def is_enum(self, cls):
        for b in cls.mro:
            if isinstance(b, ExtV):
                r = real_class(b)
                import enum
                if r is not None and issubclass(r, enum.Enum):
                    return True
        return False

    def make_enum(self, cls, st):
        members = {}
        auto = 0
        import enum
        flag = any(isinstance(b, ExtV) and real_class(b) and issubclass(real_class(b), enum.Flag) for b in cls.mro)
        for b in cls.mro[1:]:
            if isinstance(b, ClassV) and b.enum_members:
                members.update(b.enum_members)
        names = []
        for n in st.body:
            for sub in ast.walk(n) if isinstance(n, (ast.If, ast.For)) else [n]:
                if isinstance(sub, ast.Assign):
                    for t in sub.targets:
                        if isinstance(t, ast.Name):
                            names.append(t.id)
                elif isinstance(sub, ast.AnnAssign) and sub.value is not None and isinstance(sub.target, ast.Name):
                    names.append(sub.target.id)
        for n in names:
            if n.startswith("__") or n.startswith("_"):
                continue
            v = cls.ns.get(n)
            if isinstance(v, (FuncV, PropV, StaticV, ClassMethodV)) or v is None:
                continue
            if isinstance(v, Sym) and v.op == "call" and isinstance(v.args[0], ExtV) and v.args[0].name == "enum.auto":
                if flag:
                    auto = 1 if not auto else auto * 2
                else:
                    auto += 1
                v = Const(auto)
            elif isinstance(v, Const) and isinstance(v.v, int):
                auto = v.v
            e = None
            for m in members.values():
                if key(m.value) == key(v):
                    e = m  # alias
            e = e or EnumV(cls, n, v, self.enum_box(cls, v))
            members[n] = e
            cls.ns[n] = e
        cls.enum_members = members

    def enum_box(self, cls, v):
        """The value object the __new__ of the enum class gives a member."""
        f = self.class_attr(cls, "__new__")
        f = f.func if isinstance(f, StaticV) else f
        if isinstance(f, FuncV):
            o = self.call_func(f, [cls, v], {}, f.node)
            if isinstance(o, InstV):
                return o.attrs.get("_value_")
        return None

    def st_Return(self, st, fr):
        raise Return(self.eval(st.value, fr) if st.value else NONE)

    def st_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                k = self.eval(t.slice, fr)
                self.del_item(o, k, t)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                self.effect("delattr", o, t.attr, None)
                if isinstance(o, InstV):
                    self.j_pop(o.attrs, t.attr, o)
            else:
                self.unsupported(st)

    def st_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def st_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, fr, t)
            v = self.inplace(st.op, cur, self.eval(st.value, fr), st)
            self.store_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr, t)
            v = self.inplace(st.op, cur, self.eval(st.value, fr), st)
            self.setattr(o, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval(t.slice, fr)
            cur = self.get_item(o, k, t)
            v = self.inplace(st.op, cur, self.eval(st.value, fr), st)
            self.set_item(o, k, v, t)
        else:
            self.unsupported(st)

    def inplace(self, op, cur, val, node):
        if isinstance(cur, ListV) and isinstance(op, ast.Add) and cur.kind != "tuple":
            self.list_extend(cur, val, node)
            return cur
        if isinstance(cur, BufV) and isinstance(op, ast.Add):
            self.call_ext_method(ExtMethod("extend", cur), [val], {}, node)
            return cur
        return self.binop(op, cur, val, node)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval(t.slice, fr)
            self.set_item(o, k, v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.unpack(v, n, bool(star))
            if star:
                i = star[0]
                tail = n - i - 1
                if items is None:
                    for j, e in enumerate(t.elts):
                        tgt = e.value if isinstance(e, ast.Starred) else e
                        self.assign(tgt, Sym("item", self.term(v), Const(j)), fr)
                    return
                head, mid, last = items[:i], items[i: len(items) - tail], items[len(items) - tail:]
                for e, x in zip(t.elts[:i], head):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, ListV(mid), fr)
                for e, x in zip(t.elts[i + 1:], last):
                    self.assign(e, x, fr)
                return
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        else:
            self.unsupported(t)

    def unpack(self, v, n, star=False):
        if isinstance(v, TupleV):
            return v.items
        if isinstance(v, ListV) and v.base is None:
            return v.items
        if isinstance(v, InstV) and "$fields" in v.attrs:
            return [v.attrs[f] for f in v.attrs["$fields"]]
        if star:
            return None
        return [Sym("item", self.term(v), Const(i)) for i in range(n)]

    def st_If(self, st, fr):
        if self.truth(self.eval(st.test, fr), st):
            self.exec_body(st.body, fr)
        else:
            self.exec_body(st.orelse, fr)

    def st_While(self, st, fr):
        n = 0
        seen = self.progress
        while True:
            fr.node = st
            if self.progress != seen and self.progress < 20000:  # a round that took an element of a known sequence
                n = max(n - 1, 0)
            seen = self.progress
            c = self.eval(st.test, fr)
            if n > self.cfg.unroll and not isinstance(c, Const):
                t = self.known_truth(c)
                if t is None or t:
                    # bounded: leave the loop without recording anything about the condition
                    self.facts_list.append(("loop bound reached", True))
                    break
            if n > max(200, self.cfg.const_loop):
                self.unsupported(st, "loop")
            if isinstance(c, Const) and c.v and n > self.cfg.unroll + 1 and (n > self.cfg.const_loop or isinstance(st.test, ast.Constant)):
                raise Infeasible()
            if not self.truth(c, st):
                self.exec_body(st.orelse, fr)
                break
            n += 1
            try:
                self.exec_body(st.body, fr)
            except Break:
                break
            except Continue:
                continue

    def st_For(self, st, fr):
        it = self.eval(st.iter, fr)
        for el in self.iterate(it, st):
            self.assign(st.target, el, fr)
            try:
                self.exec_body(st.body, fr)
            except Break:
                return
            except Continue:
                continue
        self.exec_body(st.orelse, fr)

    def st_Break(self, st, fr):
        raise Break()

    def st_Continue(self, st, fr):
        raise Continue()

    def st_Assert(self, st, fr):
        if not self.truth(self.eval(st.test, fr), st):
            self.raise_("AssertionError", "", st)

    def st_Raise(self, st, fr):
        if st.exc is None:
            for f in reversed(self.frames):
                if f.vars.get("$exc") is not None:
                    raise f.vars["$exc"]
            self.unsupported(st)
        v = self.eval(st.exc, fr)
        if st.cause is not None:
            self.eval(st.cause, fr)
        self.do_raise(v, st)

    def do_raise(self, v, st):
        if isinstance(v, ClassV):
            v = self.call(v, [], {}, st)
        if isinstance(v, InstV):
            raise PyRaise(v, v.cls, st)
        if isinstance(v, ExtV):
            raise PyRaise(Sym("exc", v.name), v, st)
        if isinstance(v, Sym) and v.op == "call" and isinstance(v.args[0], ExtV):
            raise PyRaise(v, v.args[0], st)
        if isinstance(v, Sym) and v.op == "exc":
            raise PyRaise(v, ExtV(v.args[0]), st)
        raise PyRaise(v, ExtV("Exception"), st)

    def exc_matches(self, cls, handler):
        if handler is None:
            return True
        if isinstance(handler, TupleV):
            return any(self.exc_matches(cls, h) for h in handler.items)
        if isinstance(cls, ClassV):
            for c in cls.mro:
                if key(c) == key(handler):
                    return True
                if isinstance(c, ExtV) and isinstance(handler, ExtV):
                    rc, rh = real_class(c), real_class(handler)
                    if rc and rh and issubclass(rc, rh):
                        return True
            return False
        if isinstance(cls, ExtV) and isinstance(handler, ExtV):
            rc, rh = real_class(cls), real_class(handler)
            if rc and rh:
                return issubclass(rc, rh)
            return cls.name == handler.name
        return False

    def st_Try(self, st, fr):
        handlers = []
        for h in st.handlers:
            handlers.append((self.eval(h.type, fr) if h.type is not None else None, h))
        pending = None
        try:
            try:
                # a handler of everything that raises again expects nothing in particular
                expected = [hv for hv, h in handlers if not (isinstance(h.body[-1], ast.Raise) and (hv is None or isinstance(hv, ExtV) and hv.name in ("Exception", "BaseException")))]
                if expected:
                    self.try_stack().append(expected)
                try:
                    self.exec_body(st.body, fr)
                finally:
                    if expected:
                        self.try_stack().pop()
            except PyRaise as e:
                for hv, h in handlers:
                    if self.exc_matches(e.cls, hv):
                        if h.name:
                            fr.vars[h.name] = e.exc
                        old = fr.vars.get("$exc")
                        fr.vars["$exc"] = e
                        try:
                            self.exec_body(h.body, fr)
                        finally:
                            fr.vars["$exc"] = old
                        break
                else:
                    raise
            else:
                self.exec_body(st.orelse, fr)
        finally:
            if st.finalbody:
                self.exec_body(st.finalbody, fr)

    def try_stack(self):
        if not hasattr(self, "_try"):
            self._try = []
        return self._try

    def may_raise(self, *names):
        """Inside a try body an opaque operation may raise what the handlers expect."""
        ts = self.try_stack()
        if self.init or not ts or self.nofork:
            return
        for hs in reversed(ts):
            for h in hs:
                cands = h.items if isinstance(h, TupleV) else [h]
                for c in cands:
                    n = c.name if isinstance(c, ExtV) else None
                    if h is None:
                        n = "Exception"
                    if n is None:
                        continue
                    if names and not any(self.exc_matches(ExtV(x), ExtV(n)) for x in names):
                        continue
                    if self.choose(2, "raises " + n):
                        nm = names[0] if names and real_class(ExtV(names[0])) else n
                        self.facts_list.append((f"{nm} raised", True))
                        self.raise_(nm if real_class(ExtV(nm)) or "." in nm else n)
                    return

    def st_With(self, st, fr):
        for i in st.items:
            v = self.eval(i.context_expr, fr)
            if isinstance(v, InstV):
                e = self.getattr_opt(v, "__enter__")
                r = self.call(e, [], {}, st) if e is not None else v
            else:
                self.effect("with", v, None, None)
                r = Sym("with", self.term(v))
            if i.optional_vars is not None:
                self.assign(i.optional_vars, r, fr)
        self.exec_body(st.body, fr)

    def st_Match(self, st, fr):
        subj = self.eval(st.subject, fr)
        for c in st.cases:
            if self.match_pat(c.pattern, subj, fr) and (c.guard is None or self.truth(self.eval(c.guard, fr), st)):
                self.exec_body(c.body, fr)
                return

    def match_pat(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.eq(v, self.eval(p.value, fr)), p)
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.is_(v, Const(p.value)), p)
        if isinstance(p, ast.MatchOr):
            return any(self.match_pat(q, v, fr) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pat(p.pattern, v, fr):
                return False
            if p.name:
                self.store_name(p.name, v, fr)
            return True
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.truth(self.isinstance_(v, self.eval(p.cls, fr)), p)
        self.unsupported(p)

    # ------------------------------------------------------------------ names
    def store_name(self, n, v, fr):
        if n in fr.globals_:
            fr.module.frame.vars[n] = v
            return
        if n in fr.nonlocals:
            p = fr.parent
            while p is not None:
                if n in p.vars and not p.is_class:
                    p.vars[n] = v
                    return
                p = p.parent
        fr.vars[n] = v

    def load_name(self, n, fr, node):
        f = fr
        first = True
        while f is not None:
            if (first or not f.is_class) and n in f.vars:
                return f.vars[n]
            first = False
            f = f.parent
        m = fr.module.frame
        if n in m.vars:
            return m.vars[n]
        if n in ("__class__",):
            for f in reversed(self.frames):
                if f.func and f.func.cls:
                    return f.func.cls
        if hasattr(builtins, n):
            r = getattr(builtins, n)
            if n in ("True", "False", "None"):
                return Const(r)
            return ExtV(n)
        if n in ("WindowsError", "__xpath__", "__xiter__"):
            return ExtV(n)
        self.raise_("NameError", n, node)

    # ------------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = _EX.get(type(e))
        if m is None:
            m = getattr(type(self), "ex_" + type(e).__name__, None)
            if m is None:
                self.unsupported(e)
            _EX[type(e)] = m
        return m(self, e, fr)

    def ex_Constant(self, e, fr):
        return Const(e.value)

    def ex_Name(self, e, fr):
        return self.load_name(e.id, fr, e)

    def ex_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr, e)

    def ex_Tuple(self, e, fr):
        return TupleV(self.eval_elts(e.elts, fr))

    def ex_List(self, e, fr):
        out = ListV()
        for x in e.elts:
            if isinstance(x, ast.Starred):
                self.list_extend(out, self.eval(x.value, fr), e, quiet=True)
            else:
                out.items.append(self.eval(x, fr))
        return out

    def ex_Set(self, e, fr):
        s = SetV()
        for v in self.eval_elts(e.elts, fr):
            s.entries[key(v)] = v
        return s

    def eval_elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fr)
                kn = self.known_items(v)
                if kn is None:
                    out.append(Sym("star", self.term(v)))
                else:
                    out.extend(kn)
            else:
                out.append(self.eval(x, fr))
        return out

    def ex_Dict(self, e, fr):
        d = DictV()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(d, self.eval(v, fr), e, quiet=True)
            else:
                kv = self.eval(k, fr)
                d.entries[key(kv)] = (kv, self.eval(v, fr))
        return d

    def ex_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(Const(v.value))
            else:
                parts.append(self.fmt(v, fr))
        return self.cat(parts, "str")

    def fmt(self, e, fr):
        v = self.eval(e.value, fr)
        spec = self.eval(e.format_spec, fr) if e.format_spec is not None else None
        conv = chr(e.conversion) if e.conversion and e.conversion > 0 else ""
        return self.fmt_value(v, conv, spec)

    def fmt_value(self, v, conv, spec):
        if conv == "s" and spec is None:
            return self.call_ext("str", [v], {}, None)
        if conv == "r" and spec is None:
            return self.call_ext("repr", [v], {}, None)
        if isinstance(v, InstV) and spec is None and isinstance(self.class_attr(v.cls, "__str__"), FuncV) and not conv and \
                not isinstance(self.class_attr(v.cls, "__format__"), FuncV):
            return self.call_ext("str", [v], {}, None)
        pv = self.prim(v)
        if isinstance(pv, Const) and (spec is None or isinstance(spec, Const)) and not conv:
            try:
                return Const(format(pv.v, spec.v if spec else ""))
            except Exception:
                pass
        if spec is None and not conv:
            if isinstance(v, EnumV):
                return Sym("str", v, typ="str")
            if isinstance(pv, Sym) and pv.typ == "str":
                return pv
            return Sym("str", self.term(pv), typ="str")
        return Sym("fmt", self.term(pv), conv, spec if spec is not None else NONE, typ="str")

    def ex_FormattedValue(self, e, fr):
        return self.fmt(e, fr)

    def ex_Lambda(self, e, fr):
        return self.make_func(e, fr)

    def ex_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.store_name(e.target.id, v, fr)
        return v

    def ex_Starred(self, e, fr):
        return Sym("star", self.term(self.eval(e.value, fr)))

    def ex_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value else NONE
        f = fr
        while "$yield" not in f.vars and f.parent is not None:
            f = f.parent
        f.vars.setdefault("$yield", ListV()).items.append(v)
        return NONE

    def ex_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            if self.nofork:
                t = self.known_truth(v)
                if t is None:
                    rest = [self.eval(y, fr) for y in e.values[i + 1:]]
                    return Sym("and" if is_and else "or", self.term(v), *[self.term(r) for r in rest])
            else:
                t = self.truth(v, e)
            if is_and and not t:
                return v
            if not is_and and t:
                return v
        return v

    def ex_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.known_truth(v)
            if t is not None:
                return Const(not t)
            return self.not_(v)
        return self.ex_unary(e.op, v)

    def ex_unary(self, op, v):
        d = self.user_op(v, {ast.USub: "__neg__", ast.UAdd: "__pos__", ast.Invert: "__invert__"}[type(op)], [])
        if d is not None:
            return d
        return self.unop(op, v)

    def unop(self, op, v):
        pv = self.prim(v)
        if isinstance(pv, Const) and isinstance(pv.v, datetime.timedelta) and isinstance(op, (ast.USub, ast.UAdd)):
            return Const(-pv.v if isinstance(op, ast.USub) else pv.v)
        if isinstance(pv, Const) and isinstance(pv.v, (int, float)):
            return Const({ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(op)](pv.v))
        if isinstance(op, ast.USub):
            r = lin_mul(Const(-1), pv) if self.intlike(pv) else None
            return r or Sym("neg", self.term(pv))
        if isinstance(op, ast.Invert) and self.intsure(pv):
            return lin_add(Const(-1), pv, -1)
        if isinstance(op, ast.UAdd) and self.intsure(pv):
            return pv
        return Sym(type(op).__name__, self.term(pv))

    def not_(self, v):
        if isinstance(v, Sym) and v.op == "not":
            return v.args[0]
        return Sym("not", self.term(v), typ="bool")

    def ex_IfExp(self, e, fr):
        c = self.eval(e.test, fr)
        if self.nofork and self.known_truth(c) is None:
            return Sym("ite", self.term(c), self.term(self.eval(e.body, fr)), self.term(self.eval(e.orelse, fr)))
        if self.truth(c, e):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def ex_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = None
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, fr)
            r = self.compare(op, left, right, e)
            if res is None:
                res = r
            else:
                if not self.truth(res, e):
                    return FALSE
                res = r
            left = right
        return res

    def compare(self, op, a, b, node):
        t = type(op)
        if t is ast.Is:
            return self.is_(a, b)
        if t is ast.IsNot:
            return self.neg(self.is_(a, b))
        if t is ast.Eq:
            return self.eq(a, b)
        if t is ast.NotEq:
            for x, y in ((b, a), (a, b)) if self.derived(b, a) else ((a, b), (b, a)):
                if isinstance(x, InstV) and isinstance(self.class_attr(x.cls, "__ne__"), FuncV):
                    u = self.user_op(x, "__ne__", [y])
                    if u is not None:
                        return u
            return self.neg(self.eq(a, b))
        if t is ast.In:
            return self.contains(b, a, node)
        if t is ast.NotIn:
            return self.neg(self.contains(b, a, node))
        if t is ast.Lt:
            return self.less(a, b)
        if t is ast.Gt:
            return self.less(b, a, True)
        if t is ast.LtE:
            return self.less_eq(a, b)
        if t is ast.GtE:
            return self.less_eq(b, a, True)
        self.unsupported(node)

    def neg(self, v):
        if isinstance(v, Const):
            return Const(not v.v)
        return self.not_(v)

    def intlike(self, v):
        return (isinstance(v, Const) and isinstance(v.v, int) and not isinstance(v.v, bool)) or (
            isinstance(v, Sym) and v.typ in ("int", None) and v.op not in ("cat",))

    def intsure(self, v):
        return (isinstance(v, Const) and isinstance(v.v, int)) or (isinstance(v, Sym) and v.typ == "int")

    def less(self, a, b, swapped=False):
        """a < b (swapped: it is written b > a)"""
        if self.derived(a, b) if swapped else self.derived(b, a):
            swapped = not swapped
        u = self.user_op(b, "__gt__", [a]) if swapped else self.user_op(a, "__lt__", [b])
        if u is None:
            u = self.user_op(a, "__lt__", [b]) if swapped else self.user_op(b, "__gt__", [a])
        if u is not None:
            return u
        pa, pb = self.prim(a), self.prim(b)
        if isinstance(pa, Const) and isinstance(pb, Const):
            try:
                return Const(pa.v < pb.v)
            except TypeError:
                self.raise_("TypeError", "comparison")
        if isinstance(pa, TupleV) and isinstance(pb, TupleV):
            for x, y in zip(pa.items, pb.items):
                if key(x) == key(y):
                    continue
                if self.known_truth(self.eq(x, y)) is not False:
                    return Sym("lt", self.term(pa), self.term(pb), typ="bool")
                return self.less(x, y)
            return Const(len(pa.items) < len(pb.items))
        if self.intlike(pa) and self.intlike(pb) and (self.intsure(pa) or self.intsure(pb)):
            d = lin_add(pa, pb, -1)
            if isinstance(d, Const):
                return Const(d.v < 0)
            return Sym("lt0", d, typ="bool")
        return Sym("lt", self.term(pa), self.term(pb), typ="bool")

    def less_eq(self, a, b, swapped=False):
        if self.derived(a, b) if swapped else self.derived(b, a):
            swapped = not swapped
        u = self.user_op(b, "__ge__", [a]) if swapped else self.user_op(a, "__le__", [b])
        if u is None:
            u = self.user_op(a, "__le__", [b]) if swapped else self.user_op(b, "__ge__", [a])
        if u is not None:
            return u
        pa, pb = self.prim(a), self.prim(b)
        if isinstance(pa, Const) and isinstance(pb, Const):
            try:
                return Const(pa.v <= pb.v)
            except TypeError:
                self.raise_("TypeError", "comparison")
        if self.intlike(pa) and self.intlike(pb) and (self.intsure(pa) or self.intsure(pb)):
            d = lin_add(lin_add(pa, pb, -1), Const(1), -1)
            if isinstance(d, Const):
                return Const(d.v < 0)
            return Sym("lt0", d, typ="bool")
        return self.neg(self.less(b, a))

    def user_op(self, v, name, args):
        if isinstance(v, InstV):
            m = self.class_attr(v.cls, name)
            if isinstance(m, FuncV):
                r = self.call_func(m, [v] + args, {}, None)
                if isinstance(r, ExtV) and r.name == "NotImplemented":
                    return None
                return r
        return None

    def is_(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(y, Const) and (y.v is None or isinstance(y.v, bool)):
                if isinstance(x, Const):
                    return Const(x.v is y.v)
                if isinstance(x, Sym):
                    if x.op == "bool" or x.typ == "bool":
                        if y.v is None:
                            return FALSE
                        return x if y.v is True else self.not_(x)
                    if x.typ is not None and y.v is None:
                        return FALSE
                    if y.v is None and x.op in ("cat", "lin", "call_new", "list", "dict", "slice", "listcomp", "struct"):
                        return FALSE
                    if self.assume_typed and y.v is None:
                        return FALSE
                    return Sym("is", x, y, typ="bool")
                return FALSE
        if key(a) == key(b):
            return TRUE
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, Heap) or isinstance(b, Heap):
                o = a if isinstance(a, Heap) else b
                if o.born > self.prog_epoch() and not isinstance(o, ClassV):
                    return FALSE
            return Sym("is", self.term(a), self.term(b), typ="bool")
        return FALSE

    def prog_epoch(self):
        return getattr(self.prog, "epoch", 0)

    def eq(self, a, b):
        if key(a) == key(b):
            return TRUE
        for x, y in ((b, a), (a, b)) if self.derived(b, a) else ((a, b), (b, a)):
            if isinstance(x, InstV):
                m = self.class_attr(x.cls, "__eq__")
                if isinstance(m, FuncV):
                    r = self.call_func(m, [x, y], {}, None)
                    if not (isinstance(r, ExtV) and r.name == "NotImplemented"):
                        return r
        pa, pb = self.prim(a), self.prim(b)
        if isinstance(pa, Const) and isinstance(pb, Const):
            return Const(pa.v == pb.v)
        if key(pa) == key(pb):
            return TRUE
        if isinstance(pa, EnumV) and isinstance(pb, EnumV):
            if pa.cls is pb.cls:
                return Const(pa is pb or key(pa.value) == key(pb.value))
            return self.eq(pa.value, pb.value)
        for x, y in ((pa, pb), (pb, pa)):
            if isinstance(x, EnumV) and isinstance(y, Const):
                v = self.prim(x.value)
                if self.enum_is_int(x.cls) and isinstance(v, Const):
                    return Const(v.v == y.v)
                return FALSE
        if isinstance(pa, (TupleV,)) and isinstance(pb, TupleV):
            if len(pa.items) != len(pb.items):
                return FALSE
            res = TRUE
            for x, y in zip(pa.items, pb.items):
                r = self.eq(x, y)
                if isinstance(r, Const) and not r.v:
                    return FALSE
                if not isinstance(r, Const):
                    res = r if res is TRUE else Sym("and", res, r, typ="bool")
            return res
        if isinstance(pa, Sym) or isinstance(pb, Sym):
            s, o = (pa, pb) if isinstance(pa, Sym) else (pb, pa)
            if isinstance(o, (ClassV, FuncV, ModV)) and s.op not in ("type", "arg", "item", "elem", "attr", "call"):
                return FALSE
            if isinstance(o, ClassV) and not (s.op == "type" or s.typ == "type"):
                return FALSE
            if isinstance(o, Const) and o.v is None:
                return self.is_(s, o)
            # an empty container compares equal to its empty literal exactly if it is falsy
            if isinstance(o, Const) and o.v in (b"", "") and not isinstance(o.v, (int, bool)) and s.typ in ("bytes", "str"):
                return self.not_(s)
            if isinstance(o, Const) and isinstance(o.v, int) and not isinstance(o.v, bool) and o.v == 0 and s.op == "len":
                return self.not_(s.args[0])
            if isinstance(o, Const) and isinstance(o.v, bool) and s.typ == "bool":
                return s if o.v else self.not_(s)
            if s.op == "id" and isinstance(o, Sym) and o.op == "id" and isinstance(s.args[0], (Heap, EnumV)) and isinstance(o.args[0], (Heap, EnumV)):
                return Const(key(s) == key(o))
            if self.intsure(s) and self.intlike(o):
                d = lin_add(s, o, -1)
                if isinstance(d, Const):
                    return Const(d.v == 0)
                p = lin_parts(d)
                # canonical sign
                first = min(p[1].items(), key=lambda kv: repr(kv[0]))[1][1]
                if first < 0:
                    d = lin_mul(Const(-1), d)
                return Sym("eq0", d, typ="bool")
            x, y = sorted((self.term(pa), self.term(pb)), key=lambda t: repr(key(t)))
            return Sym("eq", x, y, typ="bool")
        if isinstance(pa, (ListV, DictV, SetV, InstV)) and isinstance(pb, (ListV, DictV, SetV, InstV)):
            if type(pa) is not type(pb):
                return FALSE
            if isinstance(pa, ListV) and pa.base is None and pb.base is None:
                if len(pa.items) != len(pb.items):
                    return FALSE
                return self.eq(TupleV(pa.items), TupleV(pb.items))
            if isinstance(pa, InstV):
                return FALSE
            return Sym("eq", self.term(pa), self.term(pb), typ="bool")
        return FALSE

    def enum_is_int(self, cls):
        return any(isinstance(b, ExtV) and real_class(b) and issubclass(real_class(b), int) for b in cls.mro)

    def contains(self, cont, x, node):
        pc, px = self.prim(cont), self.prim(x)
        if isinstance(pc, Const) and isinstance(pc.v, (str, bytes)):
            if isinstance(px, Const):
                try:
                    return Const(px.v in pc.v)
                except TypeError:
                    self.raise_("TypeError", "in", node)
            return Sym("in", self.term(px), pc, typ="bool")
        if isinstance(cont, ListV) and cont.kind == "range" and isinstance(cont.base, Sym) and cont.base.op == "range" and len(cont.base.args) < 3 and self.intsure(px):
            r = cont.base.args
            if not self.truth(self.less_eq(r[0] if len(r) > 1 else Const(0), px)):
                return FALSE
            return self.less(px, r[-1])
        if isinstance(cont, ListV) and cont.kind == "range" and cont.base is None and len(cont.items) > 2 and self.intsure(px) and cont.items[1].v - cont.items[0].v == 1:
            if not self.truth(self.less_eq(cont.items[0], px)):
                return FALSE
            return self.less_eq(px, cont.items[-1])
        kn = self.known_items(cont)
        if isinstance(cont, DictV):
            return self.dict_has(cont, x)
        if kn is not None:
            if isinstance(cont, (SetV, DictV)) or True:
                res = FALSE
                for k in kn:
                    r = self.eq(x, k)
                    if isinstance(r, Const):
                        if r.v:
                            return TRUE
                    else:
                        res = r if (isinstance(res, Const)) else Sym("or", res, r, typ="bool")
                return res
        pc, px = self.prim(cont), self.prim(x)
        if isinstance(pc, Const) and isinstance(px, Const):
            return Const(px.v in pc.v)
        if isinstance(cont, EnumV) and isinstance(x, EnumV):
            a, b = self.prim(x.value), self.prim(cont.value)
            if isinstance(a, Const) and isinstance(b, Const):
                return Const(a.v & b.v == a.v)
        if isinstance(cont, ClassV) and cont.enum_members is not None:
            return Const(isinstance(x, EnumV) and x.cls is cont) if not isinstance(x, Sym) else Sym("in", x, cont, typ="bool")
        return Sym("in", self.term(px), self.term(pc), typ="bool")

    def ex_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        if isinstance(o, (ClassV, ExtV)) and not (isinstance(o, ClassV) and o.enum_members is not None):
            # generic alias; annotations may contain forward names that do not resolve here
            try:
                k = self.eval(e.slice, fr)
            except PyRaise:
                k = NONE
            return Sym("generic", o, k)
        if isinstance(o, Sym) and o.op == "generic":
            return o
        return self.get_item(o, self.eval(e.slice, fr), e)

    def ex_Slice(self, e, fr):
        f = lambda x: self.eval(x, fr) if x is not None else NONE
        return Sym("sliceobj", f(e.lower), f(e.upper), f(e.step))

    def ex_BinOp(self, e, fr):
        return self.binop(e.op, self.eval(e.left, fr), self.eval(e.right, fr), e)

    _OPS = {
        ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
        ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b, ast.Div: lambda a, b: a / b,
        ast.BitAnd: lambda a, b: a & b, ast.BitOr: lambda a, b: a | b, ast.BitXor: lambda a, b: a ^ b,
        ast.LShift: lambda a, b: a << b if b < 4096 else 0, ast.RShift: lambda a, b: a >> b,
        ast.Pow: lambda a, b: a ** b if b < 4096 else 0,
    }
    _OPNAMES = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.FloorDiv: "floordiv", ast.Mod: "mod",
                ast.Div: "truediv", ast.BitAnd: "and", ast.BitOr: "or", ast.BitXor: "xor", ast.LShift: "lshift",
                ast.RShift: "rshift", ast.Pow: "pow"}

    def binop(self, op, a, b, node):
        t = type(op)
        first = self.derived(b, a)
        if first:   # the reflected method of a derived class goes first
            u = self.user_op(b, f"__r{self._OPNAMES.get(t, '?')}__", [a])
            if u is not None:
                return u
        u = self.user_op(a, f"__{self._OPNAMES.get(t, '?')}__", [b])
        if u is not None:
            return u
        u = self.user_op(b, f"__r{self._OPNAMES.get(t, '?')}__", [a]) if not first else None
        if u is not None:
            return u
        pa, pb = self.prim(a), self.prim(b)
        if isinstance(pa, Const) and isinstance(pa.v, bool) and isinstance(pb, Sym) and pb.typ == "int":
            pa = Const(int(pa.v))
        if isinstance(pb, Const) and isinstance(pb.v, bool) and isinstance(pa, Sym) and pa.typ == "int":
            pb = Const(int(pb.v))
        if isinstance(pa, Const) and isinstance(pb, Const):
            try:
                return Const(self._OPS[t](pa.v, pb.v))
            except TypeError:
                self.raise_("TypeError", "operand", node)
            except ZeroDivisionError:
                self.raise_("ZeroDivisionError", "", node)
        if isinstance(pa, EnumV) and isinstance(pb, EnumV) and pa.cls is pb.cls and t in (ast.BitOr, ast.BitAnd):
            va, vb = self.prim(pa.value), self.prim(pb.value)
            if isinstance(va, Const) and isinstance(vb, Const):
                return self.enum_by_value(pa.cls, Const(self._OPS[t](va.v, vb.v)))
        if isinstance(pa, SetV) and isinstance(pb, SetV) and pa.base is None and pb.base is None and t in (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor):
            sa, sb = pa.entries, pb.entries
            if t is ast.BitOr or all(isinstance(self.prim(x), Const) for x in list(sa.values()) + list(sb.values())):
                out = SetV()
                out.entries = {ast.BitOr: lambda: {**sb, **sa}, ast.BitAnd: lambda: {k: v for k, v in sa.items() if k in sb}, ast.Sub: lambda: {k: v for k, v in sa.items() if k not in sb},
                               ast.BitXor: lambda: {**{k: v for k, v in sa.items() if k not in sb}, **{k: v for k, v in sb.items() if k not in sa}}}[t]()
                return out
        if t is ast.Add:
            if isinstance(pa, ListV) or isinstance(pb, ListV):
                out = ListV()
                self.list_extend(out, pa, node, quiet=True)
                self.list_extend(out, pb, node, quiet=True)
                return out
            if isinstance(pa, TupleV) and isinstance(pb, TupleV):
                return TupleV(pa.items + pb.items)
            if self.strlike(pa) or self.strlike(pb):
                ty = "bytes" if self.strlike(pa) == "bytes" or self.strlike(pb) == "bytes" else "str"
                return self.cat([pa, pb], ty)
            if self.intlike(pa) and self.intlike(pb):
                return lin_add(pa, pb)
        if t is ast.Sub and self.intlike(pa) and self.intlike(pb):
            return lin_add(pa, pb, -1)
        if t is ast.Mult and self.intlike(pa) and self.intlike(pb):
            r = lin_mul(pa, pb)
            if r is not None:
                return r
        if self.prog.divmod and t in (ast.FloorDiv, ast.Mod) and isinstance(pb, Const) and type(pb.v) is int and pb.v > 0 and self.intlike(pa) and self.intsure(pa):
            q = self.floordiv(pa, pb.v)
            return q if t is ast.FloorDiv else lin_add(pa, lin_mul(pb, q), -1)
        if t is ast.Mod and isinstance(pa, Const) and isinstance(pa.v, str):
            return Sym("strmod", pa, self.term(pb), typ="str")
        if t is ast.BitOr and isinstance(a, (ClassV, ExtV, Sym)) and isinstance(b, (ClassV, ExtV, Sym)) and not (
                isinstance(a, Sym) and a.op != "generic") and not (isinstance(b, Sym) and b.op != "generic"):
            return Sym("generic", a, b)
        if t is ast.BitOr and isinstance(a, DictV):
            d = DictV()
            self.dict_update(d, a, node, quiet=True)
            self.dict_update(d, b, node, quiet=True)
            return d
        typ = "int" if t in (ast.FloorDiv, ast.Mod, ast.BitAnd, ast.BitOr, ast.BitXor, ast.LShift, ast.RShift) else None
        if t in (ast.Mult, ast.Pow) and self.intsure(pa) and self.intsure(pb):
            typ = "int"
        if t in (ast.BitAnd, ast.BitOr, ast.BitXor, ast.Mult, ast.Add):
            x, y = sorted((self.term(pa), self.term(pb)), key=lambda q: repr(key(q)))
            return Sym(t.__name__, x, y, typ=typ)
        return Sym(t.__name__, self.term(pa), self.term(pb), typ=typ)

    def floordiv(self, a, m):
        """a // m in a canonical linear form: what is a multiple of m is taken out of the division."""
        c, parts = lin_parts(a)
        out = Const(c // m)
        rest = {}
        for k, (t, n) in parts.items():
            out = lin_add(out, lin_mul(Const(n // m), t))
            if n % m:
                rest[k] = (t, n % m)
        r = mk_lin(c % m, rest)
        if isinstance(r, Const):
            return out
        g = m
        for t, n in rest.values():
            g = gcd(g, n)
        if g > 1:   # (g x + c) // m = (x + c // g) // (m // g)
            r, m = mk_lin((c % (m)) // g, {k: (t, n // g) for k, (t, n) in rest.items()}), m // g
        if isinstance(r, Sym) and r.op == "FloorDiv" and isinstance(r.args[1], Const):
            r, m = r.args[0], m * r.args[1].v
            q = self.floordiv(r, m)
            return lin_add(out, q)
        q = Sym("FloorDiv", r, Const(m), typ="int")
        d = lin_add(r, lin_mul(Const(m), q), -1)   # 0 <= r - m q < m
        if not self.init and key(q) not in self.divided:
            self.divided.add(key(q))
            self.nonneg += [d, lin_add(Const(m - 1), d, -1)]
        return lin_add(out, q)

    def derived(self, b, a):
        """The class of b is derived from the one of a."""
        return isinstance(a, InstV) and isinstance(b, InstV) and a.cls is not b.cls and any(c is a.cls for c in b.cls.mro)

    def strlike(self, v):
        if isinstance(v, Const):
            return "bytes" if isinstance(v.v, bytes) else ("str" if isinstance(v.v, str) else None)
        if isinstance(v, Sym) and v.typ in ("bytes", "str"):
            return v.typ
        return None

    def cat(self, parts, ty):
        flat = []
        for p in parts:
            p = self.prim(p)
            if isinstance(p, Sym) and p.op == "cat" and p.typ == ty:
                flat.extend(p.args)
            else:
                flat.append(self.term(p))
        out = []
        for p in flat:
            if isinstance(p, Const) and out and isinstance(out[-1], Const) and type(p.v) is type(out[-1].v):
                out[-1] = Const(out[-1].v + p.v)
            elif isinstance(p, Const) and p.v in ("", b"") and not isinstance(p.v, (int, type(None))):
                continue
            elif out and isinstance(p, Sym) and p.op == "slice" and isinstance(out[-1], Sym) and out[-1].op == "slice":
                from .ropes import merge
                m = merge(self, out[-1], p, ty)
                if m is None:
                    out.append(p)
                else:
                    out[-1:] = list(m.args) if isinstance(m, Sym) and m.op == "cat" else [m]
            else:
                out.append(p)
        if not out:
            return Const(b"" if ty == "bytes" else "")
        if len(out) == 1 and (isinstance(out[0], Const) or getattr(out[0], "typ", None) == ty):
            return out[0]
        return Sym("cat", *out, typ=ty)

    # comprehensions
    def comp(self, gens, fr, emit):
        nf = Frame(fr.module, fr, fr.func)
        nf.node = fr.node
        nf.self0 = fr.self0
        exact = [True]

        def go(i):
            if i == len(gens):
                emit(nf)
                return
            g = gens[i]
            it = self.eval(g.iter, nf if i else fr)
            kn = self.known_items(it)
            if kn is None:
                exact[0] = False
                src = self.iter_source(it)
                el = self.generic_elem(it, src, "any")
                self.assign(g.target, el, nf)
                for c in g.ifs:
                    self.nofork += 1
                    try:
                        self.eval(c, nf)
                    finally:
                        self.nofork -= 1
                go(i + 1)
                nf.vars.setdefault("$src", src)
            else:
                for el in kn:
                    self.assign(g.target, el, nf)
                    if all(self.truth(self.eval(c, nf), c) for c in g.ifs):
                        go(i + 1)

        go(0)
        return exact[0], nf.vars.get("$src")

    def ex_ListComp(self, e, fr, kind="list"):
        out = []
        exact, src = self.comp(e.generators, fr, lambda nf: out.append(self.eval(e.elt, nf)))
        if exact:
            return ListV(out)
        conds = [c for g in e.generators for c in g.ifs]
        return ListV([], base=Sym("listcomp", self.term(out[0]) if out else NONE, self.term(src) if src is not None else NONE,
                                  len(conds)))

    def ex_GeneratorExp(self, e, fr):
        return self.ex_ListComp(e, fr)

    def ex_SetComp(self, e, fr):
        l = self.ex_ListComp(e, fr)
        s = SetV(base=l.base)
        for v in l.items:
            s.entries[key(v)] = v
        return s

    def ex_DictComp(self, e, fr):
        out = []
        exact, src = self.comp(e.generators, fr, lambda nf: out.append((self.eval(e.key, nf), self.eval(e.value, nf))))
        d = DictV()
        if exact:
            for k, v in out:
                d.entries[key(k)] = (k, v)
        else:
            d.base = Sym("dictcomp", *[self.term(x) for kv in out[:1] for x in kv], self.term(src) if src is not None else NONE)
        return d

    def ex_Await(self, e, fr):
        self.unsupported(e)

    # ------------------------------------------------------------------ calls
    def ex_Call(self, e, fr):
        f = e.func
        # super() needs the frame
        if isinstance(f, ast.Name) and f.id == "super" and not self.in_locals(fr, "super"):
            return self.make_super(e, fr)
        fv = self.eval(f, fr)
        logcall = self.is_logger(fv)
        if logcall:
            self.nofork += 1
        try:
            args = self.eval_elts(e.args, fr)
            kwargs = {}
            for k in e.keywords:
                if k.arg is None:
                    v = self.eval(k.value, fr)
                    if isinstance(v, DictV):
                        for kk, (kv, vv) in v.entries.items():
                            if isinstance(kv, Const) and isinstance(kv.v, str):
                                kwargs[kv.v] = vv
                            else:
                                kwargs["$unknown"] = vv
                        if v.base is not None:
                            kwargs["$rest"] = v.base
                    else:
                        kwargs["$rest"] = v
                else:
                    kwargs[k.arg] = self.eval(k.value, fr)
        finally:
            if logcall:
                self.nofork -= 1
        if logcall:
            self.effect("log", fv, None, TupleV(args))
            return NONE
        fr.node = e if not isinstance(fr.node, ast.stmt) else fr.node
        return self.call(fv, args, kwargs, e)

    def in_locals(self, fr, n):
        f = fr
        while f is not None:
            if n in f.vars:
                return True
            f = f.parent
        return n in fr.module.frame.vars

    def is_logger(self, fv):
        return (isinstance(fv, ExtMethod) and isinstance(fv.self, Sym) and fv.self.op == "call"
                and isinstance(fv.self.args[0], ExtV) and fv.self.args[0].name.startswith("logging.")) or (
            isinstance(fv, ExtV) and fv.name.startswith("logging.") and fv.name != "logging.getLogger") or (
            isinstance(fv, ExtV) and fv.name.startswith("warnings."))

    def make_super(self, e, fr):
        if e.args:
            c = self.eval(e.args[0], fr)
            o = self.eval(e.args[1], fr)
            return SuperV(c, o, None)
        f = fr
        while f is not None and not (f.func is not None and f.func.cls is not None and f.self0 is not None):
            f = f.parent
        if f is None:
            self.unsupported(e, "super")
        return SuperV(f.func.cls, f.self0, None)

    def super_lookup(self, s, name):
        obj = s.obj
        if isinstance(obj, InstV):
            mro = obj.cls.mro
        elif isinstance(obj, EnumV):
            mro = obj.cls.mro
        elif isinstance(obj, ClassV):
            if any(key(c) == key(s.cls) for c in obj.mro):
                mro = obj.mro
            elif isinstance(obj.meta, ClassV):
                mro = obj.meta.mro
            else:
                mro = s.cls.mro
        elif isinstance(obj, Sym) and isinstance(obj.typ, ClassV):
            mro = obj.typ.mro
        else:
            mro = s.cls.mro
        i = next((i for i, c in enumerate(mro) if key(c) == key(s.cls)), 0)
        for c in mro[i + 1:]:
            if isinstance(c, ClassV):
                if name in c.ns:
                    return c, c.ns[name]
            else:
                r = real_class(c)
                if r is None or hasattr(r, name):
                    return c, None
        return ExtV("object"), None

    def call(self, fv, args, kwargs, node):
        if isinstance(fv, FuncV):
            return self.call_func(fv, args, kwargs, node)
        if isinstance(fv, BoundV):
            return self.call_func(fv.func, [fv.self] + args, kwargs, node) if isinstance(fv.func, FuncV) else self.call(
                fv.func, [fv.self] + args, kwargs, node)
        if isinstance(fv, PartialV):
            kw = dict(fv.kwargs)
            kw.update(kwargs)
            return self.call(fv.func, fv.args + args, kw, node)
        if isinstance(fv, ClassV):
            return self.instantiate(fv, args, kwargs, node)
        if isinstance(fv, (StaticV,)):
            return self.call(fv.func, args, kwargs, node)
        if isinstance(fv, ClassMethodV):
            return self.call(fv.func, args, kwargs, node)
        if isinstance(fv, ExtMethod):
            return self.call_ext_method(fv, args, kwargs, node)
        if isinstance(fv, ExtV):
            return self.call_ext(fv.name, args, kwargs, node)
        if isinstance(fv, InstV):
            m = self.class_attr(fv.cls, "__call__")
            if m is not None:
                return self.call(m, [fv] + args, kwargs, node)
            rs = [real_class(b) for b in self.ext_bases(fv.cls)]
            if not fv.lazy and all(
                    r is not None and not any("__call__" in k.__dict__ for k in r.__mro__) for r in rs):
                self.raise_("TypeError", f"{fv.cls.name} object is not callable", node)
        if isinstance(fv, Const):
            self.raise_("TypeError", f"{fv.v!r} is not callable", node)
        if isinstance(fv, Sym) and fv.op == "generic":
            return self.call(fv.args[0], args, kwargs, node)
        if isinstance(fv, Sym) and fv.op == "attr" and isinstance(fv.args[1], str):
            return self.call_ext_method(ExtMethod(fv.args[1], fv.args[0]), args, kwargs, node)
        # an unknown callable
        t = Sym("call", self.term(fv), *[self.term(a) for a in args],
                *[Sym("kw", k, self.term(v)) for k, v in kwargs.items()])
        self.effect("call", fv, None, t)
        self.may_raise()
        return t

    def bind(self, f, args, kwargs, node):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        args = list(args)
        rest_unknown = kwargs.pop("$rest", None)
        unk = kwargs.pop("$unknown", None)
        stars = [i for i, v in enumerate(args) if isinstance(v, Sym) and v.op == "star"]
        if stars:
            i = stars[0]
            src = args[i].args[0]
            if a.vararg and i >= len(names):
                extra = ListV([], base=src)
            head = args[:i]
            need = [n for n in names[i:] if n not in kwargs]
            vals = [Sym("item", src, Const(j)) for j in range(len(need))]
            if a.vararg is not None and i >= len(names):
                args = head
                for n, v in zip(names, args):
                    loc[n] = v
                loc[a.vararg.arg] = ListV(head[len(names):], base=src, kind="tuple")
                args = []
            else:
                args = head + vals
                if a.vararg is not None:
                    loc[a.vararg.arg] = ListV([], base=Sym("rest", src, len(need)), kind="tuple")
        for n, v in zip(names, args):
            if n in loc:
                continue
            loc[n] = v
        if a.vararg is not None and a.vararg.arg not in loc:
            loc[a.vararg.arg] = TupleV(args[len(names):])
        elif a.vararg is None and len(args) > len(names):
            self.raise_("TypeError", f"{f.qual} takes {len(names)} positional arguments", node)
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = DictV()
        for k, v in kwargs.items():
            if k in names or k in kwonly:
                if k in loc:
                    self.raise_("TypeError", f"multiple values for {k}", node)
                loc[k] = v
            elif a.kwarg is not None:
                extra.entries[key(Const(k))] = (Const(k), v)
            else:
                self.raise_("TypeError", f"{f.qual} got an unexpected keyword argument {k}", node)
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in loc:
                j = i - (len(names) - nd)
                if rest_unknown is not None:
                    loc[n] = Sym("item", self.term(rest_unknown), Const(n))
                elif j >= 0:
                    loc[n] = f.defaults[j]
                else:
                    self.raise_("TypeError", f"{f.qual} missing argument {n}", node)
        for n in kwonly:
            if n not in loc:
                if rest_unknown is not None:
                    loc[n] = Sym("item", self.term(rest_unknown), Const(n))
                elif n in f.kwdefaults:
                    loc[n] = f.kwdefaults[n]
                else:
                    self.raise_("TypeError", f"{f.qual} missing keyword argument {n}", node)
        if a.kwarg is not None:
            if rest_unknown is not None:
                extra.base = rest_unknown
            loc[a.kwarg.arg] = extra
        return loc

    def call_func(self, f, args, kwargs, node):
        if not self.init and f.module.name in self.prog.modules:
            self.fn_seen.add((f.module.name, f.qual))
        hook = self.cfg.hooks.get(f.qual) or self.cfg.hooks.get((f.module.name, f.qual))
        if hook is not None:
            r = hook(self, f, args, dict(kwargs), node)
            if r is not None:
                return r
        if f.cls is not None and f.cls.name == "PSObject" and f.name in ("__new__", "__setattr__", "__getattribute__") and \
                "PSObject" in f.cls.ns and not self.raw:
            if f.name == "__new__":
                return self.psobject_new(args[0], args[1:], kwargs, node)
        loc = self.bind(f, args, dict(kwargs), node)
        fr = Frame(f.module, f.closure if isinstance(f.closure, Frame) and f.closure.parent is not None or (
            isinstance(f.closure, Frame) and f.closure.is_class) else None, f)
        if isinstance(f.closure, Frame) and f.closure is not f.module.frame:
            fr.parent = f.closure
        fr.vars = loc
        fr.node = f.node
        if f.cls is not None and args:
            fr.self0 = args[0]
        if len(self.frames) > self.cfg.max_depth:
            raise Unsupported("call depth " + f.qual)
        rec = sum(1 for x in self.frames if x.func is f)
        if rec > self.cfg.recursion:
            t = Sym("rec", f.qual, *[self.term(x) for x in args])
            return t
        typed = f.cls is not None and any(isinstance(c, ClassV) and c.name == "PSPropertyInfo" for c in f.cls.mro if hasattr(f.cls, "mro"))
        if typed:
            self.assume_typed += 1
        self.frames.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                fr.node = f.node.body
                return self.eval(f.node.body, fr)
            try:
                self.exec_body(f.node.body, fr)
            except Return as r:
                if "$yield" in fr.vars:
                    return fr.vars["$yield"]
                return r.v
            if "$yield" in fr.vars:
                return fr.vars["$yield"]
            return NONE
        except PyRaise as e:
            if e.where is None:
                e.where = "%s (%s)" % self.here()
            raise
        finally:
            if f.module.name in self.prog.modules:
                self.last_fn = (f, fr.node)
            self.frames.pop()
            if typed:
                self.assume_typed -= 1

    # ------------------------------------------------------------------ classes and instances
    def class_attr(self, cls, name):
        for c in cls.mro:
            if isinstance(c, ClassV) and name in c.ns:
                return c.ns[name]
        return None

    def ext_bases(self, cls):
        return [c for c in cls.mro if isinstance(c, ExtV)]

    def is_psobject(self, cls):
        return any(isinstance(c, ClassV) and c.name == "PSObject" and "PSObject" in c.ns for c in cls.mro)

    def instantiate(self, cls, args, kwargs, node, no_meta=False):
        if isinstance(cls.meta, ClassV) and not no_meta and cls.enum_members is None:
            m = self.class_attr(cls.meta, "__call__")
            if isinstance(m, FuncV):
                return self.call_func(m, [cls] + args, kwargs, node)
        hook = self.cfg.hooks.get("new:" + cls.name)
        if hook is not None:
            r = hook(self, cls, args, dict(kwargs), node)
            if r is not None:
                return r
        if cls.enum_members is not None:
            return self.enum_call(cls, args, kwargs, node)
        ext = [b.name for b in self.ext_bases(cls)]
        if "typing.NamedTuple" in ext:
            return self.fields_new(cls, args, kwargs, node, tuple_=True)
        if cls.deco:
            return self.fields_new(cls, args, kwargs, node)
        n = self.class_attr(cls, "__new__")
        if isinstance(n, StaticV):
            n = n.func
        if isinstance(n, FuncV):
            obj = self.call_func(n, [cls] + args, dict(kwargs), node)
        else:
            obj = self.alloc(cls, args, kwargs)
        if isinstance(obj, InstV) and any(c is cls for c in obj.cls.mro):
            i = self.class_attr(obj.cls, "__init__")
            if isinstance(i, FuncV):
                self.call_func(i, [obj] + args, dict(kwargs), node)
        elif isinstance(obj, Sym) and obj.typ is None:
            pass
        return obj

    def alloc(self, cls, args, kwargs):
        o = InstV(cls)
        ext = [real_class(b) for b in self.ext_bases(cls)]
        if any(r and issubclass(r, dict) for r in ext):
            o.attrs["$dict"] = DictV()
        elif any(r and issubclass(r, list) for r in ext):
            o.attrs["$list"] = ListV()
        if any(r and issubclass(r, (int, str, bytes, float)) for r in ext) or any(
                r and r.__module__ in ("datetime", "decimal", "uuid") for r in ext) or any(
                r and issubclass(r, BaseException) for r in ext):
            o.attrs["$args"] = TupleV(args)
            for k, v in kwargs.items():
                o.attrs["$kw_" + k] = v
            if args and any(r and issubclass(r, int) for r in ext) and cls.enum_members is None:
                x = self.prim(args[0])
                if (isinstance(x, Sym) and x.typ in ("str", "bytes", "float")) or isinstance(x, Const):
                    o.attrs["$const"] = self.call_ext("int", list(args), dict(kwargs), None)
            for r in ext:
                if r in (datetime.datetime, datetime.timedelta, decimal.Decimal):
                    ca, ck = [self.prim(x) for x in args], {k: self.prim(v) for k, v in kwargs.items()}
                    if all(isinstance(x, Const) for x in ca + list(ck.values())):
                        try:
                            o.attrs["$const"] = Const(r(*[x.v for x in ca], **{k: x.v for k, x in ck.items()}))
                        except (TypeError, ValueError, ArithmeticError) as e:
                            self.raise_(type(e).__name__, str(e))
                    break
        return o

    def fields_new(self, cls, args, kwargs, node, tuple_=False):
        o = InstV(cls)
        fields = []
        for c in reversed(cls.mro):
            if isinstance(c, ClassV):
                for n, an in c.annots:
                    if n not in [f for f, _ in fields]:
                        fields.append((n, c))
        names = [f for f, _ in fields]
        if len(args) > len(names):
            self.raise_("TypeError", "too many arguments", node)
        for n, v in zip(names, args):
            o.attrs[n] = v
        for k, v in kwargs.items():
            if k not in names or k in o.attrs:
                self.raise_("TypeError", f"argument {k}", node)
            o.attrs[k] = v
        for n, c in fields:
            if n not in o.attrs:
                d = c.ns.get(n)
                if d is None:
                    self.raise_("TypeError", f"missing argument {n}", node)
                if isinstance(d, Sym) and d.op == "call" and isinstance(d.args[0], ExtV) and d.args[0].name == "dataclasses.field":
                    val = None
                    for a in d.args[1:]:
                        if isinstance(a, Sym) and a.op == "kw" and a.args[0] == "default_factory":
                            val = self.call(a.args[1], [], {}, node)
                        elif isinstance(a, Sym) and a.op == "kw" and a.args[0] == "default":
                            val = a.args[1]
                    d = val if val is not None else NONE
                o.attrs[n] = d
        if tuple_:
            o.attrs["$fields"] = names
        else:
            p = self.class_attr(cls, "__post_init__")
            if isinstance(p, FuncV):
                self.call_func(p, [o], {}, node)
        return o

    def enum_by_value(self, cls, v):
        for m in cls.enum_members.values():
            if key(self.prim(m.value)) == key(self.prim(v)):
                return m
        return None

    def enum_call(self, cls, args, kwargs, node):
        if not args:
            self.raise_("TypeError", "enum call", node)
        v = self.prim(args[0])
        if isinstance(args[0], EnumV):
            if args[0].cls is cls:
                return args[0]
            v = self.prim(args[0].value)
        if isinstance(v, Const):
            m = self.enum_by_value(cls, v)
            if m is not None:
                return m
            import enum
            if any(isinstance(b, ExtV) and real_class(b) and issubclass(real_class(b), enum.Flag) for b in cls.mro):
                return EnumV(cls, f"<{v.v}>", v)
            ms = self.class_attr(cls, "_missing_")
            if ms is not None:
                f = ms.func if isinstance(ms, ClassMethodV) else ms
                return self.call_func(f, [cls, v], {}, node)
            self.raise_("ValueError", f"{v.v!r} is not a valid {cls.name}", node)
        foc = self.cfg.focus.get(cls.name)
        if foc is not None:
            self.effect("enumconv", cls, None, v)
            return cls.enum_members[foc] if isinstance(foc, str) else foc
        self.may_raise("ValueError")
        return Sym("enum", cls, self.term(v), typ=cls)

    # PSObject: the attribute protocol of the ETS base class (its implementation is checked separately)
    def psobject_new(self, cls, args, kwargs, node):
        s = SuperV(self.psobj_class(cls), cls, None)
        owner, f = self.super_lookup(s, "__new__")
        if isinstance(f, FuncV):
            obj = self.call_func(f, [cls] + list(args), kwargs, node)
        else:
            obj = self.alloc(cls, list(args), kwargs)
        meta = self.class_attr(cls, "PSObject")
        if isinstance(meta, InstV) and isinstance(obj, InstV):
            si = self.class_attr(meta.cls, "set_instance")
            self.call_func(si, [meta, obj], {}, node)
        return obj

    def psobj_class(self, cls):
        return next(c for c in cls.mro if isinstance(c, ClassV) and c.name == "PSObject" and "PSObject" in c.ns)

    def ps_find_prop(self, inst, name):
        meta = inst.attrs.get("PSObject") or self.class_attr(inst.cls, "PSObject")
        if not isinstance(meta, InstV):
            return None
        for grp in ("extended_properties", "adapted_properties"):
            lst = meta.attrs.get(grp)
            if isinstance(lst, ListV):
                for p in reversed(lst.items) if grp == "extended_properties" else lst.items:
                    if isinstance(p, InstV) and isinstance(p.attrs.get("name"), Const) and p.attrs["name"].v == name:
                        return p
        return None

    def getattr_opt(self, o, name):
        try:
            return self.getattr(o, name, None)
        except PyRaise as e:
            if isinstance(e.cls, ExtV) and e.cls.name == "AttributeError":
                return None
            raise

    def bind_attr(self, v, obj, cls):
        if isinstance(v, FuncV):
            return BoundV(v, obj)
        if isinstance(v, StaticV):
            return v.func
        if isinstance(v, ClassMethodV):
            return BoundV(v.func, cls)
        if isinstance(v, PropV):
            return self.call(v.fget, [obj], {}, None)
        return v

    def getattr(self, o, name, node, native=False):
        if isinstance(o, InstV):
            cls = o.cls
            if self.raw and not native and self.is_psobject(cls) and isinstance(name, str):
                f = self.class_attr(cls, "__getattribute__")
                if isinstance(f, FuncV):
                    try:
                        return self.call_func(f, [o, Const(name)], {}, node)
                    except PyRaise as e:
                        ga = self.class_attr(cls, "__getattr__")
                        if isinstance(ga, FuncV) and isinstance(e.cls, ExtV) and e.cls.name == "AttributeError":
                            return self.call_func(ga, [o, Const(name)], {}, node)
                        raise
            cv = self.class_attr(cls, name)
            if isinstance(cv, PropV):
                return self.call(cv.fget, [o], {}, node)
            if name in o.attrs:
                return o.attrs[name]
            if cv is not None:
                return self.bind_attr(cv, o, cls)
            if name == "__class__":
                return cls
            if name == "__dict__":
                d = AttrsV()
                d.owner = o
                for k, v in o.attrs.items():
                    if not k.startswith("$"):
                        d.entries[key(Const(k))] = (Const(k), v)
                return d
            if self.is_psobject(cls) and not self.raw:
                p = self.ps_find_prop(o, name)
                if p is not None:
                    gv = self.class_attr(p.cls, "get_value")
                    return self.call(gv, [p, o], {}, node)
                meta = o.attrs.get("PSObject")
                if isinstance(meta, InstV):
                    unk = [meta.attrs.get(g) for g in ("extended_properties", "adapted_properties")]
                    for u in unk:
                        if isinstance(u, ListV) and u.base is not None or isinstance(u, Sym):
                            return Sym("attr", o, name)
            for b in self.ext_bases(cls):
                r = real_class(b)
                if r is not None and hasattr(r, name):
                    a = getattr(r, name)
                    if "$const" in o.attrs and not callable(a):
                        return Const(getattr(o.attrs["$const"].v, name))
                    if callable(a):
                        return ExtMethod(name, o, b.name)
                    return Sym("attr", o, name)
                if r is None and b.name not in ("object",):
                    return ExtMethod(name, o, b.name) if not o.lazy else Sym("attr", o, name)
            if name in ("__init__", "__str__", "__repr__", "__hash__", "__eq__", "__setattr__", "__getattribute__"):
                return ExtMethod(name, o, "object")
            if o.lazy:
                v = Sym("attr", o, name)
                o.attrs[name] = v
                return v
            ga = self.class_attr(cls, "__getattr__")
            if isinstance(ga, FuncV):
                return self.call_func(ga, [o, Const(name)], {}, node)
            if not isinstance(name, str):
                self.raise_("TypeError", "attribute name must be string", node)
            if name.startswith("__") and (hasattr(object, name) or name in ("__module__", "__weakref__")):
                return ExtMethod(name, o, "object") if callable(getattr(object, name, None)) else Sym("attr", o, name)
            self.raise_("AttributeError", f"{cls.name}.{name}", node)
        if isinstance(o, ClassV):
            if o.enum_members is not None and name in o.enum_members:
                return o.enum_members[name]
            v = self.class_attr(o, name)
            if v is not None:
                if isinstance(v, ClassMethodV):
                    return BoundV(v.func, o)
                if isinstance(v, StaticV):
                    return v.func
                return v
            if isinstance(o.meta, ClassV):
                mv = self.class_attr(o.meta, name)
                if mv is not None:
                    return self.bind_attr(mv, o, o.meta)
            if name in ("__name__",):
                return Const(o.name)
            if name == "__qualname__":
                return Const(o.qualname)
            if name == "__module__":
                return Const(o.module.name)
            if name == "__mro__":
                return TupleV([c for c in o.mro] + ([ExtV("object")] if not any(isinstance(c, ExtV) and c.name == "object" for c in o.mro) else []))
            if name == "__bases__":
                return TupleV(o.bases)
            if name == "__orig_bases__":
                return TupleV(o.orig_bases)
            if name == "__dict__":
                d = DictV()
                for k, v in o.ns.items():
                    if not k.startswith("$"):
                        d.entries[key(Const(k))] = (Const(k), v)
                return d
            if name == "__members__" and o.enum_members is not None:
                d = DictV()
                for k, v in o.enum_members.items():
                    d.entries[key(Const(k))] = (Const(k), v)
                return d
            for b in self.ext_bases(o):
                r = real_class(b)
                if r is None or hasattr(r, name):
                    return ExtV(f"{b.name}.{name}")
            if hasattr(object, name):
                return ExtV("object." + name)
            self.raise_("AttributeError", f"{o.name}.{name}", node)
        if isinstance(o, EnumV):
            if name in ("value", "_value_"):
                return self.enum_value(o)
            if name in ("name", "_name_"):
                return Const(o.name)
            if name == "__class__":
                return o.cls
            if name == "__module__":
                return Const(o.cls.module.name)
            v = self.class_attr(o.cls, name)
            if v is not None:
                return self.bind_attr(v, o, o.cls)
            if name in o.cls.enum_members:
                return o.cls.enum_members[name]
            rs = [real_class(b) for b in self.ext_bases(o.cls)]
            if all(r is not None for r in rs) and not any(hasattr(r, name) for r in rs) and not hasattr(object, name):
                self.raise_("AttributeError", f"{o.cls.name}.{name}", node)
            return ExtMethod(name, o)
        if isinstance(o, ModV):
            v = o.mod.frame.vars.get(name)
            if v is None:
                sub = self.import_module(o.mod.name + "." + name)
                if sub:
                    return ModV(sub)
                self.raise_("AttributeError", f"{o.mod.name}.{name}", node)
            return v
        if isinstance(o, ExtV):
            n = f"{o.name}.{name}"
            r = real_class(o)
            if r is not None and not hasattr(r, name):
                self.raise_("AttributeError", n, node)
            if r is not None and name in ("__name__", "__module__", "__qualname__"):
                return Const(getattr(r, name))
            if o.name in ("posixpath", "ntpath") and name in ("sep", "altsep", "curdir", "pardir", "extsep"):
                import importlib
                return Const(getattr(importlib.import_module(o.name), name))
            return self.ext(n)
        if isinstance(o, SuperV):
            owner, v = self.super_lookup(o, name)
            if v is None:
                return ExtMethod(name, o, owner.name)
            if isinstance(v, FuncV):
                if name == "__new__":
                    return v
                return BoundV(v, o.obj)
            if isinstance(v, ClassMethodV):
                return BoundV(v.func, o.obj if isinstance(o.obj, ClassV) else o.obj.cls)
            if isinstance(v, PropV):
                return self.call(v.fget, [o.obj], {}, node)
            return v
        if isinstance(o, PropV):
            return ExtMethod(name, o)
        if isinstance(o, (FuncV, BoundV)):
            f = o if isinstance(o, FuncV) else o.func
            if isinstance(f, FuncV):
                if name in f.attrs:
                    return f.attrs[name]
                if name == "__name__":
                    return Const(f.name)
                if name == "__qualname__":
                    return Const(f.qual)
                if name == "__module__":
                    return Const(f.module.name)
                if name == "__self__" and isinstance(o, BoundV):
                    return o.self
                if name == "__func__":
                    return f
            return Sym("attr", self.term(o), name)
        if isinstance(o, Sym):
            k = (key(o), name)
            if k in self.symattrs:
                return self.symattrs[k]
            if o.op == "generic":
                if name == "__args__":
                    a = o.args[1]
                    return a if isinstance(a, TupleV) else TupleV([a])
                if name == "__origin__":
                    return o.args[0]
                return self.getattr(o.args[0], name, node)
            if o.op == "call" and isinstance(o.args[0], ExtV) and o.args[0].name.startswith("logging."):
                return ExtMethod(name, o)
            if isinstance(o.typ, ClassV):
                if o.typ.enum_members is not None and name in ("name", "value"):
                    if name == "value" and o.op == "enum":
                        return o.args[1]
                    return Sym("attr", o, name, typ="str" if name == "name" else None)
                v = self.class_attr(o.typ, name)
                if v is not None and not isinstance(v, (Const, ListV, DictV, TupleV)):
                    return self.bind_attr(v, o, o.typ)
            return Sym("attr", o, name)
        if isinstance(o, Const) and o.v is None:
            if name == "__class__":
                return ExtV("NoneType")
            self.raise_("AttributeError", f"None.{name}", node)
        if isinstance(o, Const):
            if not hasattr(o.v, name):
                self.raise_("AttributeError", name, node)
            if name in ("real", "imag", "numerator"):
                return Const(getattr(o.v, name))
            if isinstance(o.v, uuid.UUID) and isinstance(getattr(o.v, name), (int, str, bytes)):
                return Const(getattr(o.v, name))
            if isinstance(o.v, (datetime.datetime, datetime.timedelta, datetime.timezone)) and not callable(getattr(o.v, name)):
                return Const(getattr(o.v, name))
            return ExtMethod(name, o)
        if isinstance(o, BufV):
            if not hasattr(bytearray, name):
                self.raise_("AttributeError", name, node)
            return ExtMethod(name, o)
        if isinstance(o, (ListV, DictV, SetV, TupleV)):
            real = {ListV: list, DictV: dict, AttrsV: dict, SetV: set, TupleV: tuple}[type(o)]
            if not hasattr(real, name) and not (isinstance(o, ListV) and name in ("appendleft", "popleft")):
                self.raise_("AttributeError", name, node)
            return ExtMethod(name, o)
        if isinstance(o, PartialV):
            return {"func": o.func, "args": TupleV(o.args)}.get(name) or Sym("attr", self.term(o), name)
        if isinstance(o, ExtMethod):
            return Sym("attr", self.term(o), name)
        if isinstance(o, (StaticV, ClassMethodV)):
            return o.func
        self.unsupported(node, f"attribute {name} of {o!r}")

    def enum_value(self, o):
        return o.boxed if o.boxed is not None else o.value

    def j_pop(self, d, k, owner):
        if owner.born < self.prog_epoch() and k in d:
            old = d[k]
            self.journal.append(lambda: d.__setitem__(k, old))
        return d.pop(k, None)

    def j_set(self, d, k, v, owner):
        if owner.born < self.prog_epoch() and not self.init:
            if k in d:
                old = d[k]
                self.journal.append(lambda: d.__setitem__(k, old))
            else:
                self.journal.append(lambda: d.pop(k, None))
        d[k] = v

    def j_list(self, l):
        if l.born < self.prog_epoch() and not self.init:
            old, ob = list(l.items), l.base
            def undo():
                l.items[:] = old
                l.base = ob
            self.journal.append(undo)

    def j_dict(self, d):
        if d.born < self.prog_epoch() and not self.init:
            old, gone, ob = dict(d.entries), set(d.gone), d.base
            def undo():
                d.entries.clear()
                d.entries.update(old)
                d.gone = gone
                d.base = ob
            self.journal.append(undo)

    def setattr(self, o, name, v, node, native=False):
        if isinstance(o, InstV):
            if self.raw and not native and self.is_psobject(o.cls) and isinstance(name, str):
                f = self.class_attr(o.cls, "__setattr__")
                if isinstance(f, FuncV):
                    self.call_func(f, [o, Const(name), v], {}, node)
                    return
            cv = self.class_attr(o.cls, name)
            if isinstance(cv, PropV):
                if cv.fset is None:
                    self.raise_("AttributeError", f"cannot set {name}", node)
                self.call(cv.fset, [o, v], {}, node)
                return
            if name != "PSObject" and self.is_psobject(o.cls) and name not in o.attrs and not self.raw:
                p = self.ps_find_prop(o, name)
                if p is not None:
                    sv = self.class_attr(p.cls, "set_value")
                    self.call(sv, [p, v, o], {}, node)
                    return
            self.effect("setattr", o, name, v)
            self.j_set(o.attrs, name, v, o)
            return
        if isinstance(o, ClassV):
            self.effect("setattr", o, name, v)
            self.j_set(o.ns, name, v, o)
            return
        if isinstance(o, FuncV):
            self.effect("setattr", o, name, v)
            o.attrs[name] = v
            return
        if isinstance(o, SuperV):
            self.setattr(o.obj, name, v, node)
            return
        if isinstance(o, Sym):
            self.effect("setattr", o, name, v)
            self.symattrs[(key(o), name)] = v
            return
        if isinstance(o, ModV):
            self.effect("setattr", o, name, v)
            return
        if isinstance(o, (ExtV, EnumV)):
            self.effect("setattr", o, name, v)
            return
        if isinstance(o, Const) and o.v is None:
            self.raise_("AttributeError", f"None.{name}", node)
        self.unsupported(node, f"set attribute {name} of {o!r}")

    # ------------------------------------------------------------------ primitive view
    def buf_set(self, o, val, what):
        self.effect("bufset", o, what, val)
        if o.born < self.prog_epoch() and not self.init:
            old = o.val
            self.journal.append(lambda: setattr(o, "val", old))
        o.val = val

    def real(self, name):
        return real_class(name)

    def object_class(self):
        if not hasattr(self.prog, "_objcls"):
            c = ClassV("object", [], {}, None, None)
            c.mro = [c, ExtV("object")]
            self.prog._objcls = c
        return self.prog._objcls

    def make_namedtuple(self, a, node):
        nm = self.prim(a[0])
        f = self.prim(a[1])
        if isinstance(f, Const):
            names = f.v.replace(",", " ").split()
        else:
            names = [self.prim(x).v for x in self.known_items(f)]
        c = ClassV(nm.v, [ExtV("typing.NamedTuple")], {}, self.frames[-1].module, None)
        c.mro = [c, ExtV("typing.NamedTuple")]
        c.annots = [(n, None) for n in names]
        return c

    def at_end(self, l, i):
        d = lin_add(self.m_len(l), i, -1)
        return isinstance(d, Const) and d.v == 0

    def ps_class_prop(self, cls, name):
        meta = self.class_attr(cls, "PSObject")
        if not isinstance(meta, InstV):
            return False
        for grp in ("extended_properties", "adapted_properties"):
            lst = meta.attrs.get(grp)
            if isinstance(lst, ListV):
                for p in lst.items:
                    if isinstance(p, InstV) and isinstance(p.attrs.get("name"), Const) and p.attrs["name"].v == name:
                        return True
        return False

    def prim(self, v):
        """The builtin value an instance of a builtin subclass stands for."""
        if isinstance(v, BufV):
            return v.val
        if isinstance(v, InstV):
            if "$const" in v.attrs:
                return v.attrs["$const"]
            a = v.attrs.get("$args")
            if isinstance(a, TupleV):
                ext = [real_class(b) for b in self.ext_bases(v.cls)]
                if any(r and issubclass(r, (int, str, bytes, float)) for r in ext):
                    if not a.items:
                        base = next(r for r in ext if r and issubclass(r, (int, str, bytes, float)))
                        return Const(base())
                    x = self.prim(a.items[0])
                    if isinstance(x, Const) and x.v is not None:
                        try:
                            base = next(r for r in ext if r and issubclass(r, (int, str, bytes, float)))
                            if not isinstance(x.v, base):
                                return Const(base(x.v))
                        except Exception:
                            return x
                    return x
            if "$list" in v.attrs:
                return v.attrs["$list"]
            if "$dict" in v.attrs:
                return v.attrs["$dict"]
        if isinstance(v, EnumV):
            return v
        return v

    def term(self, v):
        """An immutable description of a value, to be used inside a Sym."""
        if isinstance(v, BufV):
            return v.val
        if isinstance(v, ListV):
            return Sym("list", *([Sym("star", v.base)] if v.base is not None else []), *[self.term(i) for i in v.items])
        if isinstance(v, DictV):
            return Sym("dict", *([Sym("star", v.base)] if v.base is not None else []),
                       *[Sym("pair", self.term(k), self.term(x)) for k, x in v.entries.values()])
        if isinstance(v, SetV):
            return Sym("set", *[self.term(x) for x in v.entries.values()])
        if isinstance(v, TupleV):
            return TupleV([self.term(i) for i in v.items])
        if isinstance(v, InstV) and "$fields" in v.attrs:
            return v
        return v

    # ------------------------------------------------------------------ truth
    def known_truth(self, v):
        v0 = v
        v = self.prim(v)
        if isinstance(v, Const):
            return bool(v.v)
        if isinstance(v, (ListV, SetV, DictV)):
            if v.items if isinstance(v, ListV) else v.entries:
                return True
            if v.base is None:
                return False
            return self.lookup_fact(Sym("nonempty", v.base))
        if isinstance(v, TupleV):
            return bool(v.items)
        if isinstance(v, EnumV):
            import enum
            if self.enum_is_int(v.cls) or any(isinstance(b, ExtV) and real_class(b) and issubclass(real_class(b), enum.Flag) for b in v.cls.mro):
                p = self.prim(v.value)
                if isinstance(p, Const):
                    return bool(p.v)
            return True
        if isinstance(v, InstV):
            for m in ("__bool__", "__len__"):
                f = self.class_attr(v.cls, m)
                if isinstance(f, FuncV):
                    return self.known_truth(self.call_func(f, [v], {}, None))
            return True
        if not isinstance(v, Sym):
            return True
        if v.op == "not":
            t = self.known_truth(v.args[0])
            return None if t is None else not t
        if v.op in ("and", "or"):
            ts = [self.known_truth(a) for a in v.args]
            if v.op == "and":
                if any(t is False for t in ts):
                    return False
                return True if all(t is True for t in ts) else None
            if any(t is True for t in ts):
                return True
            return False if all(t is False for t in ts) else None
        if v.op == "cat":
            if any(self.nonempty(a) for a in v.args):
                return True
        if self.nonempty(v) or text_nonempty(v):
            return True
        if v.op == "mcall" and v.args[0] == "decode" or v.op == "call" and isinstance(v.args[0], ExtV) and v.args[0].name in ("base64.b64encode", "binascii.hexlify"):
            t = self.known_truth(v.args[1])
            if t is not None:
                return t
        if v.op == "len":
            return self.known_truth(v.args[0])
        r = self.lookup_fact(v)
        if r is None and v.op == "slice":
            e = self.slice_nonempty(v)
            if e is not None:
                return self.known_truth(e)
        if r is None and self.prog.divmod and (v.typ == "int" or v.op == "eq0") and not self.init:
            d = v.args[0] if v.op == "eq0" else v
            lo, hi = self.linear(d), self.linear(lin_mul(Const(-1), d))
            if lo is True or hi is True:
                return v.op != "eq0"
            if lo is False and hi is False:
                return v.op == "eq0"
        return r

    def not_negative(self, v):
        v = self.prim(v)
        if isinstance(v, Const):
            return isinstance(v.v, int) and v.v >= 0
        if not (isinstance(v, Sym) and self.intlike(v)):
            return False
        return self.known_truth(Sym("lt0", v, typ="bool")) is False

    def slice_nonempty(self, v):
        """The condition on lengths under which a slice of a string is not empty, where its bounds are known not to be negative."""
        d, lo, hi, st = v.args
        if v.typ not in ("bytes", "str") or not (isinstance(st, Const) and st.v is None):
            return None
        nl, nh = isinstance(lo, Const) and lo.v is None, isinstance(hi, Const) and hi.v is None
        if not nl and not nh and self.not_negative(lo) and self.known_truth(self.less(self.m_len(d), hi)) is False:
            return self.less(lo, hi)
        if nh and not nl and self.not_negative(lo):
            return self.less(lo, self.m_len(d))
        if nl and not nh and self.not_negative(hi) and self.known_truth(d) is True:
            return self.less(Const(0), hi)
        return None

    def nonempty(self, v):
        if isinstance(v, Const):
            return isinstance(v.v, (str, bytes)) and bool(v.v)
        if isinstance(v, Sym):
            if v.op == "struct":
                return True
            if v.op == "call" and isinstance(v.args[0], ExtV) and v.args[0].name in ("struct.pack",):
                return True
            if v.op == "cat":
                return any(self.nonempty(a) for a in v.args)
        return False

    def lookup_fact(self, s):
        k = key(s)
        if k in self.facts:
            return self.facts[k]
        if s.op == "is" and isinstance(s.args[1], Const) and s.args[1].v is None:
            # a truthy value, an instance of something or a value compared equal to something is not None
            x = s.args[0]
            if self.facts.get(key(x)) is True:
                return False
            if key(x) in self.eqval:
                return False
            if any(kk[0:2] == ("s", "isinstance") and kk[2] == key(x) and b for kk, b in self.facts.items()):
                return False
        if s.op == "isinstance":
            x, c = s.args
            if self.facts.get(key(Sym("is", x, NONE))) is True:
                return False
            for kk, b in self.facts.items():
                if kk[0:2] == ("s", "isinstance") and kk[2] == key(x):
                    other = self.isinst_args.get(kk)
                    if other is None:
                        continue
                    if b and self.subclass(other, c):
                        return True
                    if not b and self.subclass(c, other):
                        return False
        elif s.op == "eq":
            a, b = s.args
            for x, y in ((a, b), (b, a)):
                if isinstance(y, (Const, EnumV)):
                    ev = self.eqval.get(key(x))
                    if ev is not None:
                        return key(ev) == key(y)
                    if key(y) in self.neq.get(key(x), ()):
                        return False
        elif s.op == "lt0":
            c, sk, sign = self.lin_split(s.args[0])
            b = self.bounds.get(sk)
            if b is not None:
                # sign*S + c < 0
                lo, hi = b
                if sign > 0:
                    if hi is not None and hi + c < 0:
                        return True
                    if lo is not None and lo + c >= 0:
                        return False
                else:
                    if lo is not None and -lo + c < 0:
                        return True
                    if hi is not None and -hi + c >= 0:
                        return False
            if sk and len(self.lin_terms(s.args[0])) == 1:
                t, n = self.lin_terms(s.args[0])[0]
                if isinstance(t, Sym) and t.op == "len" and n > 0 and c >= 0:
                    return False  # a length is never negative
            if sk and (len(sk) > 1 or self.nonneg):
                return self.linear(s.args[0])
        elif s.op == "eq0":
            c, sk, sign = self.lin_split(s.args[0])
            b = self.bounds.get(sk)
            if b is not None:
                v = -c if sign > 0 else c
                if (b[0] is not None and v < b[0]) or (b[1] is not None and v > b[1]):
                    return False
                if b[0] is not None and b[0] == b[1] == v:
                    return True
        elif s.typ in ("str", "bytes") or s.op in ("attr", "item", "arg"):
            if self.facts.get(key(Sym("is", s, NONE))) is True:
                return False
            ev = self.eqval.get(key(s))
            if ev is not None:
                return self.known_truth(ev)
        return None

    isinst_args = {}

    def lin_terms(self, d):
        p = lin_parts(d)
        return [p[1][k] for k in sorted(p[1], key=repr)]

    def lin_split(self, d):
        """const, key of the symbolic part with canonical sign, sign"""
        p = lin_parts(d)
        ks = sorted(p[1], key=repr)
        if not ks:
            return p[0], None, 1
        sign = 1 if p[1][ks[0]][1] > 0 else -1
        return p[0], tuple((k, p[1][k][1] * sign) for k in ks), sign

    def linear(self, d):
        """Whether d < 0 follows (True) or is excluded (False) by the linear facts of the path."""
        k = (key(d), len(self.nonneg))
        if k not in self.lin_cache:
            r = None
            if entailed(d, self.nonneg):
                r = False
            elif entailed(lin_add(lin_mul(Const(-1), d), Const(-1)), self.nonneg):
                r = True
            self.lin_cache[k] = r
        return self.lin_cache[k]

    def facts_terms(self):
        """Linear terms known not to be negative."""
        return list(self.nonneg)

    def record_fact(self, s, val):
        if s.op == "lt0":
            d = s.args[0]
            self.nonneg.append(lin_add(lin_mul(Const(-1), d), Const(-1)) if val else d)
        elif s.op == "eq0" and val:
            self.nonneg += [s.args[0], lin_mul(Const(-1), s.args[0])]
        elif self.prog.divmod and s.typ == "int" and not val:
            self.nonneg += [s, lin_mul(Const(-1), s)]
        elif self.prog.divmod and (s.op == "eq0" or s.typ == "int"):
            self.distinct.append(s.args[0] if s.op == "eq0" else s)
        self.facts[key(s)] = val
        self.facts_list.append((show(s), val))
        if s.op == "isinstance":
            self.isinst_args = dict(self.isinst_args)
            self.isinst_args[key(s)] = s.args[1]
        if s.op == "eq":
            a, b = s.args
            for x, y in ((a, b), (b, a)):
                if isinstance(y, (Const, EnumV)):
                    if val:
                        self.eqval[key(x)] = y
                    else:
                        self.neq.setdefault(key(x), set()).add(key(y))
        if s.op in ("lt0", "eq0"):
            c, sk, sign = self.lin_split(s.args[0])
            if sk is not None:
                lo, hi = self.bounds.get(sk, (None, None))
                mx = lambda a, b: b if a is None else max(a, b)
                mn = lambda a, b: b if a is None else min(a, b)
                if s.op == "lt0":
                    if sign > 0:
                        if val:
                            hi = mn(hi, -c - 1)
                        else:
                            lo = mx(lo, -c)
                    else:
                        if val:
                            lo = mx(lo, c + 1)
                        else:
                            hi = mn(hi, c)
                elif val:
                    v = -c if sign > 0 else c
                    lo, hi = mx(lo, v), mn(hi, v)
                self.bounds[sk] = (lo, hi)

    def truth(self, v, node=None):
        t = self.known_truth(v)
        if t is not None:
            return t
        v = self.prim(v)
        if isinstance(v, InstV):
            for m in ("__bool__", "__len__"):
                f = self.class_attr(v.cls, m)
                if isinstance(f, FuncV):
                    return self.truth(self.call_func(f, [v], {}, None), node)
        if isinstance(v, (ListV, DictV, SetV)):
            v = Sym("nonempty", v.base)
        if v.op == "not":
            return not self.truth(v.args[0], node)
        if v.op == "and":
            return all(self.truth(a, node) for a in v.args)
        if v.op == "or":
            return any(self.truth(a, node) for a in v.args)
        if v.op == "len":
            return self.truth(v.args[0], node)
        if v.op == "bool":
            return self.truth(v.args[0], node)
        if v.op == "mcall" and v.args[0] in ("decode", "encode", "upper", "lower") and isinstance(v.args[1], Sym):
            return self.truth(v.args[1], node)
        if v.op == "call" and isinstance(v.args[0], ExtV) and v.args[0].name in ("base64.b64encode", "binascii.hexlify") and isinstance(v.args[1], Sym):
            return self.truth(v.args[1], node)
        if v.op == "in" and isinstance(v.args[1], Sym) and v.args[1].op == "list" and all(
                not (isinstance(a, Sym) and a.op == "star") for a in v.args[1].args):
            return any(self.truth(self.eq(v.args[0], a), node) for a in v.args[1].args)
        if self.init:
            return False
        if isinstance(v, Sym) and v.op == "slice":
            e = self.slice_nonempty(v)
            if e is not None:
                return self.truth(e, node)
        if self.cfg.assume is not None:
            t = self.cfg.assume(self, v)
            if t is not None:
                self.record_fact(v, t)
                return t
        if self.nofork:
            return False
        val = self.choose(2, show(v)) == 0
        self.record_fact(v, val)
        self.note_opaque(v)
        return val

    def note_opaque(self, v):
        """Remember that the path depends on the result of something the analysis has no model for."""
        todo = [v]
        while todo:
            x = todo.pop()
            if isinstance(x, TupleV):
                todo += x.items
            if not isinstance(x, Sym):
                continue
            name = None
            if x.op == "call":
                name = x.args[0].name if isinstance(x.args[0], ExtV) else "call"
            elif x.op == "mcall":
                name = x.args[0]
            if isinstance(name, str) and name not in SOURCES:
                self.opaque.append(name)
            todo += [a for a in x.args if isinstance(a, V)]
            if x.op == "lin":
                todo += [t for t, _ in x.args[1]]

    # ------------------------------------------------------------------ isinstance
    def subclass(self, a, b):
        if isinstance(b, TupleV):
            return any(self.subclass(a, x) for x in b.items)
        if isinstance(a, TupleV):
            return all(self.subclass(x, b) for x in a.items)
        if isinstance(a, Sym) and a.op == "generic":
            a = a.args[0]
        if isinstance(b, Sym) and b.op == "generic":
            b = b.args[0]
        if isinstance(a, ClassV):
            for c in a.mro:
                if key(c) == key(b):
                    return True
                if isinstance(c, ExtV) and isinstance(b, ExtV):
                    rc, rb = real_class(c), real_class(b)
                    if rc and rb and issubclass(rc, rb):
                        return True
            return isinstance(b, ExtV) and b.name == "object"
        if isinstance(a, ExtV) and isinstance(b, ExtV):
            ra, rb = real_class(a), real_class(b)
            if ra and rb:
                return issubclass(ra, rb)
            return a.name == b.name
        return False

    def type_of(self, v):
        if isinstance(v, InstV):
            return v.cls
        if isinstance(v, EnumV):
            return v.cls
        if isinstance(v, BufV):
            return ExtV("bytearray")
        if isinstance(v, Const):
            t = type(v.v)
            return ExtV(t.__name__ if t.__module__ == "builtins" else f"{t.__module__}.{t.__name__}")
        if isinstance(v, ListV):
            return ExtV("list" if v.kind == "list" else v.kind)
        if isinstance(v, DictV):
            return ExtV("dict")
        if isinstance(v, SetV):
            return ExtV("set")
        if isinstance(v, TupleV):
            return ExtV("tuple")
        if isinstance(v, (FuncV, )):
            return ExtV("types.FunctionType")
        if isinstance(v, (BoundV,)):
            return ExtV("types.MethodType")
        if isinstance(v, (ExtMethod, PartialV)):
            return ExtV("types.BuiltinFunctionType")
        if isinstance(v, ClassV):
            return v.meta if isinstance(v.meta, (ClassV, ExtV)) else ExtV("type")
        if isinstance(v, Sym):
            if isinstance(v.typ, ClassV):
                return v.typ
            if isinstance(v.typ, str) and v.typ not in ("type",):
                return ExtV(v.typ)
        return None

    def isinstance_(self, v, c):
        if isinstance(c, ListV):
            c = TupleV(c.items)
        if isinstance(c, TupleV):
            flat = []
            for x in c.items:
                flat.extend(x.items if isinstance(x, TupleV) else [x])
            c = TupleV(flat)
        if isinstance(c, Sym) and c.op == "generic":
            c = c.args[0] if not isinstance(c.args[1], (ClassV, ExtV)) else TupleV(list(c.args))
        t = self.type_of(v)
        if isinstance(v, ClassV):
            tt = [ExtV("type")]
            if isinstance(v.meta, (ClassV, ExtV)):
                tt.append(v.meta)
            return Const(any(self.subclass(x, c) for x in tt))
        if isinstance(v, ExtV):
            if real_class(v):
                return Const(self.subclass(ExtV("type"), c))
            return FALSE
        if isinstance(v, Sym) and t is not None and isinstance(t, ExtV) and t.name == "bytes":
            # bytes and bytearray are one abstract type
            cs = c.items if isinstance(c, TupleV) else [c]
            return Const(any(isinstance(x, ExtV) and x.name in ("bytes", "bytearray", "object") for x in cs))
        if t is not None:
            if isinstance(v, Sym) and isinstance(t, ClassV):
                if self.subclass(t, c):
                    return TRUE
                cs = c.items if isinstance(c, TupleV) else [c]
                if any(isinstance(x, ClassV) and self.subclass(x, t) for x in cs):
                    return self.isinst_sym(v, c)
                return FALSE
            return Const(self.subclass(t, c))
        if isinstance(v, Sym):
            if self.assume_typed:
                return TRUE
            return self.isinst_sym(v, c)
        return FALSE

    def isinst_sym(self, v, c):
        if isinstance(c, TupleV) and c.items:
            out = [Sym("isinstance", v, x, typ="bool") for x in c.items]
            return out[0] if len(out) == 1 else Sym("or", *out, typ="bool")
        return Sym("isinstance", v, c, typ="bool")

    # ------------------------------------------------------------------ containers
    def known_items(self, v):
        """The elements of a completely known iterable, else None."""
        if isinstance(v, TupleV):
            return list(v.items)
        if isinstance(v, ListV):
            return list(v.items) if v.base is None else None
        if isinstance(v, SetV):
            return list(v.entries.values()) if v.base is None else None
        if isinstance(v, DictV):
            return [k for k, _ in v.entries.values()] if v.base is None else None
        if isinstance(v, Const):
            if isinstance(v.v, str):
                return [Const(c) for c in v.v]
            if isinstance(v.v, bytes):
                return [Const(c) for c in v.v]
            if v.v is None or isinstance(v.v, (int, float)):
                self.raise_("TypeError", "not iterable")
        if isinstance(v, ClassV) and v.enum_members is not None:
            seen, out = set(), []
            for m in v.enum_members.values():
                if m.name not in seen:
                    seen.add(m.name)
                    out.append(m)
            return out
        if isinstance(v, InstV):
            if "$list" in v.attrs:
                return self.known_items(v.attrs["$list"])
            if "$dict" in v.attrs:
                return self.known_items(v.attrs["$dict"])
            if "$fields" in v.attrs:
                return [v.attrs[f] for f in v.attrs["$fields"]]
            p = self.prim(v)
            if p is not v:
                return self.known_items(p)
            f = self.class_attr(v.cls, "__iter__")
            if isinstance(f, FuncV):
                return self.known_items(self.call_func(f, [v], {}, None))
        return None

    def iter_source(self, v):
        p = self.prim(v)
        if isinstance(p, (ListV, DictV, SetV)) and p.base is not None and not (p.items if isinstance(p, ListV) else p.entries):
            return p.base
        return self.term(p)

    def generic_elem(self, cont, src, idx):
        p = self.prim(cont)
        el = getattr(p, "elem", None)
        if el is not None:
            r = el(self, src, idx)
            if r is not None:
                return r
        return Sym("elem", src, idx)

    def iterate(self, v, node):
        if isinstance(v, IterV):
            if v.gen is not None:
                yield from v.gen
            while v.items:
                self.progress += 1
                yield v.items.pop(0)
            return
        kn = self.known_items(v)
        if kn is not None:
            yield from kn
            return
        p = self.prim(v)
        if isinstance(p, InstV):
            f = self.class_attr(p.cls, "__iter__")
            if isinstance(f, FuncV):
                yield from self.iterate(self.call_func(f, [p], {}, node), node)
                return
        src = self.iter_source(v)
        base = getattr(p, "base", None)
        n = 0
        if base is not None or not isinstance(p, (ListV, DictV, SetV)):
            while n < self.cfg.unroll:
                s = Sym("more", src if base is None else base, n)
                if n == 0 and base is not None:
                    s = Sym("nonempty", base)
                if not self.truth(s, node):
                    break
                yield self.generic_elem(v, src if base is None else base, n)
                n += 1
        if isinstance(p, ListV):
            for x in list(p.items):
                yield x
        elif isinstance(p, SetV):
            for x in list(p.entries.values()):
                yield x
        elif isinstance(p, DictV):
            for k, _ in list(p.entries.values()):
                yield k

    def list_extend(self, l, v, node, quiet=False):
        if not quiet:
            self.effect("extend", l, None, self.term(v))
        self.j_list(l)
        kn = self.known_items(v)
        if kn is not None:
            l.items.extend(kn)
            return
        p = self.prim(v)
        if isinstance(p, ListV) and l.base is None and not l.items:
            l.base = p.base
            l.elem = p.elem
            l.items.extend(p.items)
            return
        if l.base is None and not l.items:
            l.base = self.iter_source(v)
        else:
            l.items.append(Sym("star", self.iter_source(v)))

    def dict_update(self, d, v, node, quiet=False):
        if not quiet:
            self.effect("update", d, None, self.term(v))
        self.j_dict(d)
        v = self.prim(v)
        if isinstance(v, DictV):
            if v.base is not None:
                d.base = v.base if d.base is None else Sym("merge", d.base, v.base)
            d.entries.update(v.entries)
        else:
            kn = self.known_items(v)
            if kn is not None and all(isinstance(x, TupleV) and len(x.items) == 2 for x in kn):
                for x in kn:
                    d.entries[key(x.items[0])] = (x.items[0], x.items[1])
            else:
                d.base = self.term(v) if d.base is None else Sym("merge", d.base, self.term(v))

        self.attrs_view(d)

    def attrs_view(self, d):
        if isinstance(d, AttrsV):
            for k, v in d.entries.values():
                if isinstance(k, Const) and d.owner.attrs.get(k.v) is not v:
                    self.effect("setattr", d.owner, k.v, v)
                    self.j_set(d.owner.attrs, k.v, v, d.owner)

    def dict_has(self, d, k):
        kk = self.dkey(d, k)
        if kk in d.entries:
            return TRUE
        if kk in d.gone:
            return FALSE
        if d.base is None:
            if isinstance(k, Sym):
                # may equal one of the known keys
                for dk, _ in d.entries.values():
                    r = self.eq(k, dk)
                    if isinstance(r, Sym):
                        return Sym("or", *[self.eq(k, x) for x, _ in d.entries.values()], typ="bool") if len(d.entries) > 1 else r
            return FALSE
        return Sym("haskey", d.base, self.term(k), typ="bool")

    def dkey(self, d, k):
        p = self.prim(k)
        if isinstance(p, EnumV) and self.enum_is_int(p.cls) and key(p) not in d.entries:
            v = self.prim(p.value)
            if key(v) in d.entries:
                return key(v)
            for kk, (dk, _) in d.entries.items():
                if isinstance(dk, EnumV) and dk.cls is not p.cls and self.enum_is_int(dk.cls) and key(self.prim(dk.value)) == key(v):
                    return kk
        elif isinstance(p, Const) and isinstance(p.v, int) and key(p) not in d.entries:
            for kk, x in d.entries.items():
                dk = x[0] if isinstance(x, tuple) else x
                if isinstance(dk, EnumV) and self.enum_is_int(dk.cls) and key(self.prim(dk.value)) == key(p):
                    return kk
        elif isinstance(p, InstV) and key(p) not in d.entries and isinstance(self.class_attr(p.cls, "__eq__"), FuncV) and isinstance(self.class_attr(p.cls, "__hash__"), FuncV):
            for kk, (dk, _) in list(d.entries.items()):
                if isinstance(dk, InstV):
                    r = self.prim(self.eq(dk, p))
                    if isinstance(r, Const) and r.v is True:
                        return kk
        return key(p)

    def dict_get(self, d, k, node):
        """value or None when absent"""
        kk = self.dkey(d, k)
        if kk in d.entries:
            return d.entries[kk][1]
        if kk in d.gone:
            return None
        if isinstance(k, Sym) and d.entries:
            for dk, dv in list(d.entries.values()):
                r = self.eq(k, dk)
                if isinstance(r, Sym) and self.truth(r, node):
                    return dv
        if d.base is None:
            return None
        if self.truth(Sym("haskey", d.base, self.term(k), typ="bool"), node):
            if d.elem is not None:
                v = d.elem(self, d.base, k)
            else:
                v = Sym("item", d.base, self.term(k))
            d.entries[kk] = (k, v)
            return v
        d.gone.add(kk)
        return None

    def get_item(self, o, k, node):
        if isinstance(o, InstV):
            f = self.class_attr(o.cls, "__getitem__")
            if isinstance(f, FuncV):
                return self.call_func(f, [o, k], {}, node)
            if "$fields" in o.attrs and isinstance(k, Const):
                return o.attrs[o.attrs["$fields"][k.v]]
            p = self.prim(o)
            if p is not o:
                return self.get_item(p, k, node)
            return Sym("item", o, self.term(k))
        if isinstance(o, ClassV):
            if o.enum_members is not None:
                pk = self.prim(k)
                if isinstance(pk, Const):
                    if pk.v in o.enum_members:
                        return o.enum_members[pk.v]
                    self.raise_("KeyError", pk.v, node)
                return Sym("enumname", o, self.term(pk), typ=o)
            return Sym("generic", o, k)
        if isinstance(o, DictV):
            v = self.dict_get(o, k, node)
            if v is None:
                self.raise_("KeyError", "", node)
            return v
        pk = self.prim(k)
        if isinstance(o, BufV):
            r = self.get_item(o.val, k, node)
            return BufV(r) if isinstance(pk, Sym) and pk.op == "sliceobj" else r
        if isinstance(o, (ListV, TupleV)):
            if isinstance(pk, Const) and isinstance(pk.v, int):
                i = pk.v
                if isinstance(o, TupleV) or o.base is None:
                    if -len(o.items) <= i < len(o.items):
                        return o.items[i]
                    self.raise_("IndexError", "", node)
                if i < 0 and -i <= len(o.items):
                    return o.items[i]
                return self.generic_elem(o, o.base, i) if o.elem else Sym("item", o.base, pk)
            if isinstance(pk, Sym) and pk.op == "sliceobj":
                lo, hi, st = pk.args
                if all(isinstance(x, Const) for x in pk.args) and (isinstance(o, TupleV) or o.base is None):
                    its = o.items[slice(lo.v, hi.v, st.v)]
                    return TupleV(its) if isinstance(o, TupleV) else ListV(its)
                if isinstance(o, ListV) and self.tail_index(o, pk) is not None:
                    return ListV(o.items[self.tail_index(o, pk):])
                if isinstance(o, ListV) and o.base is not None and isinstance(lo, Const) and lo.v in (None, 0) \
                        and isinstance(st, Const) and st.v is None:
                    n = self.tail_index(o, Sym("sliceobj", hi, NONE, NONE))
                    if n is not None:
                        return ListV(o.items[:n], base=o.base)
                return ListV([], base=Sym("slice", self.term(o), lo, hi, st))
            return Sym("item", self.term(o), self.term(pk))
        if isinstance(o, Const):
            if o.v is None:
                self.raise_("TypeError", "None is not subscriptable", node)
            try:
                if isinstance(pk, Const):
                    return Const(o.v[pk.v])
                if isinstance(pk, Sym) and pk.op == "sliceobj" and all(isinstance(x, Const) for x in pk.args):
                    return Const(o.v[slice(*[x.v for x in pk.args])])
            except (IndexError, TypeError):
                self.raise_("IndexError", "", node)
        if isinstance(o, Sym) and o.op == "generic":
            return o
        if isinstance(pk, Sym) and pk.op == "sliceobj":
            lo, hi, st = [self.prim(x) for x in pk.args]
            if isinstance(lo, Const) and lo.v == 0:
                lo = NONE
            typ = o.typ if isinstance(o, Sym) and o.typ in ("str", "bytes") else None
            if isinstance(o, Const) and isinstance(o.v, (str, bytes)):
                typ = type(o.v).__name__
            if typ and isinstance(st, Const) and st.v is None:
                from .ropes import slice_rope
                r = slice_rope(self, o, None if isinstance(lo, Const) and lo.v is None else lo, None if isinstance(hi, Const) and hi.v is None else hi)
                if r is not None:
                    return r
            return Sym("slice", self.term(o), lo, hi, st, typ=typ)
        if isinstance(o, Sym) and o.typ == "bytes" and self.intlike(pk) and (isinstance(pk, Sym) or isinstance(pk.v, int)) and self.not_negative(pk):
            from .ropes import slice_rope
            r = slice_rope(self, o, pk, lin_add(pk, Const(1)))
            if isinstance(r, Const) and len(r.v) == 1:
                return Const(r.v[0])
            if isinstance(r, Sym) and r.op == "struct" and len(r.args) == 2 and r.args[0][-1] == "B":
                return r.args[1]
            if isinstance(pk, Const):
                base, pos = o, pk
                if isinstance(r, Sym) and r.op == "slice" and isinstance(r.args[1], Const) and r.args[1].v is not None:
                    base, pos = r.args[0], r.args[1]
                return Sym("unpacked", base, "B", pos, typ="int")
        if isinstance(o, Sym):
            if o.op == "struct_unpack" and isinstance(pk, Const):
                return Sym("unpacked", *o.args, pk.v, typ="int")
            self.may_raise("KeyError", "IndexError")
            k2 = (key(o), "item", key(pk))
            if k2 in self.symattrs:
                return self.symattrs[k2]
        return Sym("item", self.term(o), self.term(pk))

    def set_item(self, o, k, v, node):
        if isinstance(o, InstV):
            f = self.class_attr(o.cls, "__setitem__")
            if isinstance(f, FuncV):
                self.call_func(f, [o, k, v], {}, node)
                return
            p = self.prim(o)
            if p is not o:
                self.set_item(p, k, v, node)
                return
            self.effect("setitem", o, k, v)
            return
        if isinstance(o, BufV):
            self.buf_set(o, Sym("itemset", o.val, self.term(k), self.term(self.prim(v)), typ="bytes"), "setitem")
            return
        self.effect("setitem", o, k, v)
        if isinstance(o, DictV):
            self.j_dict(o)
            kk = self.dkey(o, k)
            o.entries[kk] = (k, v)
            o.gone.discard(kk)
            self.attrs_view(o)
        elif isinstance(o, ListV):
            self.j_list(o)
            if isinstance(k, Const) and isinstance(k.v, int) and -len(o.items) <= k.v < len(o.items) and (o.base is None or k.v < 0):
                o.items[k.v] = v
            elif isinstance(k, Sym) and k.op == "sliceobj":
                if o.base is None and all(isinstance(x, Const) and x.v is None for x in k.args):
                    o.items = []
                    self.list_extend(o, v, node, quiet=True)
                elif all(isinstance(x, Const) for x in k.args) and o.base is None and self.known_items(v) is not None:
                    o.items[slice(*[x.v for x in k.args])] = self.known_items(v)
                else:
                    o.base = Sym("sliceset", self.term(o), self.term(v))
                    o.items = []
            else:
                o.base = Sym("itemset", self.term(o), self.term(k), self.term(v))
                o.items = []
        elif isinstance(o, Sym):
            self.symattrs[(key(o), "item", key(self.prim(k)))] = v
        elif isinstance(o, ClassV):
            pass
        else:
            self.unsupported(node, "store")

    def del_item(self, o, k, node):
        if isinstance(o, BufV):
            pk = self.prim(k)
            if isinstance(pk, Sym) and pk.op == "sliceobj" and isinstance(pk.args[0], Const) and pk.args[0].v in (None, 0) and isinstance(
                    pk.args[2], Const) and pk.args[2].v is None:
                nv = self.get_item(o.val, Sym("sliceobj", pk.args[1], NONE, NONE), node)
            else:
                nv = Sym("itemdel", o.val, self.term(pk), typ="bytes")
            self.buf_set(o, nv, "delitem")
            return
        p = self.prim(o)
        if isinstance(p, DictV):
            v = self.dict_get(p, k, node)
            if v is None:
                self.raise_("KeyError", "", node)
            self.effect("delitem", p, k, v)
            self.j_dict(p)
            kk = self.dkey(p, k)
            p.entries.pop(kk, None)
            p.gone.add(kk)
            return
        self.effect("delitem", p, k, None)
        if isinstance(p, ListV):
            self.j_list(p)
            if isinstance(k, Const) and isinstance(k.v, int) and p.base is None and -len(p.items) <= k.v < len(p.items):
                del p.items[k.v]
            elif isinstance(k, Sym) and k.op == "sliceobj" and all(isinstance(x, Const) for x in k.args) and p.base is None:
                del p.items[slice(*[x.v for x in k.args])]
            elif self.tail_index(p, k) is not None:
                del p.items[self.tail_index(p, k):]
            else:
                p.base = Sym("itemdel", self.term(p), self.term(k))
                p.items = []
        elif isinstance(p, Sym):
            pass

    def tail_index(self, l, k):
        """n when the slice k is [len(base) + n:] (or a negative start within the known tail) of a list with an unknown prefix."""
        if not (isinstance(k, Sym) and k.op == "sliceobj") or l.base is None:
            return None
        lo, hi, st = [self.prim(x) for x in k.args]
        if not all(isinstance(x, Const) and x.v is None for x in (hi, st)):
            return None
        if isinstance(lo, Const):
            return len(l.items) + lo.v if isinstance(lo.v, int) and -len(l.items) <= lo.v < 0 else None
        d = lin_add(lo, Sym("len", l.base, typ="int"), -1)
        return d.v if isinstance(d, Const) and 0 <= d.v <= len(l.items) else None

    from .builtin_models import call_ext, call_ext_method, list_method, dict_method, set_method, str_method, m_len  # noqa


from .builtin_models import text_nonempty  # noqa: E402
