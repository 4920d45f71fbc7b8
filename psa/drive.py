"""Drivers: put an abstract pool or pipeline into a general state, apply one public operation, describe the outcome.

Only public names of the package are used to reach the code (constructors, public methods, `receive_data`/`next_event`),
private attributes are found by looking at the abstract heap.
"""
import ast
import fnmatch
import struct
import uuid

from .interp import *
from .values import *

RPID = uuid.UUID("11111111-2222-3333-4444-555555555555")
PID = uuid.UUID("aaaaaaaa-bbbb-cccc-dddd-eeeeeeeeeeee")
PID2 = uuid.UUID("aaaaaaaa-bbbb-cccc-dddd-ffffffffffff")


def stored_names(prog):
    """Attribute names stored somewhere outside a constructor (patterns for computed names)."""
    if hasattr(prog, "_stored"):
        return prog._stored
    out = set()

    def visit(n, infn):
        for c in ast.iter_child_nodes(n):
            f = c.name if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)) else infn
            if isinstance(c, ast.Attribute) and isinstance(c.ctx, (ast.Store, ast.Del)) and infn not in ("__init__", "__new__"):
                out.add(c.attr)
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "setattr" and len(c.args) == 3:
                a = c.args[1]
                if isinstance(a, ast.Constant):
                    out.add(str(a.value))
                elif isinstance(a, ast.JoinedStr):
                    out.add("".join(str(v.value) if isinstance(v, ast.Constant) else "*" for v in a.values))
                else:
                    # a computed name: it can be any of the runspace pool's own attributes that no literal store names
                    out.add("_*")
            visit(c, f)

    for m in prog.modules.values():
        visit(m.tree, None)
    prog._stored = out
    return out


def is_stored(prog, name):
    return any(name == p or ("*" in p and fnmatch.fnmatchcase(name, p)) for p in stored_names(prog))


class Msg:
    """A queued message."""

    def __init__(self, inst, obj, it):
        self.inst, self.obj = inst, obj
        g = lambda n: inst.attrs.get(n)
        self.type = g("message_type")
        self.name = self.type.name if isinstance(self.type, EnumV) else show(self.type) if self.type is not None else None
        self.pid, self.rpid, self.oid, self.stream = g("pipeline_id"), g("runspace_pool_id"), g("object_id"), g("stream_type")
        self.it = it

    def field(self, name):
        return field(self.it, self.obj, name)

    def __repr__(self):
        return f"{self.name}->{show(self.pid)}/{getattr(self.stream, 'name', self.stream)}"


def field(it, obj, name):
    """The value of a property of an abstract PSObject (through the property protocol), or None."""
    if isinstance(obj, InstV):
        for p in props(it, obj):
            n = p.attrs.get("name")
            if isinstance(n, Const) and n.v == name:
                gv = it.class_attr(p.cls, "get_value")
                return it.call(gv, [p, obj], {}, None)
        if name in obj.attrs:
            return obj.attrs[name]
        return None
    if isinstance(obj, Sym):
        return it.getattr(obj, name, None)
    return None


def props(it, obj):
    meta = obj.attrs.get("PSObject")
    if not isinstance(meta, InstV):
        return []
    out = []
    for g in ("extended_properties", "adapted_properties"):
        l = meta.attrs.get(g)
        if isinstance(l, ListV):
            out += [p for p in l.items if isinstance(p, InstV)]
    return out


def prop_values(it, obj):
    d = {}
    for p in props(it, obj):
        n = p.attrs.get("name")
        if isinstance(n, Const) and n.v not in d:
            gv = it.class_attr(p.cls, "get_value")
            d[n.v] = it.call(gv, [p, obj], {}, None)
    return d


class World:
    """One abstract run."""

    def __init__(self, prog, it):
        self.prog, self.it = prog, it
        it.world = self
        self.serialized = []

    # -------------------------------------------------------------- construction
    def cls(self, name):
        return self.prog.cls(name)

    def enum(self, cls, member):
        m = self.cls(cls).enum_members
        if m is None or member not in m:
            raise AnchorLost(f"{cls}.{member}")
        return m[member]

    def new(self, cls, *args, **kw):
        return self.it.call(self.cls(cls), list(args), kw, None)

    def call(self, obj, meth, *args, **kw):
        return self.it.call(self.it.getattr(obj, meth, None), list(args), kw, None)

    def get(self, obj, name):
        return self.it.getattr(obj, name, None)

    def client(self, **kw):
        kw.setdefault("runspace_pool_id", Const(RPID))
        return self.new("ClientRunspacePool", **kw)

    def server(self, known=True, **kw):
        s = self.new("ServerRunspacePool", **kw)
        if known:  # the pool was opened by a client with this id
            s.attrs["runspace_pool_id"] = Const(RPID)
        return s

    def set_state(self, obj, name, enum="RunspacePoolState"):
        obj.attrs["state"] = self.enum(enum, name)

    def reset(self):
        self.it.effects.clear()

    def generalise(self, obj, tag=None, keep=(), seen=None, depth=0):
        """Forget what the constructor fixed but operations change."""
        seen = seen if seen is not None else set()
        if obj.born in seen or depth > 2:
            return
        seen.add(obj.born)
        tag = tag or obj.cls.name
        for n, v in list(obj.attrs.items()):
            if n in keep or n.startswith("$") or n in ("state", "PSObject"):
                continue
            if isinstance(v, Const) and is_stored(self.prog, n) and (v.v is None or isinstance(v.v, (int, bool))):
                typ = "bool" if isinstance(v.v, bool) else "int" if isinstance(v.v, int) else None
                obj.attrs[n] = Sym("field", tag, n, typ=typ)
            elif isinstance(v, DictV) and v.base is None:
                v.base = Sym("field", tag, n)
            elif isinstance(v, ListV) and v.base is None:
                v.base = Sym("field", tag, n)
            elif isinstance(v, InstV) and v.cls.module.name.endswith("_crypto"):
                self.generalise(v, tag + "." + n, keep, seen, depth + 1)

    # -------------------------------------------------------------- observation
    def is_message(self, v):
        return isinstance(v, InstV) and isinstance(v.attrs.get("message_type"), V) and "object_id" in v.attrs \
            and "stream_type" in v.attrs

    def queued(self, pool):
        """Messages the pool holds for sending beyond those it held before, in order."""
        out = []
        for n, v in pool.attrs.items():
            v = self.it.prim(v) if isinstance(v, V) else v
            items = v.items if isinstance(v, ListV) else [x for _, x in v.entries.values()] if isinstance(v, DictV) else ()
            for m in items:
                if self.is_message(m):
                    out.append(Msg(m, self.payload(m), self.it))
        return out

    def payload(self, m):
        """The object a queued message was serialized from."""
        for n, v in m.attrs.items():
            t = v.val if isinstance(v, BufV) else v
            o = self.find_serialized(t)
            if o is not None:
                return self.serialized[o]
        return None

    def find_serialized(self, t, depth=0):
        if isinstance(t, Sym) and depth < 12:
            if t.op == "serialized":
                return t.args[0]
            for a in t.args:
                if isinstance(a, V):
                    r = self.find_serialized(a, depth + 1)
                    if r is not None:
                        return r
        return None

    # -------------------------------------------------------------- wire
    def mtype(self, name):
        v = self.it.prim(self.enum("PSRPMessageType", name).value)
        if not isinstance(v, Const):
            raise Unsupported("message number of " + name)
        return v.v

    def wire(self, name, pid=None, oid=7, data=b"<x/>", dest=1, rpid=RPID, number=None):
        m = struct.pack("<iI", dest, self.mtype(name) if number is None else number) + rpid.bytes_le + \
            (pid or uuid.UUID(int=0)).bytes_le + data
        return struct.pack(">QQBI", oid, 0, 3, len(m)) + m

    def receive_bytes(self, pool, data):
        pl = self.new("PSRPPayload", Const(data) if isinstance(data, bytes) else data, self.enum("StreamType", "default"), NONE)
        self.call(pool, "receive_data", pl)

    def receive(self, pool, name, pid=None, rpid=RPID, data=None, number=None, oid=7):
        client = isinstance(pool, InstV) and any(c is self.cls("ClientRunspacePool") for c in pool.cls.mro)
        if data is None:
            data = b"" if name == "EndOfPipelineInput" else b"<x/>"
        self.receive_bytes(pool, self.wire(name, pid, data=data, dest=1 if client else 2, rpid=rpid, number=number, oid=oid))
        return self.call(pool, "next_event")


def hook_serialize(fail=None):
    """`serialize` as an opaque step; fail(it, world, obj) says whether it may fail on this object."""

    def h(it, f, args, kw, node):
        w = it.world
        obj = args[0] if args else kw.get("value")
        it.effect("serialize", obj, None, TupleV([it.term(a) for a in args[1:]] + [Sym("kw", k, it.term(v)) for k, v in sorted(kw.items())]))
        if fail is not None and fail(it, w, obj):
            if it.choose(2) == 1:
                it.effect("serialize-failed", obj, None, NONE)
                raise PyRaise(Sym("exc", "SerializeError"), ExtV("Exception"), node)
        w.serialized.append(obj)
        return Sym("serialized", len(w.serialized) - 1)

    return h


def hook_deserialize(world_prepare=None, value=None):
    def h(it, f, args, kw, node):
        w = it.world
        it.effect("deserialize", args[0] if args else NONE, None, TupleV([it.term(a) for a in args[1:]] + [Sym("kw", k, it.term(v)) for k, v in sorted(kw.items())]))
        if world_prepare is not None:
            world_prepare(w)
        return value(w) if value is not None else Sym("incoming")

    return h


def config(fail=None, prepare=None, value=None, **kw):
    hooks = {"serialize": hook_serialize(fail), "deserialize": hook_deserialize(prepare, value)}
    hooks.update(kw.pop("hooks", {}))
    return Config(hooks=hooks, **kw)


def run(prog, body, cfg):
    """Explore body(world); returns the paths, each with .world"""

    def r(it):
        w = World(prog, it)
        return body(w)

    paths = explore(prog, r, cfg)
    for p in paths:
        p.world = p.interp.world
    return paths
