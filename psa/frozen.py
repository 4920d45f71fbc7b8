"""What a value owns on the abstract heap, and what changed in it."""
from .values import *


def parts(o, classes=False):
    """(label, value) of everything held directly by a heap object."""
    if isinstance(o, InstV):
        for n, v in o.attrs.items():
            yield n, v
    elif isinstance(o, ListV):
        if o.base is not None:
            yield "*", o.base
        for i, v in enumerate(o.items):
            yield i, v
    elif isinstance(o, DictV):
        if o.base is not None:
            yield "*", o.base
        for i, (k, v) in enumerate(o.entries.values()):
            yield f"key {i}", k
            yield f"value {i}", v
    elif isinstance(o, SetV):
        if o.base is not None:
            yield "*", o.base
        for i, v in enumerate(o.entries.values()):
            yield i, v
    elif isinstance(o, BufV):
        yield "buffer", o.val
    elif isinstance(o, ClassV) and classes:
        for n, v in o.ns.items():
            yield n, v


def inside(v):
    """Heap objects inside an immutable value."""
    if isinstance(v, (TupleV,)):
        for i in v.items:
            yield from inside(i)
    elif isinstance(v, Heap):
        yield v
    elif isinstance(v, BoundV):
        yield from inside(v.self)
    elif isinstance(v, EnumV):
        if isinstance(v.boxed, V):
            yield from inside(v.boxed)
    elif isinstance(v, PartialV):
        for i in v.args:
            yield from inside(i)


def reach(roots, classes=False, stop=None):
    """{born: (object, path)} of the mutable objects reachable from roots [(name, value)]; functions and (unless asked for) classes are not followed."""
    out = {}
    todo = []
    for n, v in roots:
        for h in inside(v):
            todo.append((h, n))
    while todo:
        o, path = todo.pop()
        if o.born in out or isinstance(o, FuncV) or (isinstance(o, ClassV) and not classes):
            continue
        if stop is not None and stop(o):
            continue
        out[o.born] = (o, path)
        for n, v in parts(o, classes):
            for h in inside(v):
                todo.append((h, f"{path}.{n}" if isinstance(n, str) and not n.startswith(("key ", "value ", "*")) else f"{path}[{n}]"))
    return out


def fingerprint(o):
    """What the object holds now, by identity."""
    if isinstance(o, InstV):
        return {n: key(v) for n, v in o.attrs.items()}
    if isinstance(o, DictV):
        return {"entries": [(k, key(v)) for k, (_, v) in o.entries.items()], "gone": sorted(map(str, o.gone)), "base": None if o.base is None else key(o.base)}
    if isinstance(o, ListV):
        return {"items": [key(v) for v in o.items], "base": None if o.base is None else key(o.base)}
    if isinstance(o, SetV):
        return {"items": list(o.entries)}
    if isinstance(o, BufV):
        return {"buffer": key(o.val)}
    if isinstance(o, ClassV):
        return {n: key(v) for n, v in o.ns.items()}
    return {}


class Frozen:
    """The state of everything reachable from some values, to be compared later."""

    def __init__(self, roots, classes=False, stop=None):
        self.objs = reach(roots, classes, stop)
        self.before = {b: fingerprint(o) for b, (o, _) in self.objs.items()}

    def changes(self, ignore=None):
        """[(path, text)] of what differs now; a new private attribute (a cache) of an object is not a difference."""
        out = []
        for b, (o, path) in self.objs.items():
            now, was = fingerprint(o), self.before[b]
            if now == was:
                continue
            if isinstance(o, (InstV, ClassV)):
                for n in sorted(set(now) | set(was), key=str):
                    if now.get(n) == was.get(n) and (n in now) == (n in was):
                        continue
                    if n not in was and str(n).startswith(("_", "$")):
                        continue
                    if ignore is not None and ignore(o, n):
                        continue
                    what = "gone" if n not in now else "new" if n not in was else "changed"
                    out.append((f"{path}.{n}", f"attribute {n} of {show(o)} at {path} is {what}"))
            else:
                out.append((path, f"{type(o).__name__[:-1].lower()} at {path} holds {show(o)[:200]} now"))
        return out
