"""Evaluation of a value term (by its key) under an assignment of its unknowns; looks for counterexamples, never used as a proof."""
import datetime
import operator
import struct


class Unknown(Exception):
    pass


def small(f):
    def g(a, b, *m):
        if isinstance(b, int) and abs(b) > 200:
            raise OverflowError()
        return f(a, b, *m)
    return g


OPS = {"Mult": operator.mul, "FloorDiv": operator.floordiv, "Mod": operator.mod, "Add": operator.add, "Sub": operator.sub, "LShift": small(operator.lshift), "RShift": operator.rshift,
       "BitAnd": operator.and_, "BitOr": operator.or_, "BitXor": operator.xor, "Pow": small(operator.pow), "Div": operator.truediv, "pow": small(pow), "abs": abs, "int": int, "str": str, "repr": repr, "float": float,
       "bool": bool, "len": len, "not": operator.not_, "neg": operator.neg, "lt0": lambda x: x < 0, "lt": operator.lt, "eq": operator.eq, "ord": ord, "chr": chr, "nonempty": bool, "round": round, "eq0": lambda x: x == 0, "year": lambda d: datetime.date.fromordinal(d).year,
       "month": lambda d: datetime.date.fromordinal(d).month, "day": lambda d: datetime.date.fromordinal(d).day, "ordinal": lambda y, m, d: datetime.date(y, m, d).toordinal(),
       "is": lambda a, b: a is b if b is None or isinstance(b, bool) else a == b}


def value(k, env):
    """The value of a key; Unknown when the term has a part without a meaning here, the exception of the operation when it fails."""
    h = k[0]
    if h == "c":
        return float(k[2]) if k[1] == "float" else k[2]
    if h == "t":
        return tuple(value(x, env) for x in k[1:])
    if h == "raw":
        return k[1]
    if h == "s":
        op = k[1]
        if op == "arg":
            n = value(k[2], env) if isinstance(k[2], tuple) else k[2]
            if n in env:
                return env[n]
            raise Unknown(n)
        if op == "lin":
            return k[2] + sum(value(t, env) * n for t, n in k[3])
        if op in ("and", "or"):
            vs = [value(x, env) for x in k[2:]]
            return all(vs) if op == "and" else any(vs)
        if op in OPS:
            return OPS[op](*[value(x, env) for x in k[2:]])
        if op == "isinstance" and k[3][0] == "x":
            t = {"int": int, "str": str, "bytes": bytes, "float": float, "bool": bool}.get(k[3][1])
            if t:
                return isinstance(value(k[2], env), t)
        if op == "mcall":
            a = [value(x, env) for x in k[2:]]
            if isinstance(a[0], str) and isinstance(a[1], (str, bytes, int)) and hasattr(type(a[1]), a[0]):
                return getattr(a[1], a[0])(*a[2:])
    raise Unknown(str(k)[:80])


def constants(k, out):
    if isinstance(k, tuple):
        if k[:1] == ("c",) and isinstance(k[2], int) and not isinstance(k[2], bool):
            out.add(k[2])
        elif k[:2] == ("s", "lin"):
            out.add(-k[2])
            out.add(k[2])
        for x in k:
            constants(x, out)
    return out
