"""C19: dates and durations keep their value to the tick of 100 ns."""
import datetime
import itertools
import random
import re

from ..concrete import Unknown, constants, value
from ..interp import Infeasible, Program
from ..link import *
from ..vals import *

META = {
    "level": "other",
    "technique": "abstract interpretation: arithmetic and comparison of durations and dates are decided as linear forms of their unknown totals; their text by constant propagation over a grid of field values",
    "explanation": "Construction, sums, differences, negation, absolute value, truth and the six comparisons of durations (with durations and plain timedeltas on either side), and sums and differences of dates, are interpreted over a model of datetime whose values are one unknown whole number "
                   "of microseconds each (quotients and remainders by constants are kept as linear terms with 0 <= x - m*(x//m) < m), so that the total of the result is a linear form that has to equal the exact one on every path, for all values. "
                   "The texts are decided by propagating constants through serialize and deserialize over a grid: every month, day, hour, minute and second, every pattern of leading and trailing zeros of the fraction, every time zone offset of 15 minutes, both signs of durations and their extremes; the text is compared "
                   "with the ticks it has under the MS-PSRP and ISO 8601 grammar and with what is read back. Fields do not interact in the format other than through being absent, which the grid covers; it is not a proof for all combinations.",
    "rules": ["construct", "arithmetic", "comparison", "date-arithmetic", "text", "read-back", "peer-text"],
}
DAY = 86400 * 10 ** 9
UNITS = {"weeks": 7 * DAY, "days": DAY, "hours": 3600 * 10 ** 9, "minutes": 60 * 10 ** 9, "seconds": 10 ** 9, "milliseconds": 10 ** 6, "microseconds": 10 ** 3, "nanoseconds": 1}
MAX = 2 ** 63 - 1
TICK = 100
DURATION = re.compile(r"^(-)?P(?!$)(?:(\d+)D)?(?:T(?=\d)(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)(?:\.(\d{1,7}))?S)?)?$", re.A)
DATE = re.compile(r"^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d{1,7}))?(Z|[+-]\d\d:\d\d)?$", re.A)


def duration_ns(text):
    """What a duration text means, in nanoseconds; None when a peer cannot read it."""
    m = DURATION.match(text)
    if not m:
        return None
    s, d, h, mi, sec, frac = m.groups()
    n = (int(d or 0) * 86400 + int(h or 0) * 3600 + int(mi or 0) * 60 + int(sec or 0)) * 10 ** 9 + int((frac or "").ljust(7, "0")) * 100
    return -n if s else n


def date_fields(text):
    """(wall clock in nanoseconds, offset in minutes or None) of a date text; None when a peer cannot read it."""
    m = DATE.match(text)
    if not m:
        return None
    try:
        d = datetime.datetime(*[int(x) for x in m.groups()[:6]])
    except ValueError:
        return None
    z = m.group(8)
    off = None if z is None else 0 if z == "Z" else (int(z[1:3]) * 60 + int(z[4:])) * (-1 if z[0] == "-" else 1)
    return wall(d) + int((m.group(7) or "").ljust(7, "0")) * 100, off


def wall(d):
    d = d.replace(tzinfo=None) - datetime.datetime(1, 1, 1)
    return (d.days * 86400 + d.seconds) * 10 ** 9 + d.microseconds * 1000


# ---------------------------------------------------------------------- what is known of the calendar
def h_whole(it, a, kw, node):
    v = it.prim(a[0])
    if isinstance(v, Const) and isinstance(v.v, float):
        return Const(round(v.v))
    return v if isinstance(v, Const) or it.intsure(v) else Sym("round", it.term(v), typ="int")


def h_field(name):
    def h(it, a, kw, node):
        v = it.prim(a[0])
        if isinstance(v, Const):
            try:
                return Const(getattr(datetime.date.fromordinal(v.v), name))
            except (ValueError, OverflowError):
                it.raise_("OverflowError", "date value out of range", node)
        return Sym(name, it.term(v), typ="int")
    return h


def h_ordinal(it, a, kw, node):
    p = [it.prim(x) for x in a]
    if all(isinstance(x, Const) for x in p):
        try:
            return Const(datetime.date(*[x.v for x in p]).toordinal())
        except (ValueError, TypeError) as e:
            it.raise_(type(e).__name__, str(e), node)
    if all(isinstance(x, Sym) and x.op == n and key(x.args[0]) == key(p[0].args[0]) for x, n in zip(p, ("year", "month", "day"))):
        return p[0].args[0]
    return Sym("ordinal", *[it.term(x) for x in p], typ="int")


def h_abs(it, a, kw, node):
    v = it.prim(a[0])
    if isinstance(v, Sym) and it.intsure(v):
        return it.unop(ast.USub(), v) if it.truth(it.less(v, Const(0))) else v
    return None


HOOKS = {"psa_native.whole": h_whole, "psa_native.ordinal": h_ordinal, "abs": h_abs, **{f"psa_native.{n}": h_field(n) for n in ("year", "month", "day")}}
EDGES = sorted({s * v + d for s in (1, -1) for v in (0, 100, 1000, 10 ** 6, 10 ** 9, 6 * 10 ** 10, 36 * 10 ** 11, DAY, 100 * DAY, MAX * 100) for d in (0, 1, -1, 99, 999)} | {123456789012345678, -123456789012345678, 500, 1500, -500, -1500})
DATES = [k * 86400 * 10 ** 6 + u for k in (1, 366, 719163, 738000, 3652058) for u in (0, 1, 999999, 43200000000, 86399999999, 12345678901)]


def env_of(names, rnd):
    dom = {"t": DATES, "u": DATES}
    doms = [dom.get(n[0], EDGES) for n in names]
    n = 1
    for d in doms:
        n *= len(d)
    if n <= 4000:
        yield from (dict(zip(names, v)) for v in itertools.product(*doms))
    else:
        for _ in range(4000):
            yield dict(zip(names, [rnd.choice(d) for d in doms]))


def names_of(ks):
    names = set()

    def find(k):
        if isinstance(k, tuple):
            if k[:2] == ("s", "arg"):
                names.add(k[2][2] if isinstance(k[2], tuple) and k[2][0] == "c" else k[2][1] if isinstance(k[2], tuple) else k[2])
            for x in k:
                find(x)
    for k in ks:
        find(k)
    return sorted(names)


def check(chk):
    std = chk.prog
    try:
        prog = Program(std.root, models={"datetime": "dtime.py"})
    except Exception as e:  # the totals cannot be followed
        prog = None
        chk.undec("arithmetic", "package", f"{type(e).__name__}: {e}")
    if prog is not None:
        prog.divmod = True
        prog.deadline = std.deadline
        symbolic(chk, prog)
    constant(chk, std)


# ---------------------------------------------------------------------- all values
def symbolic(chk, prog):
    model = prog.models["datetime"].frame.vars
    cfg = lambda: Config(hooks=CRYPT, ext_hooks=HOOKS, recursion=8)
    lin = lambda n, c: lin_mul(Const(c), n)

    def dur(w, n):
        """A duration of n nanoseconds."""
        return w.new("PSDuration", nanoseconds=n)

    def delta(w, m):
        return w.it.call(model["timedelta"], [], {"microseconds": m}, None)

    def date(w, t, n, **kw):
        d = w.it.call(model["datetime"], [Sym(f, w.it.floordiv(t, DAY // 1000), typ="int") for f in ("year", "month", "day")], {
            "microsecond": lin_add(t, lin(w.it.floordiv(t, DAY // 1000), DAY // 1000), -1), **kw}, None)
        return w.new("PSDateTime", d, nanosecond=n)

    def total(w, v):
        g = lambda n: w.it.prim(w.it.getattr(v, n, None))
        d, s, us, ns = g("days"), g("seconds"), g("microseconds"), g("nanoseconds")
        for x in (d, s, us, ns):
            if not w.it.intlike(x):
                raise Unsupported("a field is " + show(x)[:100])
        r = lin_add(lin(d, 86400), s)
        return lin_add(lin(lin_add(lin(r, 10 ** 6), us), 1000), ns), ns

    def moment(w, v):
        ns = w.it.prim(w.it.getattr(v, "nanosecond", None))
        return lin_add(lin(v.attrs["_ts"], 1000), ns), ns

    rnd = random.Random(19)

    def counter(it, test, *ks):
        """An assignment of this path for which the test fails; None: there is none among the samples."""
        fs = list(it.facts.items())
        n = 0
        for env in env_of(names_of([k for k, _ in fs] + list(ks)), rnd):
            try:
                if not all(bool(value(k, env)) == b for k, b in fs):
                    continue
                n += 1
                if not test(env):
                    return env
            except Unknown as e:
                raise Unsupported(f"value of {e}")
            except (ArithmeticError, ValueError):
                continue
        if not n:
            raise Infeasible()  # no value takes this path
        return None

    def same(it, got, want, what):
        """None, or the difference."""
        d = lin_add(got, want, -1)
        if d is None:
            raise Unsupported(f"{what} {show(got)[:100]}")
        if isinstance(d, Const):
            if d.v == 0:
                return None
        elif it.known_truth(it.less(d, Const(0))) is False and it.known_truth(it.less(Const(0), d)) is False:
            return None
        env = counter(it, lambda env: value(key(d), env) == 0, key(d))
        if env is None:
            raise Unsupported(f"{what} {show(got)[:120]}, not {show(want)[:120]}")
        try:
            return f"{what} {value(key(got), env)}, not {value(key(want), env)}, for {env}"
        except Unknown:
            return f"{what} {show(got)[:120]}, not {show(want)[:120]}, for {env}"

    def within(it, v, lo, hi, what):
        if it.known_truth(it.less(v, Const(lo))) is False and it.known_truth(it.less(Const(hi), v)) is False:
            return None
        env = counter(it, lambda env: lo <= value(key(v), env) <= hi, key(v))
        if env is None:
            raise Unsupported(f"{what} {show(v)[:120]}")
        return f"{what} {value(key(v), env)} for {env}"

    def outcome(it, t, f, d):
        """The outcome t of a path has to be f(sign of d)."""
        s = -1 if it.truth(it.less(d, Const(0))) else 1 if it.truth(it.less(Const(0), d)) else 0
        for x in it.distinct:
            if it.linear(x) is False and it.linear(lin_mul(Const(-1), x)) is False:
                raise Infeasible()
        if f(s) == t:
            return "outcome", None
        env = counter(it, lambda env: f(value(key(d), env)) == t, key(d))
        if env is None:
            raise Unsupported(f"outcome by {it.facts_list[-3:]}")
        return "outcome", f"is {t} for {env}"

    def settle(rule, name, body):
        def decide():
            def go(w):
                return body(w)

            ps = chk.seen(run(prog, go, cfg()))
            for p in ps:
                if p.kind == "return":
                    for label, b in p.value:
                        chk.need(b is None, rule, f"{name}: {label}", b, path=p)
                elif getattr(p.world, "built", False) and p.exc_name() not in ("AttributeError", "TypeError", "NotImplementedError"):
                    chk.bad(rule, name, f"raises {p.exc_name()}", path=p)
                else:   # the model has fewer methods than datetime; the constants are decided with all of them
                    raise Unsupported(f"raises {p.exc_name()}")

        chk.attempt(rule, name, decide)

    def is_duration(w, r):
        if not (isinstance(r, InstV) and r.cls.name == "PSDuration"):
            if isinstance(r, InstV):
                return f"is a {r.cls.name}"
            if isinstance(r, ExtV) or isinstance(r, Const):
                return f"is {show(r)}"
            raise Unsupported(show(r)[:100])
        return None

    def result(w, r, want):
        c = is_duration(w, r)
        if c:
            return [("class", c)]
        n, ns = total(w, r)
        return [("class", None), ("total", same(w.it, n, want, "the total is")), ("nanoseconds", within(w.it, ns, 0, 999, "nanoseconds are"))]

    N, M, T, U, K = S("n", "int"), S("m", "int"), S("t", "int"), S("u", "int"), S("k", "int")

    # ---- construction
    for u, f in UNITS.items():
        def one(w, u=u, f=f):
            w.built = True
            return result(w, w.new("PSDuration", **{u: N}), lin(N, f))
        settle("construct", f"PSDuration({u}=n)", one)

    def every(w):
        w.built = True
        vs = {u: S(f"n{i}", "int") for i, u in enumerate(UNITS)}
        want = Const(0)
        for u, f in UNITS.items():
            want = lin_add(want, lin(vs[u], f))
        return result(w, w.new("PSDuration", **vs), want)
    settle("construct", "PSDuration of every unit", every)

    def positional(w):
        w.built = True
        return result(w, w.new("PSDuration", N, M, K), lin_add(lin_add(lin(N, DAY), lin(M, 10 ** 9)), lin(K, 1000)))
    settle("construct", "PSDuration(days, seconds, microseconds)", positional)

    def from_delta(w):
        d = delta(w, M)
        w.built = True
        return result(w, w.new("PSDuration", d), lin(M, 1000))
    settle("construct", "PSDuration(timedelta)", from_delta)

    def from_delta_ns(w):
        d = delta(w, M)
        w.built = True
        return result(w, w.new("PSDuration", d, nanoseconds=K), lin_add(lin(M, 1000), K))
    settle("construct", "PSDuration(timedelta, nanoseconds=k)", from_delta_ns)

    def from_duration(w):
        d = dur(w, N)
        w.built = True
        return result(w, w.new("PSDuration", d), N)
    settle("construct", "PSDuration(PSDuration)", from_duration)

    # ---- operators
    KINDS = {"PSDuration": (dur, 1), "timedelta": (delta, 1000)}
    PAIRS = [("PSDuration", "PSDuration"), ("PSDuration", "timedelta"), ("timedelta", "PSDuration")]
    for ka, kb in PAIRS:
        def operands(w, ka=ka, kb=kb):
            a, b = KINDS[ka][0](w, N), KINDS[kb][0](w, M)
            w.built = True
            return a, b, lin(N, KINDS[ka][1]), lin(M, KINDS[kb][1])

        for sym, op, sign in (("+", ast.Add, 1), ("-", ast.Sub, -1)):
            def arith(w, op=op, sign=sign, operands=operands):
                a, b, x, y = operands(w)
                out = result(w, w.it.binop(op(), a, b, None), lin_add(x, y, sign))
                for v, t, k in ((a, x, ka), (b, y, kb)):   # the operands keep their value
                    if k == "PSDuration":
                        out.append(("operand", same(w.it, total(w, v)[0], t, "an operand becomes")))
                return out
            settle("arithmetic", f"{ka} {sym} {kb}", arith)
        for sym, op, f in (("<", ast.Lt, lambda s: s < 0), ("<=", ast.LtE, lambda s: s <= 0), (">", ast.Gt, lambda s: s > 0), (">=", ast.GtE, lambda s: s >= 0),
                           ("==", ast.Eq, lambda s: s == 0), ("!=", ast.NotEq, lambda s: s != 0)):
            def comp(w, op=op, f=f, operands=operands):
                a, b, x, y = operands(w)
                r = w.it.compare(op(), a, b, None)
                t = w.it.truth(r)
                d = lin_add(x, y, -1)
                return [outcome(w.it, t, f, lin_add(x, y, -1))]
            settle("comparison", f"{ka} {sym} {kb}", comp)

    for name, f in (("-d", lambda w, d: (w.it.ex_unary(ast.USub(), d), lin(N, -1))), ("+d", lambda w, d: (w.it.ex_unary(ast.UAdd(), d), N))):
        def unary(w, f=f):
            d = dur(w, N)
            w.built = True
            r, want = f(w, d)
            return result(w, r, want) + [("operand", same(w.it, total(w, d)[0], N, "the operand becomes"))]
        settle("arithmetic", name, unary)

    def absolute(w):
        d = dur(w, N)
        w.built = True
        r = w.it.call_ext("abs", [d], {}, None)
        return result(w, r, lin(N, -1) if w.it.truth(w.it.less(N, Const(0))) else N)
    settle("arithmetic", "abs(d)", absolute)

    def boolean(w):
        d = dur(w, N)
        w.built = True
        t = w.it.truth(d)
        return [outcome(w.it, t, lambda s: s != 0, N)]
    settle("comparison", "bool(d)", boolean)

    # ---- dates
    def ns_of(w, n):
        for c in (w.it.less(n, Const(0)), w.it.less(Const(999), n)):
            if w.it.truth(c):
                raise Infeasible()
        return n

    def is_date(w, r):
        if not (isinstance(r, InstV) and r.cls.name == "PSDateTime"):
            if isinstance(r, InstV):
                return f"is a {r.cls.name}"
            if isinstance(r, (ExtV, Const)):
                return f"is {show(r)}"
            raise Unsupported(show(r)[:100])
        return None

    def dated(w, r, want, tz=None):
        c = is_date(w, r)
        if c:
            return [("class", c)]
        n, ns = moment(w, r)
        out = [("class", None), ("moment", same(w.it, n, want, "the moment is")), ("nanosecond", within(w.it, ns, 0, 999, "nanosecond is"))]
        if tz is not None:
            z = w.it.prim(w.it.getattr(r, "tzinfo", None))
            out.append(("zone", None if key(z) == key(tz) else f"the time zone becomes {show(z)}"))
        return out

    Z = Const(datetime.timezone(datetime.timedelta(hours=-7)))
    A, B = S("a", "int"), S("b", "int")
    at = lambda t, n: lin_add(lin(t, 1000), n)

    def copied(w):
        n = ns_of(w, A)
        w.built = True
        return dated(w, date(w, T, n, tzinfo=Z), at(T, n), Z)
    settle("construct", "PSDateTime(datetime, nanosecond=k)", copied)

    def copied2(w):
        n = ns_of(w, A)
        d = date(w, T, n, tzinfo=Z)
        w.built = True
        return dated(w, w.new("PSDateTime", d), at(T, n), Z)
    settle("construct", "PSDateTime(PSDateTime)", copied2)

    for kb, (mk, f) in KINDS.items():
        for sym, op, sign, swap in (("+", ast.Add, 1, False), ("+", ast.Add, 1, True), ("-", ast.Sub, -1, False)):
            def moved(w, mk=mk, f=f, op=op, sign=sign, swap=swap):
                n = ns_of(w, A)
                d, x = date(w, T, n, tzinfo=Z), mk(w, M)
                w.built = True
                r = w.it.binop(op(), x, d, None) if swap else w.it.binop(op(), d, x, None)
                return dated(w, r, lin_add(at(T, n), lin(M, f), sign), Z) + [("operand", same(w.it, moment(w, d)[0], at(T, n), "an operand becomes"))]
            settle("date-arithmetic", f"{kb} + PSDateTime" if swap else f"PSDateTime {sym} {kb}", moved)

    def between(w):
        n, k = ns_of(w, A), ns_of(w, B)
        d, e = date(w, T, n), date(w, U, k)
        w.built = True
        return result(w, w.it.binop(ast.Sub(), d, e, None), lin_add(at(T, n), at(U, k), -1))
    settle("date-arithmetic", "PSDateTime - PSDateTime", between)

    def between_plain(w):
        n = ns_of(w, A)
        d = date(w, T, n)
        e = w.it.call(model["datetime"], [Sym(f, w.it.floordiv(U, DAY // 1000), typ="int") for f in ("year", "month", "day")], {
            "microsecond": lin_add(U, lin(w.it.floordiv(U, DAY // 1000), DAY // 1000), -1)}, None)
        w.built = True
        return result(w, w.it.binop(ast.Sub(), d, e, None), lin_add(at(T, n), lin(U, 1000), -1))
    settle("date-arithmetic", "PSDateTime - datetime", between_plain)


# ---------------------------------------------------------------------- constants
def fractions():
    """Ticks of the fraction of a second."""
    out = {0, 1, 9, 10, 1234567, 9999999, 5000000, 500000, 1000001, 9000000, 120, 1230, 12300, 123000, 1230000, 7654321, 4775807, 4775808, 999999, 1000009, 100, 900}
    for k in range(7):
        out |= {10 ** k, 9 * 10 ** k, 10 ** k + 10 ** 6, 10 ** k * 11 % 10 ** 7}
    return sorted(out)


def durations():
    out = {0, 1, -1}
    fr = fractions()
    for d in (0, 1, 9, 10, 24, 100, 365, 1000, 3650, 10675198):
        for h, m, s in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (23, 59, 59), (10, 0, 10), (0, 10, 0), (20, 30, 0), (0, 20, 30), (3, 4, 5)):
            for f in (0, 1, 1000000, 1234567, 9999999, 10, 5000000):
                out.add(((d * 86400 + h * 3600 + m * 60 + s) * 10 ** 7) + f)
    for f in fr:
        out |= {f, 10 ** 7 + f, 59 * 10 ** 7 + f, 86400 * 10 ** 7 + f, 60 * 10 ** 7 + f, 3600 * 10 ** 7 + f, 864000 * 10 ** 7 + f}
    for n in range(60):
        out |= {n * 10 ** 7, n * 60 * 10 ** 7, n * 10 ** 7 + 1000, n * 60 * 10 ** 7 + 40 * 10 ** 7}
    for n in range(24):
        out |= {n * 36 * 10 ** 9, n * 36 * 10 ** 9 + 30 * 10 ** 7}
    out |= {-x for x in out} | {MAX, -MAX, -MAX - 1, MAX - 1, -MAX + 7}
    return sorted(out)


def dates():
    """(year, month, day, hour, minute, second, ticks of the fraction, offset in minutes or None)"""
    out = []
    for y in (1, 9, 10, 99, 100, 999, 1000, 1601, 1900, 1969, 1970, 2000, 2023, 2024, 2038, 9999):
        out += [(y, 1, 1, 0, 0, 0, 0, None), (y, 12, 31, 23, 59, 59, 9999999, None), (y, 2, 28, 9, 8, 7, 1000, 0), (y, 10, 10, 10, 10, 10, 0, 60)]
    out += [(2000, 2, 29, 1, 2, 3, 4, None), (2024, 2, 29, 23, 0, 0, 0, -420)]
    for m in range(1, 13):
        out += [(2021, m, d, 0, 0, 0, 0, None) for d in (1, 9, 10, 28)] + [(2021, m, 12, 12, 30, 30, 1234567, 0)]
    out += [(2021, 1, d, 12, 0, 0, 0, None) for d in range(1, 32)]
    out += [(2021, 3, 4, h, 0, 0, 0, None) for h in range(24)] + [(2021, 3, 4, 5, n, 0, 0, 0) for n in range(60)] + [(2021, 3, 4, 5, 6, n, 10, None) for n in range(60)]
    for f in fractions():
        out += [(2021, 3, 4, 5, 6, 7, f, z) for z in (None, 0, -420, 330)]
    for z in list(range(-14 * 60, 14 * 60 + 1, 15)) + [1, -1, 59, -59, 61, -61, 23 * 60 + 59, -23 * 60 - 59]:
        out += [(2021, 6, 7, 8, 9, 10, f, z) for f in (0, 1230000, 1234567)]
    return sorted(set(out), key=lambda t: (t[:7], t[7] is not None, t[7] or 0))


PEER_DURATIONS = {
    "PT0S": 0, "P1D": 864 * 10 ** 9, "-P1D": -864 * 10 ** 9, "PT1H": 36 * 10 ** 9, "PT1M": 6 * 10 ** 8, "PT1S": 10 ** 7, "PT0.1S": 10 ** 6, "PT0.01S": 10 ** 5, "PT0.001S": 10 ** 4, "PT0.0001S": 1000, "PT0.00001S": 100,
    "PT0.000001S": 10, "PT0.0000001S": 1, "-PT0.0000001S": -1, "PT0.1234567S": 1234567, "PT0.12S": 1200000, "PT59.9999999S": 599999999, "P1DT2H3M4.5S": (86400 + 7384) * 10 ** 7 + 5000000,
    "P1DT0.0000001S": 864 * 10 ** 9 + 1, "P9DT8H": (9 * 86400 + 8 * 3600) * 10 ** 7, "P10DT30M": (10 * 86400 + 1800) * 10 ** 7, "-P10DT1S": -(864000 + 1) * 10 ** 7,
    "P10675199DT2H48M5.4775807S": MAX, "-P10675199DT2H48M5.4775808S": -MAX - 1, "PT23H59M59.9999999S": 864 * 10 ** 9 - 1, "-PT1H30M": -54 * 10 ** 9, "PT10H0M0S": 36 * 10 ** 10, "PT1.500S": 15 * 10 ** 6,
}


def constant(chk, prog):
    cfg = lambda: Config(hooks=CRYPT, recursion=10)

    def batches(rule, name, items, judge, size=60):
        """judge(w, item) -> [(rule, problem)], the constants of a batch on one path."""
        for i in range(0, len(items), size):
            part = items[i:i + size]

            def decide(part=part):
                def body(w):
                    out = []
                    for x in part:
                        try:
                            out.append((x, judge(w, x)))
                        except PyRaise as e:
                            out.append((x, [(rule, f"raises {getattr(e.cls, 'name', e.cls)}")]))
                    return out

                ps = chk.seen(run(prog, body, cfg()))
                for p in ps:
                    if p.kind != "return":
                        raise Unsupported(f"raises {p.exc_name()}")
                    if len(ps) > 1:
                        raise Unsupported(f"{len(ps)} paths for constants: {p.describe_facts()}")
                    for x, res in p.value:
                        for r, b in res:
                            chk.need(b is None, r, f"{name} {label(x)}", b, path=p)

            chk.attempt(rule, f"{name} {label(part[0])} .. {label(part[-1])}", decide)

    def label(x):
        return str(x) if not isinstance(x, tuple) else " ".join(map(str, x))

    def ints(w, v, *names):
        out = []
        for n in names:
            x = w.it.prim(w.it.getattr(v, n, None))
            if not (isinstance(x, Const) and isinstance(x.v, int)):
                raise Unsupported(f"{n} is {show(x)[:80]}")
            out.append(x.v)
        return out

    def total(w, v):
        if isinstance(v, Const):
            return (v.v.days * 86400 + v.v.seconds) * 10 ** 9 + v.v.microseconds * 1000
        d, s, us, ns = ints(w, v, "days", "seconds", "microseconds", "nanoseconds")
        return (d * 86400 + s) * 10 ** 9 + us * 1000 + ns

    def moment(w, v):
        f = ints(w, v, "year", "month", "day", "hour", "minute", "second", "microsecond", "nanosecond")
        z = w.it.prim(w.it.getattr(v, "tzinfo", None))
        if not isinstance(z, Const):
            raise Unsupported("zone " + show(z)[:80])
        off = None
        if z.v is not None:
            o = z.v.utcoffset(datetime.datetime(*f[:7]))
            off = (o.days * 86400 + o.seconds) / 60
        return wall(datetime.datetime(*f[:7])) + f[7], off

    def text(w, v):
        e = serialize(w, v)
        x = snap(w.it, e)
        t = w.it.prim(x.text) if x.text is not None else Const("")
        if not isinstance(t, Const):
            raise Unsupported("text " + show(t)[:100])
        return e, t.v

    def is_a(v, name):
        return isinstance(v, InstV) and v.cls.name == name

    def near(got, want):
        """equal to the tick"""
        return got is not None and got % TICK == 0 and (got == want if want % TICK == 0 else abs(got - want) < TICK)

    # ---- durations
    def a_duration(w, ns, plain):
        if plain:
            return Const(datetime.timedelta(microseconds=ns // 1000))
        return w.new("PSDuration", nanoseconds=Const(ns))

    def dur(w, x):
        ns, plain = x
        v = a_duration(w, ns, plain)
        if plain:
            ns = ns // 1000 * 1000
        e, t = text(w, v)
        m = duration_ns(t)
        out = [("text", None if near(m, ns) else f"{ns} ns are written as {t!r}" + ("" if m is not None else ", which is not a duration"))]
        r = deserialize(w, e)
        if not is_a(r, "PSDuration"):
            return out + [("read-back", f"{t!r} is read as {show(r)[:80]}")]
        n = total(w, r)
        out.append(("read-back", None if near(n, ns) else f"{ns} ns, written as {t!r}, are read as {n} ns"))
        return out

    if chk.tier == "thorough":
        rnd = random.Random(chk.seed)
        more = sorted({rnd.choice((1, -1)) * rnd.randrange(2 ** rnd.randrange(1, 64)) for _ in range(15000)})
        batches("text", "duration", [(t * 100, False) for t in more if -MAX - 1 <= t <= MAX], dur)
    batches("text", "duration", [(t * 100, False) for t in durations()], dur)
    batches("text", "timedelta", [(t * 100, True) for t in durations()[::5]], dur)
    batches("text", "duration below the tick", [(t * 100 + k, False) for t in (0, 1, -1, 9999999, -9999999, 86400 * 10 ** 7, -86400 * 10 ** 7, 599999999) for k in (1, 50, 99)], dur)

    def peer_dur(w, x):
        r = deserialize(w, build(w, "TS", x[0]))
        if not is_a(r, "PSDuration"):
            return [("peer-text", f"{x[0]!r} is read as {show(r)[:80]}")]
        n = total(w, r)
        return [("peer-text", None if n == x[1] * 100 else f"{x[0]!r} is read as {n} ns")]

    batches("peer-text", "duration", sorted(PEER_DURATIONS.items()), peer_dur)

    # ---- dates
    zone = lambda z: None if z is None else datetime.timezone.utc if z == 0 else datetime.timezone(datetime.timedelta(minutes=z))

    def a_date(w, x, plain=False):
        *f, ticks, z = x
        if plain:
            return Const(datetime.datetime(*f, ticks // 10, tzinfo=zone(z)))
        return w.new("PSDateTime", *map(Const, f), Const(ticks // 10), tzinfo=Const(zone(z)), nanosecond=Const(ticks % 10 * 100))

    def dt(w, x, plain=False):
        *f, ticks, z = x
        v = a_date(w, x, plain)
        if plain:
            ticks = ticks // 10 * 10
        ns = wall(datetime.datetime(*f)) + ticks * 100
        e, t = text(w, v)
        m = date_fields(t)
        out = [("text", None if m == (ns, z) else f"is written as {t!r}")]
        r = deserialize(w, e)
        if not is_a(r, "PSDateTime"):
            return out + [("read-back", f"{t!r} is read as {show(r)[:80]}")]
        n, off = moment(w, r)
        out.append(("read-back", None if (n, off) == (ns, z) else f"written as {t!r}, is read {n - ns:+} ns away with the offset {off}"))
        return out

    if chk.tier == "thorough":
        some = lambda: datetime.datetime.fromordinal(rnd.randrange(1, datetime.date.max.toordinal())) + datetime.timedelta(seconds=rnd.randrange(86400))
        more = [(*some().timetuple()[:6], rnd.choice((0, rnd.randrange(10 ** 7), rnd.randrange(1000) * 10 ** rnd.randrange(5))), rnd.choice((None, 0, rnd.randrange(-840, 841)))) for _ in range(15000)]
        batches("text", "date", more, dt)
    batches("text", "date", dates(), dt)
    batches("text", "datetime", dates()[::3], lambda w, x: dt(w, x, True))

    peers = []
    for frac, n in (("", 0), (".1", 1000000), (".12", 1200000), (".123", 1230000), (".1234", 1234000), (".12345", 1234500), (".123456", 1234560), (".1234567", 1234567), (".0000001", 1), (".0000010", 10), (".9999999", 9999999),
                    (".001", 10000), (".0012300", 12300), (".5000000", 5000000)):
        for z, off in (("", None), ("Z", 0), ("+00:00", 0), ("-07:00", -420), ("+05:30", 330), ("-00:30", -30), ("+14:00", 840), ("-12:00", -720), ("+12:45", 765), ("+01:00", 60)):
            for base in ((2008, 4, 11, 10, 42, 32), (1, 1, 1, 0, 0, 0), (9999, 12, 31, 23, 59, 59), (2000, 2, 29, 0, 0, 0)):
                peers.append(("%04d-%02d-%02dT%02d:%02d:%02d" % base + frac + z, wall(datetime.datetime(*base)) + n * 100, off))

    def peer_date(w, x):
        r = deserialize(w, build(w, "DT", x[0]))
        if not is_a(r, "PSDateTime"):
            return [("peer-text", f"{x[0]!r} is read as {show(r)[:80]}")]
        n, off = moment(w, r)
        return [("peer-text", None if (n, off) == (x[1], x[2]) else f"{x[0]!r} is read {n - x[1]:+} ns away with the offset {off}")]

    batches("peer-text", "date", peers, peer_date)

    # ---- operators on constants (values at the limits, time zones)
    big = [0, 1, -1, 100, -100, 999, 1000, -1000, 1500, -1500, 999999900, DAY, -DAY, DAY - 1, MAX * 100, -(MAX + 1) * 100, 123456789012345678, 270 * 366 * DAY + 1, 7 * DAY + 3600 * 10 ** 9 + 700]
    import operator
    OPS = {"+": (ast.Add, operator.add), "-": (ast.Sub, operator.sub)}
    CMP = {"<": (ast.Lt, operator.lt), "<=": (ast.LtE, operator.le), ">": (ast.Gt, operator.gt), ">=": (ast.GtE, operator.ge), "==": (ast.Eq, operator.eq), "!=": (ast.NotEq, operator.ne)}

    def pair(w, x):
        a, b, pa, pb, sym = x
        va, vb = a_duration(w, a, pa), a_duration(w, b, pb)
        a, b = a // 1000 * 1000 if pa else a, b // 1000 * 1000 if pb else b
        if sym in OPS:
            r = w.it.binop(OPS[sym][0](), va, vb, None)
            if not is_a(r, "PSDuration"):
                return [("arithmetic", f"is {show(r)[:80]}")]
            return [("arithmetic", None if total(w, r) == OPS[sym][1](a, b) else f"yields {total(w, r)} ns")]
        r = w.it.truth(w.it.compare(CMP[sym][0](), va, vb, None))
        return [("comparison", None if r == CMP[sym][1](a, b) else f"is {r}")]

    cases = [(a, b, pa, pb, s) for a in big for b in big for pa, pb in ((False, False), (False, True), (True, False)) for s in (*OPS, *CMP) if pa is pb is False or (a % 1000 == 0 or not pa) and (b % 1000 == 0 or not pb)]
    batches("arithmetic", "ns", cases, pair, 200)

    ds = [(2021, 3, 4, 5, 6, 7, 1234567, None), (1, 1, 2, 0, 0, 0, 0, None), (2024, 2, 29, 23, 59, 59, 9999999, None), (2021, 3, 4, 5, 6, 7, 9, 0), (2021, 3, 4, 5, 6, 7, 1, -420), (2021, 12, 31, 23, 59, 59, 9999999, 330), (2000, 1, 1, 0, 0, 0, 1, -30)]

    def date_ns(x):
        return wall(datetime.datetime(*x[:6])) + x[6] * 100 - (x[7] or 0) * 60 * 10 ** 9

    def dates_pair(w, x):
        r = w.it.binop(ast.Sub(), a_date(w, x[0]), a_date(w, x[1]), None)
        if not is_a(r, "PSDuration"):
            return [("date-arithmetic", f"is {show(r)[:80]}")]
        n = date_ns(x[0]) - date_ns(x[1])
        return [("date-arithmetic", None if total(w, r) == n else f"yields {total(w, r)} ns, not {n}")]

    batches("date-arithmetic", "difference", [(a, b) for a in ds for b in ds if (a[7] is None) == (b[7] is None)], dates_pair)

    def date_moved(w, x):
        d, n, sym = x
        v = a_date(w, d)
        u = a_duration(w, n, False)
        r = w.it.binop(OPS["-" if sym == "-" else "+"][0](), *((u, v) if sym == "r+" else (v, u)), None)
        if not is_a(r, "PSDateTime"):
            return [("date-arithmetic", f"is {show(r)[:80]}")]
        want = wall(datetime.datetime(*d[:6])) + d[6] * 100 + (-n if sym == "-" else n)
        m = moment(w, r)
        return [("date-arithmetic", None if m == (want, d[7]) else f"is {m[0] - want:+} ns away, with the offset {m[1]}")]

    batches("date-arithmetic", "moved", [(d, n, s) for d in ds for n in (0, 1, 100, 900, -100, 999, 1000, 10 ** 9, -1, DAY - 100, 400 * DAY + 700) for s in ("+", "-", "r+") if 10 * DAY < date_ns(d) or n * (-1 if s == "-" else 1) >= 0 or abs(n) < DAY], date_moved, 100)
