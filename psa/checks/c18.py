"""C18: sized integers and characters stay within their .NET range."""
import itertools

from ..concrete import Unknown, constants, value
from ..interp import Infeasible
from ..link import *
from ..vals import *

META = {
    "level": "other",
    "technique": "interval analysis by abstract interpretation: every way to make a sized integer is interpreted with symbolic operands and each path has to entail the range of the .NET type",
    "explanation": "Constructors, conversions, operators, enum members and deserialization of each sized integer type are interpreted path by path with symbolic operands. On every path that yields a value its class, its term (against the one the operation has in Python) and "
                   "the entailment of the limits by the path condition are decided with linear integer arithmetic; on every path that raises the condition has to exclude values in range. A path that is neither entailed nor refuted by an assignment is reported as undecided.",
    "rules": ["construct", "operator", "enum", "read", "limits"],
}
RANGES = {
    "PSByte": (0, 255), "PSSByte": (-128, 127), "PSUInt16": (0, 65535), "PSInt16": (-32768, 32767), "PSUInt": (0, 4294967295), "PSInt": (-2147483648, 2147483647),
    "PSUInt64": (0, 18446744073709551615), "PSInt64": (-9223372036854775808, 9223372036854775807), "PSChar": (0, 65535),
}
TAGS = {"PSByte": "By", "PSSByte": "SB", "PSUInt16": "U16", "PSInt16": "I16", "PSUInt": "U32", "PSInt": "I32", "PSUInt64": "U64", "PSInt64": "I64", "PSChar": "C"}
USER = {"MyByte": "PSByte", "MyInt": "PSInt", "MyULong": "PSUInt64"}
ENUMS = {"ByteEnum": "PSByte", "SByteEnum": "PSSByte", "Int16Enum": "PSInt16", "UInt16Enum": "PSUInt16", "IntEnum": "PSInt", "UIntEnum": "PSUInt", "Int64Enum": "PSInt64", "UInt64Enum": "PSUInt64"}
X, Y, Z, T = S("x", "int"), S("y", "int"), S("z", "int"), S("t", "str")
TEXTS = ["0", "1", "-1", " 12 ", "+7", "0007", "1_0", "abc", "", "1.5", "127", "128", "255", "256", "32768", "65535", "65536", "2147483648", "4294967296", "9223372036854775808", "18446744073709551616", "-129", "7f", "ff", "100"]


def check(chk):
    prog = chk.prog
    prog.extra("user_types")
    prog.extra("int_types")

    def cls_of(w, n):
        return w.prog.cls(n)

    def make(w, n, *a):
        return w.it.call(cls_of(w, n), list(a), {}, None)

    def facts_key(it):
        return list(it.facts.items())

    def samples(it, e, lo, hi):
        """Assignments of the unknowns that satisfy the condition of this path; [] when one of its parts is unknown."""
        fs = facts_key(it)
        ks = [k for k, _ in fs] + [key(e)]
        names = set()

        def find(k):
            if isinstance(k, tuple):
                if k[:2] == ("s", "arg"):
                    names.add(k[2][2] if isinstance(k[2], tuple) and k[2][0] == "c" else k[2][1] if isinstance(k[2], tuple) else k[2])
                for x in k:
                    find(x)
        for k in ks:
            find(k)
        cs = set()
        for k in ks:
            constants(k, cs)
        ints = sorted({c + d for c in cs for d in (-1, 0, 1) if abs(c) < 2 ** 66} | {-(2 ** 70), -130, -3, -2, -1, 0, 1, 2, 3, 7, 8, 9, 31, 70, 77, 100, 200, 300, lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, 2 ** 70})
        dom = {"x": ints, "y": ints, "z": [1, 2, 3, 7, 100, 1000003], "t": TEXTS, "f": [0.0, 1.5, -0.5, -1.0, 255.9, 256.0, 1e20, -1e20], "b": [True, False], "d": [b"1", b"a"]}
        if not names <= set(dom):
            return None
        big = any(o in repr(ks) for o in ("'LShift'", "'Pow'", "'RShift'", "'pow'"))
        if big:
            dom["y"] = [y for y in ints if -3 <= y <= 70]
            dom["x"] = [x for x in ints if abs(x) < 2 ** 66]
        out = []
        for vs in itertools.product(*[dom[n] for n in sorted(names)]):
            env = dict(zip(sorted(names), vs))
            try:
                if all(bool(value(k, env)) == b for k, b in fs):
                    out.append(env)
            except Unknown:
                return None
            except Exception:
                continue
        return out

    def judge(w, act, e, cname, lo, hi, exact=True, ok_plain=False):
        """[(label, problem)] of one path; e is the term Python computes, None when unknown."""
        it = w.it
        w.built = True
        r = raised = None
        try:
            r = act()
        except PyRaise as x:
            raised = getattr(x.cls, "name", str(x.cls))
        if raised is None:
            c = r.cls.name if isinstance(r, InstV) else type(r).__name__
            if ok_plain and not isinstance(r, InstV):
                return [("class", None)]
            if c != cname:
                if isinstance(r, (InstV, Const)) or isinstance(r, Sym) and r.typ in ("int", "bool", "float", "str"):
                    return [("class", f"yields {show(r)[:150]}, not a {cname}")]
                raise Unsupported(f"yields {show(r)[:150]}")
            v = it.prim(r)
            out = [("class", None)]
        else:
            v, out = e, []
            if e is None:
                return [("value", None)]
        if v is None:
            return out
        below, above = it.known_truth(it.less(v, Const(lo))), it.known_truth(it.less(Const(hi), v))
        if raised is None:
            if not (below is False and above is False):
                if below is True or above is True:
                    out.append(("range", f"yields {show(v)[:150]} outside {lo}..{hi}"))
                else:
                    ss = samples(it, v, lo, hi)
                    bad = None
                    for env in ss or []:
                        try:
                            n = value(key(v), env)
                        except Exception:
                            continue
                        if not lo <= n <= hi:
                            bad = (env, n)
                            break
                    if bad is None:
                        raise Unsupported(f"range of {show(v)[:150]} on a path with {it_facts(it)}")
                    out.append(("range", f"yields {bad[1]}, outside {lo}..{hi}, for {bad[0]}"))
            else:
                out.append(("range", None))
            if e is not None and exact:
                if key(v) != key(e) and not any(key(v) == key(a) for a in abs_forms(it, e)):
                    if isinstance(v, Const) and isinstance(e, Const):
                        out.append(("value", f"yields {v.v}, not {e.v}"))
                        return out
                    ss = samples(it, Sym("t", v, e), lo, hi)
                    bad = None
                    if ss is None:
                        raise Unsupported(f"value {show(v)[:150]}, not {show(e)[:150]}")
                    for env in ss:
                        try:
                            a, b = value(key(v), env), value(key(e), env)
                        except Unknown:
                            raise Unsupported(f"value {show(v)[:150]}, not {show(e)[:150]}")
                        except Exception:
                            continue
                        if a != b and not isinstance(b, float):
                            bad = (env, a, b)
                            break
                    if bad:
                        out.append(("value", f"yields {bad[1]} where Python computes {bad[2]}, for {bad[0]}"))
                    elif not ss:
                        raise Unsupported(f"value {show(v)[:150]}, not {show(e)[:150]}")
                    else:
                        out.append(("value", None))
                else:
                    out.append(("value", None))
        elif below is True or above is True:
            out.append(("raises", None))
        else:
            ss = samples(it, v, lo, hi)
            bad = None
            for env in ss or []:
                try:
                    n = value(key(v), env)
                except Exception:
                    continue
                if isinstance(n, int) and lo <= n <= hi:
                    bad = (env, n)
                    break
            if bad is not None:
                out.append(("raises", f"raises {raised} for {bad[1]}, which is within {lo}..{hi} ({bad[0]})"))
            elif isinstance(v, Const):
                out.append(("raises", f"raises {raised} for {show(v)}") if lo <= v.v <= hi else ("raises", None))
            elif ss is None:
                raise Unsupported(f"raises {raised} on a path with {it_facts(it)}")
        return out

    def it_facts(it):
        return "; ".join(f"{'' if b else 'not '}{d}" for d, b in it.facts_list)[:200]

    def abs_forms(it, e):
        if isinstance(e, Sym) and e.op == "abs":
            n = it.known_truth(it.less(e.args[0], Const(0)))
            if n is True:
                return [it.unop(ast.USub(), e.args[0])]
            if n is False:
                return [e.args[0]]
            if it.known_truth(it.less(Const(0), e.args[0])) is False:
                return [it.unop(ast.USub(), e.args[0])]
        return []

    def assume_not(it, c):
        if it.truth(c):
            raise Infeasible()

    def settle(rule, name, body):
        def decide():
            def go(w):
                start(w)
                return body(w)

            ps = chk.seen(run(prog, go, link_config()))
            if not any(getattr(p.world, "built", False) for p in ps):
                raise Unsupported("the scenario cannot be built: " + "; ".join(sorted({str(p.exc_name()) for p in ps})))
            for p in ps:
                if p.kind == "return":
                    for label, b in p.value:
                        chk.need(b is None, rule, f"{name}: {label}", b, path=p)
                elif getattr(p.world, "built", False):
                    chk.bad(rule, name, f"raises {p.exc_name()}", path=p)

        chk.attempt(rule, name, decide)

    TYPES = list(RANGES) + list(USER)

    def rng(n):
        return RANGES[USER.get(n, n)]

    # ------------------------------------------------------------------ limits
    for n in list(RANGES)[:-1] + list(USER) + list(ENUMS):
        def limits(w, n=n):
            c = cls_of(w, n)
            lo, hi = RANGES[ENUMS.get(n, USER.get(n, n))]
            w.built = True
            out = []
            for a, x in (("MinValue", lo), ("MaxValue", hi)):
                v = w.it.class_attr(c, a)
                v = w.it.prim(v) if v is not None else None
                if isinstance(v, Const):
                    out.append((a, None if v.v == x else f"is {v.v}, not {x}"))
            return out

        settle("limits", n, limits)

    # ------------------------------------------------------------------ construction
    def no_value(w, act, n):
        w.built = True
        try:
            r = act()
        except PyRaise:
            return [("raises", None)]
        return [("raises", f"yields {show(r)[:100]}")]

    for n in TYPES:
        lo, hi = rng(n)
        char = n == "PSChar"
        settle("construct", f"{n}(int)", lambda w, n=n, lo=lo, hi=hi: judge(w, lambda: make(w, n, X), X, n, lo, hi))
        for m in TYPES:
            def conv(w, n=n, m=m, lo=lo, hi=hi):
                s = make(w, m, X)
                return judge(w, lambda: make(w, n, s), X, n, lo, hi)

            settle("construct", f"{n}({m})", conv)
        for v in sorted({lo - 1, lo, hi, hi + 1, 0, -1, 1, 2 ** 64, -2 ** 63 - 1}):
            settle("construct", f"{n}({v})", lambda w, n=n, lo=lo, hi=hi, v=v: judge(w, lambda: make(w, n, Const(v)), Const(v), n, lo, hi))
            if not char:
                settle("construct", f"{n}({str(v)!r})", lambda w, n=n, lo=lo, hi=hi, v=v: judge(w, lambda: make(w, n, Const(str(v))), Const(v), n, lo, hi))
                settle("construct", f"{n}({hex(v)!r}, 16)", lambda w, n=n, lo=lo, hi=hi, v=v: judge(w, lambda: make(w, n, Const(hex(v)), Const(16)), Const(v), n, lo, hi))
                settle("construct", f"{n}({bin(v)!r}, base=0)",
                       lambda w, n=n, lo=lo, hi=hi, v=v: judge(w, lambda: w.it.call(cls_of(w, n), [Const(bin(v))], {"base": Const(0)}, None), Const(v), n, lo, hi))
            if abs(v) < 2 ** 40:
                settle("construct", f"{n}({float(v)})", lambda w, n=n, lo=lo, hi=hi, v=v: judge(w, lambda: make(w, n, Const(float(v))), Const(v), n, lo, hi))
        for b in (True, False):
            settle("construct", f"{n}({b})", lambda w, n=n, lo=lo, hi=hi, b=b: judge(w, lambda: make(w, n, Const(b)), Const(int(b)), n, lo, hi))
        settle("construct", f"{n}(float)", lambda w, n=n, lo=lo, hi=hi: judge(w, lambda: make(w, n, S("f", "float")), Sym("int", S("f", "float"), typ="int"), n, lo, hi))
        if char:
            settle("construct", "PSChar(text)", lambda w, n=n, lo=lo, hi=hi: judge(w, lambda: make(w, n, T), None, n, lo, hi))
            settle("construct", "PSChar(bytes)", lambda w, n=n, lo=lo, hi=hi: judge(w, lambda: make(w, n, S("d", "bytes")), None, n, lo, hi))
            for c in ("a", "0", "7", "\x00", "\n", "\x7f", "\xe9", "\u20ac", "\ud7ff", "\ue000", "\ufffe", "\uffff"):
                settle("construct", f"PSChar({c!a})", lambda w, n=n, lo=lo, hi=hi, c=c: judge(w, lambda: make(w, n, Const(c)), Const(ord(c)), n, lo, hi))
                settle("construct", f"PSChar({c.encode()!a})", lambda w, n=n, lo=lo, hi=hi, c=c: judge(w, lambda: make(w, n, Const(c.encode())), Const(ord(c)), n, lo, hi))
            for c in ("", "ab", "12", "\U00010000", "\U0001f600", "\U0010ffff", "a\u0301", b"ab", "\U0001f600".encode(), b"\xff"):
                settle("construct", f"PSChar({c!a})", lambda w, n=n, c=c: no_value(w, lambda: make(w, n, Const(c)), n))
        else:
            settle("construct", f"{n}(text)", lambda w, n=n, lo=lo, hi=hi: judge(w, lambda: make(w, n, T), Sym("int", T, typ="int"), n, lo, hi))
            settle("construct", f"{n}(text, 16)", lambda w, n=n, lo=lo, hi=hi: judge(w, lambda: make(w, n, T, Const(16)), Sym("int", T, Const(16), typ="int"), n, lo, hi))
            settle("construct", f"{n}(None)", lambda w, n=n, lo=lo, hi=hi: judge(w, lambda: make(w, n, NONE), Const(0), n, lo, hi))
            for c in ("", "abc", "1.5", "0x10"):
                settle("construct", f"{n}({c!r})", lambda w, n=n, c=c: no_value(w, lambda: make(w, n, Const(c)), n))
            lim = prog.cls("Limits")
            for mname in lim.enum_members:
                def from_enum(w, n=n, mname=mname, lo=lo, hi=hi):
                    m = w.it.getattr(cls_of(w, "Limits"), mname, None)
                    v = w.it.prim(w.it.getattr(m, "value", None))
                    return judge(w, lambda: make(w, n, m), v, n, lo, hi)

                settle("enum", f"{n}(Limits.{mname})", from_enum)
            for en in ENUMS:
                for mname in ("low", "high"):
                    def from_ps(w, n=n, en=en, mname=mname, lo=lo, hi=hi):
                        m = w.it.getattr(cls_of(w, en), mname, None)
                        v = Const(RANGES[ENUMS[en]][mname == "high"])
                        return judge(w, lambda: make(w, n, m), v, n, lo, hi)

                    settle("enum", f"{n}({en}.{mname})", from_ps)

                    def from_value(w, n=n, en=en, mname=mname, lo=lo, hi=hi):
                        m = w.it.getattr(w.it.getattr(cls_of(w, en), mname, None), "value", None)
                        v = Const(RANGES[ENUMS[en]][mname == "high"])
                        return judge(w, lambda: make(w, n, m), v, n, lo, hi)

                    settle("enum", f"{n}({en}.{mname}.value)", from_value)

    # ------------------------------------------------------------------ members of enumerations
    for en, base in ENUMS.items():
        lo, hi = RANGES[base]

        def member(w, en=en, base=base, lo=lo, hi=hi):
            c = cls_of(w, en)
            f = w.it.class_attr(c, "__new__")
            if not isinstance(f, FuncV):
                raise Unsupported("__new__ of an enum class")

            def act():
                o = w.it.call(f, [c, X], {}, None)
                return w.it.getattr(o, "_value_", None)

            return judge(w, act, X, base, lo, hi)

        settle("enum", f"member of {en}", member)
        for mname in ("low", "high"):
            def declared(w, en=en, base=base, mname=mname, lo=lo, hi=hi):
                return judge(w, lambda: w.it.getattr(w.it.getattr(cls_of(w, en), mname, None), "value", None), Const(lo if mname == "low" else hi), base, lo, hi)

            settle("enum", f"{en}.{mname}", declared)

    # ------------------------------------------------------------------ operators
    BIN = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "//": ast.FloorDiv, "%": ast.Mod, "**": ast.Pow, "<<": ast.LShift, ">>": ast.RShift, "|": ast.BitOr, "^": ast.BitXor, "&": ast.BitAnd}
    OPERANDS = [("int", lambda w: Y), ("PSInt64", lambda w: make(w, "PSInt64", Y)), ("PSUInt", lambda w: make(w, "PSUInt", Y)), ("1", lambda w: Const(1)), ("0", lambda w: Const(0)), ("-1", lambda w: Const(-1)),
                ("True", lambda w: Const(True)), ("255", lambda w: Const(255))]
    for n in TYPES:
        lo, hi = rng(n)
        char = n == "PSChar"
        for sym, op in BIN.items():
            for oname, operand in OPERANDS + [("its own type", lambda w, n=n: make(w, n, Y)), ("itself", None)]:
                for inplace in (False, True):
                    if inplace and oname not in ("int", "PSInt64"):
                        continue
                    if char and oname not in ("int", "1"):
                        continue
                    if oname == "-1" and sym in ("**", "<<", ">>"):
                        continue

                    def binary(w, n=n, op=op, operand=operand, lo=lo, hi=hi, inplace=inplace, char=char):
                        it = w.it
                        a = make(w, n, X)
                        b = operand(w) if operand else a
                        pb = it.prim(b)
                        if isinstance(pb, Const) and isinstance(pb.v, bool):
                            pb = Const(int(pb.v))
                        if op in (ast.LShift, ast.RShift, ast.Pow) and it.known_truth(it.less(pb, Const(0))) is not False:
                            assume_not(it, it.less(pb, Const(0)))
                        if op in (ast.FloorDiv, ast.Mod):
                            if isinstance(pb, Const) and pb.v == 0:
                                w.built = True
                                return []
                        e = it.binop(op(), X, pb, None)

                        def act():
                            if inplace:
                                d = it.user_op(a, f"__i{it._OPNAMES[op]}__", [b])
                                if d is not None:
                                    return d
                            return it.binop(op(), a, b, None)

                        return judge(w, act, e, n, lo, hi, ok_plain=char)

                    settle("operator", f"{n} {sym}{'=' if inplace else ''} {oname}", binary)
        UN = {"-": (ast.USub, "__neg__"), "+": (ast.UAdd, "__pos__"), "~": (ast.Invert, "__invert__")}
        for sym, (op, dunder) in UN.items():
            def unary(w, n=n, op=op, dunder=dunder, lo=lo, hi=hi, char=char):
                it = w.it
                a = make(w, n, X)
                e = it.unop(op(), X)

                def act():
                    d = it.user_op(a, dunder, [])
                    return d if d is not None else it.unop(op(), a)

                return judge(w, act, e, n, lo, hi, ok_plain=char)

            settle("operator", f"{sym}{n}", unary)

        def absolute(w, n=n, lo=lo, hi=hi, char=char):
            a = make(w, n, X)
            return judge(w, lambda: w.it.call(ExtV("abs"), [a], {}, None), Sym("abs", X, typ="int"), n, lo, hi, ok_plain=char)

        settle("operator", f"abs({n})", absolute)

        def power(w, n=n, lo=lo, hi=hi, char=char):
            it = w.it
            a = make(w, n, X)
            assume_not(it, it.less(Y, Const(0)))
            return judge(w, lambda: it.call(ExtV("pow"), [a, Y, Z], {}, None), Sym("pow", X, Y, Z, typ="int"), n, lo, hi, ok_plain=char)

        settle("operator", f"pow({n}, int, int)", power)

        for oname, operand in OPERANDS[:3]:
            def both(w, n=n, lo=lo, hi=hi, char=char, operand=operand):
                it = w.it
                a = make(w, n, X)
                b = operand(w)
                q, r = it.binop(ast.FloorDiv(), X, it.prim(b), None), it.binop(ast.Mod(), X, it.prim(b), None)
                got = []

                def act():
                    t = it.call(ExtV("divmod"), [a, b], {}, None)
                    if not isinstance(t, TupleV) or len(t.items) != 2:
                        raise Unsupported(f"divmod yields {show(t)[:100]}")
                    got.append(t.items[1])
                    return t.items[0]

                out = judge(w, act, q, n, lo, hi, ok_plain=char)
                if got and key(it.prim(got[0])) != key(r):
                    raise Unsupported(f"remainder {show(got[0])[:100]}")
                if got and isinstance(got[0], InstV):
                    # a remainder of the sized type has to be in its range too
                    v = it.prim(got[0])
                    if not (it.known_truth(it.less(v, Const(lo))) is False and it.known_truth(it.less(Const(hi), v)) is False):
                        out.append(("remainder", "the remainder is not checked"))
                return out

            settle("operator", f"divmod({n}, {oname})", both)

        # the operands keep their values
        for sym, op in BIN.items():
            def kept(w, n=n, op=op):
                it = w.it
                a = make(w, n, X)
                assume_not(it, it.less(Y, Const(0)))
                w.built = True
                try:
                    it.binop(op(), a, Y, None)
                except PyRaise:
                    pass
                return [("operand", None if key(it.prim(a)) == key(X) else f"is {show(it.prim(a))[:100]} afterwards")]

            settle("operator", f"{n} {sym} int keeps its operand", kept)

    # ------------------------------------------------------------------ reading
    def element(w, tag, text, wrap):
        e = build(w, tag, text)
        if wrap == "by itself":
            return e
        if wrap == "in an object":
            return build(w, "Obj", None, [e], RefId="0")
        if wrap == "with type names":
            return build(w, "Obj", None, [build(w, "TN", None, [build(w, "T", Const("User.Number")), build(w, "T", Const("System.ValueType"))], RefId="0"), e], RefId="0")
        if wrap == "with a property":
            return build(w, "Obj", None, [e, build(w, "MS", None, [build(w, "S", Const("x"), N="Extra")])], RefId="0")
        return build(w, "Obj", None, [build(w, "ToString", Const("t")), e], RefId="0")

    for n, tag in TAGS.items():
        lo, hi = RANGES[n]
        for wrap in ("by itself", "in an object", "with type names", "with a property", "with a text"):
            settle("read", f"<{tag}> {wrap}", lambda w, n=n, tag=tag, lo=lo, hi=hi, wrap=wrap: judge(w, lambda: deserialize(w, element(w, tag, T, wrap)), Sym("int", T, typ="int"), n, lo, hi))
            for v in (lo - 1, lo, hi, hi + 1, 2 ** 64, -2 ** 63 - 1):
                settle("read", f"<{tag}>{v} {wrap}", lambda w, n=n, tag=tag, lo=lo, hi=hi, wrap=wrap, v=v: judge(w, lambda: deserialize(w, element(w, tag, Const(str(v)), wrap)), Const(v), n, lo, hi))
    for en, base in ENUMS.items():
        lo, hi = RANGES[base]
        for tag in ("By", "SB", "I32", "U32", "I64", "U64"):
            tlo, thi = RANGES[next(n for n, t in TAGS.items() if t == tag)]
            for v in sorted({lo - 1, lo, hi, hi + 1}):
                if not tlo <= v <= thi:
                    continue

                def read_enum(w, en=en, base=base, tag=tag, v=v, lo=lo, hi=hi):
                    it = w.it
                    e = build(w, "Obj", None, [build(w, "TN", None, [build(w, "T", Const("User." + en)), build(w, "T", Const("System.Enum"))], RefId="0"), build(w, tag, Const(str(v)))], RefId="0")
                    w.built = True
                    try:
                        r = deserialize(w, e)
                    except PyRaise:
                        return [("raises", None if v in (lo - 1, hi + 1) else "raises for a declared value")]
                    n = it.prim(r)
                    if isinstance(r, EnumV):
                        n = it.prim(it.getattr(r, "value", None))
                    elif isinstance(n, Sym) and n.op == "enum":
                        n = it.prim(n.args[1])
                    if not isinstance(n, Const):
                        raise Unsupported(f"value {show(n)[:100]}")
                    return [("range", None if lo <= n.v <= hi else f"is {n.v}, outside {lo}..{hi}")]

                settle("read", f"{en} as <{tag}>{v}", read_enum)
