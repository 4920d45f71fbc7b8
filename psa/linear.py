"""Entailment between linear inequalities over unknown integers (the polyhedra domain's inclusion test, by Fourier-Motzkin elimination)."""
from .values import *

CAP = 400


def row(d):
    p = lin_parts(d)
    if p is None:
        return None
    return p[0], {k: n for k, (t, n) in p[1].items()}, {k: t for k, (t, n) in p[1].items()}


def norm(c, v):
    from math import gcd
    g = 0
    for n in v.values():
        g = gcd(g, abs(n))
    if g > 1:
        # integers: c + sum >= 0  =>  floor(c / g) + sum / g >= 0
        c = c // g
        v = {k: n // g for k, n in v.items()}
    return c, v


def infeasible(rows):
    """rows: (c, {var: coef}) meaning c + sum >= 0.  True when no integers (rationals) satisfy all of them."""
    cur = {}

    def put(dst, c, v):
        v = {k: n for k, n in v.items() if n}
        if not v:
            return c < 0
        c, v = norm(c, v)
        k = tuple(sorted(v.items(), key=repr))
        if k not in dst or dst[k] > c:
            dst[k] = c
        return False

    for c, v in rows:
        if put(cur, c, v):
            return True
    while cur:
        count = {}
        for k in cur:
            for x, n in k:
                p, m = count.get(x, (0, 0))
                count[x] = (p + 1, m) if n > 0 else (p, m + 1)
        x = min(count, key=lambda q: (count[q][0] * count[q][1] - sum(count[q]), repr(q)))
        pos, neg, nxt = [], [], {}
        for k, c in cur.items():
            d = dict(k)
            if x not in d:
                nxt[k] = c if k not in nxt else min(c, nxt[k])
            elif d[x] > 0:
                pos.append((c, d))
            else:
                neg.append((c, d))
        if len(pos) * len(neg) + len(nxt) > CAP:
            return False
        for cp, dp in pos:
            for cn, dn in neg:
                a, b = -dn[x], dp[x]
                v = {}
                for q in set(dp) | set(dn):
                    if q != x:
                        v[q] = a * dp.get(q, 0) + b * dn.get(q, 0)
                if put(nxt, a * cp + b * cn, v):
                    return True
        cur = nxt
    return False


def entailed(d, facts):
    """d >= 0 follows from the terms of facts being >= 0 (and lengths being so)."""
    t = row(d)
    if t is None:
        return False
    rs = [r for r in map(row, facts) if r is not None]
    # the facts connected with the question
    names = dict(t[2])
    use = []
    rest = rs
    while True:
        hit = [r for r in rest if any(k in names for k in r[1])]
        if not hit:
            break
        rest = [r for r in rest if not any(k in names for k in r[1])]
        use += hit
        for r in hit:
            names.update(r[2])
    if len(use) > 40:
        return False
    rows = [(-1 - t[0], {k: -n for k, n in t[1].items()})]
    rows += [(c, v) for c, v, _ in use]
    for k, x in names.items():
        if isinstance(x, Sym) and x.op == "len":
            rows.append((0, {k: 1}))
    return infeasible(rows)
