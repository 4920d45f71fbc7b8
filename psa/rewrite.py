"""Streaming rewriters: chains of regular expression substitutions over fixed-length patterns, composed and compared with the identity."""
import re
try:
    import re._parser as sre_parse
    import re._constants as sre_c
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants as sre_c

from .values import *

ALL = range(0x110000)
_SETS = {}


class NotFixed(Exception):
    pass


def charset(op, arg, flags):
    k = (str(op), repr(arg), flags & re.IGNORECASE)
    if k in _SETS:
        return _SETS[k]
    if op is sre_c.LITERAL and not flags & re.IGNORECASE:
        s = frozenset((arg,))
    elif op is sre_c.ANY and not flags & re.DOTALL:
        s = frozenset(ALL) - {10}
    elif op is sre_c.ANY:
        s = frozenset(ALL)
    else:
        def src(op, arg):
            if op is sre_c.LITERAL:
                return "\\U%08x" % arg
            if op is sre_c.RANGE:
                return "\\U%08x-\\U%08x" % arg
            if op is sre_c.CATEGORY:
                t = {"CATEGORY_DIGIT": r"\d", "CATEGORY_NOT_DIGIT": r"\D", "CATEGORY_WORD": r"\w", "CATEGORY_NOT_WORD": r"\W", "CATEGORY_SPACE": r"\s",
                     "CATEGORY_NOT_SPACE": r"\S"}.get(str(arg))
                if t:
                    return t
            raise NotFixed(str(op))

        if op is sre_c.LITERAL:
            p = "[" + src(op, arg) + "]"
        elif op is sre_c.NOT_LITERAL:
            p = "[^" + src(sre_c.LITERAL, arg) + "]"
        elif op is sre_c.IN:
            neg = arg and arg[0][0] is sre_c.NEGATE
            p = "[" + ("^" if neg else "") + "".join(src(o, a) for o, a in arg if o is not sre_c.NEGATE) + "]"
        else:
            raise NotFixed(str(op))
        m = re.compile(p, flags & (re.IGNORECASE | re.ASCII)).match
        s = frozenset(c for c in ALL if m(chr(c)))
    _SETS[k] = s
    return s


def fixed(rx):
    """The character sets of a fixed-length pattern, with its groups as (start, end)."""
    if not isinstance(rx.pattern, str):
        raise NotFixed("bytes pattern")
    tree = sre_parse.parse(rx.pattern, rx.flags & ~re.UNICODE if rx.flags & re.ASCII else rx.flags)
    sets, groups = [], {}

    def walk(items, flags):
        for op, arg in items:
            if op is sre_c.SUBPATTERN:
                g, add, rem, sub = arg
                st = len(sets)
                walk(sub, (flags | add) & ~rem)
                if g is not None:
                    groups[g] = (st, len(sets))
            elif op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT):
                lo, hi, sub = arg
                if lo != hi or lo > 32:
                    raise NotFixed("repeat")
                for _ in range(lo):
                    walk(sub, flags)
            else:
                sets.append(charset(op, arg, flags))

    walk(tree, rx.flags)
    if not sets or len(sets) > 32:
        raise NotFixed("length")
    return sets, groups


class Stage:
    """One substitution: rewrite(matched text) -> text."""

    def __init__(self, rx, rewrite):
        self.rx, self.rewrite = rx, rewrite
        self.sets, self.groups = fixed(rx)
        self.k = len(self.sets)

    def viable(self, buf):
        return all(ord(c) in s for c, s in zip(buf, self.sets))

    def push(self, buf, c):
        """(new buffer, output) after one more character"""
        buf += c
        out = ""
        while buf:
            if not self.viable(buf):
                out += buf[0]
                buf = buf[1:]
            elif len(buf) == self.k:
                out += self.rewrite(buf)
                buf = ""
            else:
                break
        return buf, out


class Identity:
    """Transcoding to and from the same UTF form: identity on UTF-16 code units."""
    k = 1
    sets = ()

    def push(self, buf, c):
        return "", c


def units(s):
    b = s.encode("utf-16-be", "surrogatepass")
    return tuple(b[i:i + 2] for i in range(0, len(b), 2))


def classes(stages, extra=()):
    """Representatives of the classes of characters no pattern tells apart."""
    sets = []
    for st in stages:
        for s in st.sets:
            if s not in sets:
                sets.append(s)
    sets += [frozenset(e) for e in extra]
    rep, size = {}, {}
    for c in ALL:
        sig = tuple(c in s for s in sets)
        rep.setdefault(sig, []).append(c)
    return rep, sets


def push_chain(stages, state, c):
    """Feed one character through all stages: (state, output)"""
    state = list(state)
    feed = c
    for i, st in enumerate(stages):
        out = ""
        for ch in feed:
            state[i], o = st.push(state[i], ch)
            out += o
        feed = out
    return tuple(state), feed


def flush_chain(stages, state):
    state = list(state)
    feed = ""
    for i, st in enumerate(stages):
        out = ""
        for ch in feed:
            state[i], o = st.push(state[i], ch)
            out += o
        out += state[i]
        feed = out
    return feed


def identity_counterexample(stages, alphabet, limit=200000):
    """A text the composition changes, None when it changes none, over the given characters."""
    start = (tuple("" for _ in stages), ())
    seen = {start: ""}
    todo = [start]
    n = 0
    while todo:
        nxt = []
        for st, pend in todo:
            how = seen[(st, pend)]
            end = units(flush_chain(stages, st))
            if end != pend:
                return how, n
            for c in alphabet:
                n += 1
                if n > limit:
                    raise NotFixed("too many states")
                s2, out = push_chain(stages, st, c)
                p2 = pend + units(c)
                o = units(out)
                if p2[:len(o)] != o:
                    return how + c, n
                p2 = p2[len(o):]
                if len(p2) > 64:
                    return how + c, n
                k = (s2, p2)
                if k not in seen:
                    seen[k] = how + c
                    nxt.append(k)
        todo = nxt
    return None, n
