"""C07: a refused or failed operation leaves no trace."""
from ..drive import run as run_
from ..ops import *

META = {
    "technique": "effect analysis by abstract interpretation: the heap of pool and pipeline before and after every path that ends in an exception is compared",
    "level": "other",
    "explanation": "Abstract interpretation of every public operation from every state, with the serialization of every message that "
                   "carries caller supplied values also failing; on each path that ends in an exception the abstract heap of the pool "
                   "and pipeline is compared with the one before: queued messages, states, limits, flags, tables. Advanced counters "
                   "and call handlers nobody will ask for are not a trace.",
    "rules": ["no-trace", "retry-possible"],
}


def reachable(w):
    seen, todo = {}, [w.pool, w.obj]
    while todo:
        o = todo.pop()
        if o.born in seen:
            continue
        seen[o.born] = o
        for n, v in o.attrs.items():
            if isinstance(v, InstV) and (v.cls.module.name.endswith("_crypto") or v is w.pool):
                todo.append(v)
    return list(seen.values())


def snapshot(w):
    out = []
    for o in reachable(w):
        at = {}
        for n, v in o.attrs.items():
            if isinstance(v, ListV):
                at[n] = ("list", v, v.base, list(v.items))
            elif isinstance(v, DictV):
                at[n] = ("dict", v, v.base, dict(v.entries))
            elif isinstance(v, BufV):
                at[n] = ("buf", v, v.val, None)
            else:
                at[n] = ("val", v, None, None)
        out.append((o, at))
    return out


def is_counter(old, new):
    """new = old + constant"""
    if not isinstance(old, V) or not isinstance(new, V):
        return False
    d = lin_add(new, old, -1) if lin_parts(new) is not None and lin_parts(old) is not None else None
    return isinstance(d, Const) and isinstance(d.v, int) and d.v > 0


def contains(v, pred, depth=0):
    if depth > 14:
        return False
    if pred(v):
        return True
    if isinstance(v, Sym):
        return any(contains(a, pred, depth + 1) for a in v.args if isinstance(a, V))
    if isinstance(v, (TupleV,)):
        return any(contains(a, pred, depth + 1) for a in v.items)
    if isinstance(v, ListV):
        return (v.base is not None and contains(v.base, pred, depth + 1)) or any(contains(a, pred, depth + 1) for a in v.items)
    if isinstance(v, DictV):
        return (v.base is not None and contains(v.base, pred, depth + 1)) or any(contains(a, pred, depth + 1) for _, a in v.entries.values())
    return False


def deep_contains(it, v, pred, seen=None, depth=0):
    seen = seen if seen is not None else set()
    if isinstance(v, InstV):
        if v.born in seen or depth > 6:
            return False
        seen.add(v.born)
        if v.cls.name in ("ClientRunspacePool", "ServerRunspacePool"):
            return False
        vals = list(v.attrs.values())
        for x in props(it, v):
            vals.append(x)
        return any(deep_contains(it, x, pred, seen, depth + 1) for x in vals if isinstance(x, V))
    if isinstance(v, ListV):
        return (v.base is not None and pred(v.base)) or any(deep_contains(it, x, pred, seen, depth + 1) for x in v.items)
    if isinstance(v, DictV):
        return (v.base is not None and pred(v.base)) or any(deep_contains(it, x, pred, seen, depth + 1) for _, x in v.entries.values())
    return isinstance(v, V) and contains(v, pred)


def caller_value(v):
    if isinstance(v, Sym) and v.op == "arg" and v.typ is None:
        return True
    return isinstance(v, Sym) and v.op == "field" and v.args[1] in ("application_arguments",)


def may_fail(it, w, obj):
    """The message carries a value of the caller that may not be serializable."""
    if isinstance(obj, Sym):
        return contains(obj, caller_value)
    if isinstance(obj, InstV) and obj.cls.name in ("PowerShell", "GetMetadata", "InitRunspacePool"):
        return True
    return deep_contains(it, obj, caller_value)


def assume(it, s):
    if s.op == "isinstance" and isinstance(s.args[0], Sym) and s.args[0].op == "arg" and s.args[0].args[0] in ("data", "value") \
            and getattr(s.args[1], "name", "") == "EndOfPipelineInput":
        return False
    return not_void(it, s)


def removed(p, d, before):
    """Keys deleted from a table on this path and not put back."""
    gone = {}
    for e in p.effects:
        if e.obj is d:
            k = key(e.name) if isinstance(e.name, V) else e.name
            if e.kind in ("delitem", "pop", "popitem"):
                gone[k] = e
            elif e.kind == "setitem":
                gone.pop(k, None)
            elif e.kind == "clear":
                gone["*"] = e
    return list(gone.values())


def compare(chk, p, what):
    w = p.world
    bad = []
    for o, at in w.snap:
        for n, (k, v, base, content) in at.items():
            now = o.attrs.get(n)
            if k in ("list", "dict", "buf") and now is not v:
                nk = {ListV: "list", DictV: "dict", BufV: "buf"}.get(type(now))
                if nk == k == "list" and key_list(now) == (base and key(base), [key(x) for x in content]):
                    continue
                bad.append(f"{o.cls.name}.{n} is replaced")
                continue
            if k == "val":
                if isinstance(v, InstV) and now is v:
                    continue
                if key(now) != key(v) and not is_counter(v, now):
                    bad.append(f"{o.cls.name}.{n} changes from {show(v)} to {show(now)}")
            elif k == "list":
                if (now.base is None) != (base is None) or (base is not None and key(now.base) != key(base)) or \
                        [key(x) for x in now.items] != [key(x) for x in content]:
                    bad.append(f"{o.cls.name}.{n} holds {show_items(now, content)}")
            elif k == "dict":
                for e in removed(p, v, content):
                    bad.append(f"{o.cls.name}.{n} loses the entry {show(e.name) if isinstance(e.name, V) else e.name} at {e.where}")
                for kk, (dk, dv) in content.items():
                    if kk in now.entries and key(now.entries[kk][1]) != key(dv):
                        bad.append(f"{o.cls.name}.{n}[{show(dk)}] changes")
            elif k == "buf" and key(now.val) != key(base):
                bad.append(f"{o.cls.name}.{n} changes")
        for n, v in o.attrs.items():
            if n not in at:
                bad.append(f"{o.cls.name}.{n} is added")
    chk.need(not bad, "no-trace", what, f"raises {getattr(p.exc_cls, 'name', p.exc_cls)} at {p.where} but " + "; ".join(bad[:4]), path=p)


def key_list(l):
    return (l.base and key(l.base), [key(x) for x in l.items])


def show_items(now, before):
    extra = [x for x in now.items if key(x) not in {key(b) for b in before}]
    names = [show(x.attrs.get("message_type")) if isinstance(x, InstV) and "message_type" in x.attrs else show(x) for x in extra]
    return f"{len(now.items)} known elements instead of {len(before)} ({', '.join(map(str, names))})"


def check(chk):
    for op in CLIENT_POOL + SERVER_POOL:
        for state in POOL_STATES:
            chk.attempt("no-trace", f"{op} in {state}", lambda: decide(chk, op, pool_state=state))
    for op in CLIENT_PIPE + SERVER_PIPE:
        for state in PIPE_STATES:
            chk.attempt("no-trace", f"{op} in {state}", lambda: decide(chk, op, pipe_state=state))
        if op.label in ("host_call", "host_response"):
            for state in POOL_STATES:
                chk.attempt("no-trace", f"{op} in pool {state}", lambda: decide(chk, op, pool_state=state))
    # other reasons to refuse: an old peer, an unknown call, the wrong kind of answer, pipelines left, a too small size
    old = Op("client", "pool", "reset_runspace_state", None, lambda w, pool: version_peer(w, pool, "2.2"), label="reset_runspace_state(old peer)")
    chk.attempt("no-trace", str(old), lambda: decide(chk, old))
    info = Op("server", "pipeline", "write_information", lambda w: [A("message_data"), A("source", "str")],
              lambda w, pool: version_peer(w, pool, "2.2"), label="write_information(old peer)")
    chk.attempt("no-trace", str(info), lambda: decide(chk, info))
    for side in ("client", "server"):
        small = Op(side, "pool", "data_to_send", lambda w: [Const(21)], label="data_to_send(21)")
        chk.attempt("no-trace", str(small), lambda: decide(chk, small, must_raise=True))
    for n in ("SetMaxRunspaces", "SetMinRunspaces", "ResetRunspaceState", "GetAvailableRunspaces"):
        wrong = Op("server", "pool", "runspace_availability_response",
                   lambda w: [CI(), Const(3) if n != "GetAvailableRunspaces" else Const("x")], pending(n), label=f"runspace_availability_response(wrong kind for {n})")
        chk.attempt("no-trace", str(wrong), lambda: decide(chk, wrong, must_raise=True, general=False))
    for op in [o for o in CLIENT_POOL + CLIENT_PIPE if o.label == "host_response"]:
        chk.attempt("retry-possible", str(op), lambda: retry(chk, op))
    for kind in ("ClientPowerShell", "ClientGetCommandMetadata"):
        op = next(o for o in CLIENT_PIPE if o.kind == kind and o.label == "start")
        chk.attempt("retry-possible", str(op), lambda: retry(chk, op))
    for op in [o for o in CLIENT_POOL if o.label == "open"]:
        chk.attempt("retry-possible", str(op), lambda: retry(chk, op, pool_state="BeforeOpen"))


def decide(chk, op, must_raise=False, general=True, **st):
    def body(w):
        pool, obj, a, kw = op.build(w, general=general, **st)
        w.snap = snapshot(w)
        return w.it.call(w.it.getattr(obj, op.name, None), a, kw, None)

    paths = chk.seen(run_(chk.prog, body, config(fail=may_fail, assume=assume)))
    what = f"{op}" + "".join(f" in {v}" for v in st.values())
    n = 0
    for p in paths:
        if p.kind == "raise":
            n += 1
            compare(chk, p, what)
    if must_raise:
        chk.need(n == len(paths) and n > 0, "no-trace", what + " refused", "the operation is not refused", path=paths[0] if paths else None)
    elif not n:
        chk.ok("no-trace", what + " (never raises)")


def retry(chk, op, **st):
    """After a failed serialization the same call, now serializable, succeeds and queues its message."""
    def body(w):
        pool, obj, a, kw = op.build(w, general=False, pipe_state="NotStarted" if op.label == "start" else "Running", **st)
        w.failing = True
        w.first = None
        try:
            w.it.call(w.it.getattr(obj, op.name, None), a, kw, None)
            w.first = "ok"
        except PyRaise as e:
            w.first = "raise"
        w.mid = [m.name for m in w.queued(pool)]
        w.failing = False
        return w.it.call(w.it.getattr(obj, op.name, None), a, kw, None)

    def fail(it, w, obj):
        if getattr(w, "failing", False) and may_fail(it, w, obj):
            it.effect("serialize-failed", obj, None, NONE)
            raise PyRaise(Sym("exc", "SerializeError"), ExtV("Exception"), None)
        return False

    paths = chk.seen(run_(chk.prog, body, config(fail=fail, assume=assume)))
    n = 0
    for p in paths:
        if p.world.first != "raise":
            continue
        if p.kind == "raise" and isinstance(p.exc_cls, ExtV) and p.exc_cls.name not in ("KeyError",):
            continue
        n += 1
        o = outcome(p)
        chk.need(p.kind == "return" and not p.world.mid and o[4], "retry-possible", str(op),
                 f"after a serialization failure (messages left: {p.world.mid}) calling {op.name} again ends in {p.kind} "
                 f"{getattr(p.exc_cls, 'name', '')} with messages {[m.name for m in o[4]]}", path=p)
    if not n:
        raise Unsupported("no failing path")
