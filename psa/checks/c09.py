"""C09: the runspace limits of both sides."""
import itertools

from ..ops import *
from .c04 import TABLE
from .c08 import H, new_msgs, num

META = {
    "level": "other",
    "technique": "abstract interpretation of limit request histories over symbolic limits",
    "explanation": "The limits both sides report (public properties) are symbolic integers; every public operation and every incoming message is applied "
                   "in every pool state and must leave them alone unless it is one of the few that may change them, and histories of limit requests "
                   "and answers (success, failure, other id, other kind, repeated, out of order) are compared with the limits a model of the rule predicts.",
    "rules": ["before-open", "in-use", "requested", "not-before-answer", "success", "failure", "that-request", "other-limit", "initial", "connect", "unrelated"],
}

MIN0, MAX0 = A("min0", "int"), A("max0", "int")
HOST = {"HostInfo.FromPSObjectForRemoting": lambda it, f, args, kw, node: NONE}
V1, V2 = A("v1", "int"), A("v2", "int")
MSG = {"max": ("SetMaxRunspaces", "MaxRunspaces"), "min": ("SetMinRunspaces", "MinRunspaces")}


def limits(w):
    return {"min": w.it.prim(w.get(w.pool, "min_runspaces")), "max": w.it.prim(w.get(w.pool, "max_runspaces"))}


def same(it, a, b):
    """True, False or None when the path does not tell."""
    a, b = it.prim(a), it.prim(b)
    if key(a) == key(b):
        return True
    if isinstance(a, Const) and isinstance(b, Const):
        return a.v == b.v
    t = it.known_truth(it.eq(a, b))
    if t is not None:
        return t
    return None


def is_limit(chk, rule, construct, it, got, want, p, what):
    s = same(it, got, want)
    if s is None and lin_parts(it.prim(got)) is None and not isinstance(it.prim(got), Const):
        raise Unsupported(f"limit {show(got)}")
    return chk.need(s is True, rule, construct, f"{what}: the limit is {show(got)}, not {show(want)}", path=p)


def client(w, state="Opened"):
    w.pool = w.client(min_runspaces=MIN0, max_runspaces=MAX0)
    w.set_state(w.pool, state)
    version_peer(w, w.pool)
    w.seen = {id(m.inst) for m in w.queued(w.pool)}
    return w.pool


def explore_each(chk, rule, name, body, judge, ok_raise=True, **kw):
    def go():
        n = 0
        for p in chk.seen(run(chk.prog, body, config(value=lambda w: w.incoming, hooks=HOST, **{"assume": in_range, **kw}))):
            if p.kind == "raise" and p.exc_name() == "Exception":
                continue  # the message could not be put on the wire
            if p.kind == "raise" and not ok_raise:
                chk.bad(rule, name, f"raises {p.exc_name()}", path=p)
                continue
            judge(p, p.world, p.interp)
            n += 1
        return n
    chk.attempt(rule, name, go)


# ------------------------------------------------------------------ the client's setters
def setters(chk):
    for lim in ("max", "min"):
        other = "min" if lim == "max" else "max"
        cur = {"min": MIN0, "max": MAX0}
        for st in POOL_STATES:
            name = f"set_{lim}_runspaces in {st}"

            def body(w, lim=lim, st=st):
                client(w, st)
                try:
                    w.res = w.call(w.pool, f"set_{lim}_runspaces", V1)
                except PyRaise as e:
                    w.res = None
                w.ms = new_msgs(w)
                w.lims = limits(w)
                return NONE

            def judge(p, w, it, lim=lim, other=other, st=st, name=name):
                is_limit(chk, "other-limit", name, it, w.lims[other], cur[other], p, "the other limit")
                if w.res is None:
                    chk.need(not w.ms, "requested", name, f"refused but queued {w.ms}", path=p)
                    is_limit(chk, "not-before-answer", name, it, w.lims[lim], cur[lim], p, "refused")
                    chk.need(st not in ("BeforeOpen", "Opened"), "requested" if st == "Opened" else "before-open", name, "is refused", path=p)
                    return
                if st == "BeforeOpen":
                    chk.need(not w.ms, "before-open", name, f"queued {w.ms}", path=p)
                    is_limit(chk, "before-open", name, it, w.lims[lim], V1, p, "after setting")
                    return
                eq = same(it, V1, cur[lim])
                if eq is True:
                    chk.need(not w.ms, "in-use", name, f"the value already in use queued {w.ms}", path=p)
                    is_limit(chk, "in-use", name, it, w.lims[lim], cur[lim], p, "after setting the same value")
                    return
                if not w.ms:
                    chk.bad("requested", name, "a value that may differ from the one in use sends nothing", path=p)
                    return
                chk.need(eq is False, "in-use", name, f"queued {w.ms} for a value that may already be in use", path=p)
                mt, fld = MSG[lim]
                if chk.need(len(w.ms) == 1 and w.ms[0].name == mt, "requested", name, f"queued {w.ms}", path=p):
                    f = w.ms[0].field(fld)
                    chk.need(f is not None and same(it, f, V1) is True, "requested", name, f"requests {show(f) if f is not None else None}", path=p)
                is_limit(chk, "not-before-answer", name, it, w.lims[lim], cur[lim], p, "before the server answered")
            explore_each(chk, "requested", name, body, judge)


# ------------------------------------------------------------------ histories
def avail(w, ci, v):
    return w.new("RunspaceAvailability", ci=Const(ci), SetMinMaxRunspacesResponse=v)


def in_range(it, s):
    """Limits are 32 bit integers."""
    if s.op == "lt0":
        l = lin_parts(s.args[0])
        if l and len(l[1]) == 1 and abs(l[0]) >= 2 ** 31 - 1:
            return l[0] < 0
    return None


def distinct(it, s):
    """All symbolic limits of the histories differ."""
    r = in_range(it, s)
    if r is not None:
        return r
    names = {key(x) for x in (MIN0, MAX0, V1, V2)}
    if s.op == "eq" and all(key(a) in names for a in s.args) and key(s.args[0]) != key(s.args[1]):
        return False
    if s.op == "eq0":
        l = lin_parts(s.args[0])
        if l and l[0] == 0 and len(l[1]) == 2:
            return False
    return None


RESP = {"success": TRUE, "failure": FALSE, "number": Const(5), "zero": Const(0), "one": Const(1)}


def histories(chk):
    for l1 in ("max", "min"):
        for answer, val in RESP.items():
            for side in ("client", "server"):
                if side == "server" and answer not in ("success", "failure"):
                    continue
                name = f"{side} set_{l1} answered with {answer}"

                def body(w, l1=l1, val=val, side=side):
                    w.armed = False
                    h = H(w, side)
                    w.pool.attrs.update({})
                    setup(w, side, w.pool)
                    w.steps = [("start", limits(w))]

                    def step(what, f):
                        try:
                            f()
                        except PyRaise:
                            what += " (refused)"
                        w.steps.append((what, limits(w)))
                    mt, fld = MSG[l1]
                    if side == "client":
                        step("request", lambda: w.call(w.pool, f"set_{l1}_runspaces", V1))
                        step("other id", lambda: h_recv(w, avail(w, 9, TRUE)))
                        step("answer", lambda: h_recv(w, avail(w, 1, val)))
                        step("answer again", lambda: h_recv(w, avail(w, 1, TRUE)))
                    else:
                        step("request", lambda: h_recv(w, w.new(mt, ci=Const(1), **{fld: V1}), mt))
                        step("other id", lambda: w.call(w.pool, "runspace_availability_response", Const(9), TRUE))
                        step("answer", lambda: w.call(w.pool, "runspace_availability_response", Const(1), val))
                        step("answer again", lambda: w.call(w.pool, "runspace_availability_response", Const(1), TRUE))
                    return NONE

                def judge(p, w, it, l1=l1, answer=answer, name=name):
                    other = "min" if l1 == "max" else "max"
                    cur = {"min": MIN0, "max": MAX0}
                    for what, lims in w.steps:
                        is_limit(chk, "other-limit", f"{name}: {what}", it, lims[other], cur[other], p, "the other limit")
                        if what.startswith("answer"):
                            want = V1 if answer == "success" else cur[l1]
                            is_limit(chk, "success" if answer == "success" else "failure", f"{name}: {what}", it, lims[l1], want, p, what)
                        else:
                            is_limit(chk, "that-request" if what.startswith("other") else "not-before-answer", f"{name}: {what}", it, lims[l1], cur[l1], p, what)
                explore_each(chk, "success", name, body, judge, ok_raise=False, assume=distinct)

    for side in ("client", "server"):
        for l1, l2 in itertools.product(("max", "min"), repeat=2):
            for order in ((1, 2), (2, 1)):
                for r1, r2 in itertools.product((True, False), repeat=2):
                    name = f"{side} set_{l1} {'granted' if r1 else 'denied'} and set_{l2} {'granted' if r2 else 'denied'}, answered {order}"

                    def body(w, side=side, l1=l1, l2=l2, order=order, r1=r1, r2=r2):
                        w.armed = False
                        H(w, side)
                        setup(w, side, w.pool)
                        w.steps = []
                        for k, (l, v) in enumerate(((l1, V1), (l2, V2)), 1):
                            mt, fld = MSG[l]
                            if side == "client":
                                w.call(w.pool, f"set_{l}_runspaces", v)
                            else:
                                h_recv(w, w.new(mt, ci=Const(k), **{fld: v}), mt)
                        w.steps.append(("requests", limits(w)))
                        for k in order:
                            r = Const(r1 if k == 1 else r2)
                            if side == "client":
                                h_recv(w, avail(w, k, r))
                            else:
                                w.call(w.pool, "runspace_availability_response", Const(k), r)
                            w.steps.append((f"answer {k}", limits(w)))
                        return NONE

                    def judge(p, w, it, l1=l1, l2=l2, order=order, r1=r1, r2=r2, name=name):
                        want = {"min": MIN0, "max": MAX0}
                        for what, lims in w.steps:
                            if what == "answer 1" and r1:
                                want[l1] = V1
                            if what == "answer 2" and r2:
                                want[l2] = V2
                            for l in want:
                                is_limit(chk, "that-request", f"{name}: {what} ({l})", it, lims[l], want[l], p, what)
                    explore_each(chk, "that-request", name, body, judge, ok_raise=False, assume=distinct)

    # asked again: before the answer it is requested again, after success it is in use, after failure requested again; back to the old value
    for l in ("max", "min"):
        for granted in (True, False, None):
            name = f"set_{l} again {'after success' if granted else 'after failure' if granted is False else 'before the answer'}"

            def body(w, l=l, granted=granted):
                w.armed = False
                H(w, "client")
                setup(w, "client", w.pool)
                w.seen = {id(m.inst) for m in w.queued(w.pool)}
                w.call(w.pool, f"set_{l}_runspaces", V1)
                if granted is not None:
                    h_recv(w, avail(w, 1, Const(granted)))
                w.seen |= {id(m.inst) for m in new_msgs(w)}
                w.r1 = w.call(w.pool, f"set_{l}_runspaces", V1)
                w.m1 = new_msgs(w)
                w.seen |= {id(m.inst) for m in w.m1}
                w.r2 = w.call(w.pool, f"set_{l}_runspaces", {"max": MAX0, "min": MIN0}[l])
                w.m2 = new_msgs(w)
                w.lims = limits(w)
                return NONE

            def judge(p, w, it, l=l, granted=granted, name=name):
                mt, fld = MSG[l]
                chk.need(len(w.m1) == (0 if granted else 1), "in-use" if granted else "requested", name, f"queued {w.m1}", path=p)
                chk.need(len(w.m2) == (1 if granted else 0), "requested" if granted else "in-use", name + ", then the first value", f"queued {w.m2}", path=p)
                is_limit(chk, "not-before-answer", name, it, w.lims[l], V1 if granted else {"max": MAX0, "min": MIN0}[l], p, "at the end")
            explore_each(chk, "requested", name, body, judge, ok_raise=False, assume=distinct)


def setup(w, side, pool):
    """Symbolic limits: given to the constructor of a client, received with the opening message by a server."""
    if side == "client":
        client(w)
    else:
        w.set_state(pool, "Opening")
        h_recv(w, init_msg(w, MIN0, MAX0), "InitRunspacePool")
        w.set_state(pool, "Opened")
        while not isinstance(w.call(pool, "next_event"), Const):
            pass


def init_msg(w, mn, mx):
    return w.new("InitRunspacePool", MinRunspaces=mn, MaxRunspaces=mx, PSThreadOptions=w.enum("PSThreadOptions", "Default"),
                 ApartmentState=w.enum("ApartmentState", "Unknown"), HostInfo=w.new("HostInfo"), ApplicationArguments=DictV())


def h_recv(w, obj, name="RunspaceAvailability"):
    w.incoming = obj
    return w.receive(w.pool, name)


# ------------------------------------------------------------------ initial limits and connecting
def initial(chk):
    for how in ("constructor", "set max", "set min", "set both", "set both, min first"):
        name = f"open after limits by {how}"

        def body(w, how=how):
            w.pool = w.client(min_runspaces=MIN0, max_runspaces=MAX0)
            w.seen = {id(m.inst) for m in w.queued(w.pool)}
            steps = {"constructor": [], "set max": ["max"], "set min": ["min"], "set both": ["max", "min"], "set both, min first": ["min", "max"]}[how]
            w.want = {"min": MIN0, "max": MAX0}
            for l in steps:
                v = V1 if l == "max" else V2
                w.call(w.pool, f"set_{l}_runspaces", v)
                w.want[l] = v
            w.early = new_msgs(w)
            w.call(w.pool, "open")
            w.ms = new_msgs(w)
            w.lims = limits(w)
            return NONE

        def judge(p, w, it, name=name):
            chk.need(not w.early, "before-open", name, f"queued {w.early}", path=p)
            m = [m for m in w.ms if m.name == "InitRunspacePool"]
            if chk.need(len(m) == 1, "initial", name, f"queued {w.ms}", path=p):
                for l, f in (("min", "MinRunspaces"), ("max", "MaxRunspaces")):
                    v = m[0].field(f)
                    chk.need(v is not None and same(it, v, w.want[l]) is True, "initial", f"{name}: {f}", f"is {show(v) if v is not None else None}, not {show(w.want[l])}", path=p)
                    is_limit(chk, "initial", f"{name}: {l}_runspaces", it, w.lims[l], w.want[l], p, "after opening")
        explore_each(chk, "initial", name, body, judge, ok_raise=False)

    def body(w):
        H(w, "server")
        w.set_state(w.pool, "Opening")
        h_recv(w, init_msg(w, V2, V1), "InitRunspacePool")
        w.lims = limits(w)
        return NONE

    def judge(p, w, it):
        is_limit(chk, "initial", "server InitRunspacePool max", it, w.lims["max"], V1, p, "after the opening message")
        is_limit(chk, "initial", "server InitRunspacePool min", it, w.lims["min"], V2, p, "after the opening message")
    explore_each(chk, "initial", "server InitRunspacePool", body, judge, ok_raise=False)

    # a connecting client takes over what the server says, and the server says what is in force
    def body2(w):
        client(w, "Connecting")
        h_recv(w, w.new("RunspacePoolInitData", MinRunspaces=V2, MaxRunspaces=V1), "RunspacePoolInitData")
        w.lims = limits(w)
        return NONE

    def judge2(p, w, it):
        is_limit(chk, "connect", "client RunspacePoolInitData max", it, w.lims["max"], V1, p, "after the server's limits")
        is_limit(chk, "connect", "client RunspacePoolInitData min", it, w.lims["min"], V2, p, "after the server's limits")
    explore_each(chk, "connect", "client RunspacePoolInitData", body2, judge2, ok_raise=False)

    for with_limits in (False, True):
        name = "server ConnectRunspacePool" + (" carrying limits" if with_limits else "")

        def body3(w, with_limits=with_limits):
            w.armed = False
            H(w, "server")
            setup(w, "server", w.pool)
            w.seen = {id(m.inst) for m in w.queued(w.pool)}
            w.set_state(w.pool, "Connecting")
            h_recv(w, w.new("ConnectRunspacePool", **(dict(MinRunspaces=V2, MaxRunspaces=V1) if with_limits else {})), "ConnectRunspacePool")
            w.ms, w.lims = new_msgs(w), limits(w)
            return NONE

        def judge3(p, w, it, name=name, with_limits=with_limits):
            m = [m for m in w.ms if m.name == "RunspacePoolInitData"]
            if chk.need(len(m) == 1, "connect", name, f"queued {w.ms}", path=p):
                for l, f in (("min", "MinRunspaces"), ("max", "MaxRunspaces")):
                    v = m[0].field(f)
                    chk.need(v is not None and same(it, v, w.lims[l]) is True, "connect", f"{name}: {f}", f"says {show(v) if v is not None else None}, in force is {show(w.lims[l])}", path=p)
                    if not with_limits:
                        is_limit(chk, "connect", f"{name}: {l}_runspaces", it, w.lims[l], {"min": MIN0, "max": MAX0}[l], p, "after a connect without limits")
        explore_each(chk, "connect", name, body3, judge3, ok_raise=False, assume=distinct)


# ------------------------------------------------------------------ nothing else touches them
def unrelated(chk):
    may = {"set_max_runspaces", "set_min_runspaces"}
    for op in CLIENT_POOL + SERVER_POOL + CLIENT_PIPE + SERVER_PIPE:
        if op.name in may or op.name == "runspace_availability_response":
            continue
        for st in POOL_STATES:
            if op.target == "pipeline" and st != "Opened":
                continue

            def go(op=op, st=st):
                def b(w):
                    pool, obj, a, k = op.build(w, pool_state=st)
                    w.l0 = limits(w)
                    w.it.call(w.it.getattr(obj, op.name, None), a, k, None)
                    return NONE
                for p in chk.seen(run(chk.prog, b, config(assume=not_void))):
                    if not hasattr(p.world, "l0"):
                        continue
                    l1 = limits(p.world)
                    for l in ("min", "max"):
                        is_limit(chk, "unrelated", f"{op!r} in {st}: {l}", p.interp, l1[l], p.world.l0[l], p, "after the operation")
            chk.attempt("unrelated", f"{op!r} in {st}", go)
    sets = {"client": {"RunspacePoolInitData", "RunspaceAvailability"}, "server": {"InitRunspacePool", "ConnectRunspacePool"}}
    from .c04 import META_HOOKS
    for side in ("client", "server"):
        for n, (num_, cls, ev, rc, lvl) in TABLE.items():
            if n in sets[side] or rc not in (side, "both"):
                continue

            for st in POOL_STATES:
                def go(n=n, side=side, lvl=lvl, st=st):
                    def b(w):
                        w.armed = False
                        H(w, side)
                        setup(w, side, w.pool)
                        if lvl:
                            o = w.new("ClientPowerShell", w.pool, pipeline_id=Const(PID)) if side == "client" else w.new("ServerPipeline", w.pool, Const(PID))
                            w.set_state(o, "Running", "PSInvocationState")
                        w.set_state(w.pool, st)
                        w.l0 = limits(w)
                        w.incoming = Sym("incoming")
                        w.receive(w.pool, n, pid=PID if lvl else None, oid=91)
                        return NONE
                    for p in chk.seen(run(chk.prog, b, config(value=lambda w: w.incoming, hooks={**META_HOOKS, **HOST}, assume=in_range))):
                        if not hasattr(p.world, "l0"):
                            continue
                        l1 = limits(p.world)
                        for l in ("min", "max"):
                            is_limit(chk, "unrelated", f"{side} receiving {n} in {st}: {l}", p.interp, l1[l], p.world.l0[l], p, "after the message")
                chk.attempt("unrelated", f"{side} receiving {n} in {st}", go)


def check(chk):
    setters(chk)
    histories(chk)
    initial(chk)
    unrelated(chk)
