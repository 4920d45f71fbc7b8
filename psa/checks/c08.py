"""C08: call ids, their answers and the streams they travel on."""
import uuid

from ..ops import *

META = {
    "level": "other",
    "technique": "abstract interpretation of call and response histories over the public operations",
    "explanation": "Histories of requests, host calls, answers, repeated answers, answers out of order and answers nobody asked for are "
                   "interpreted on abstract pools; ids, addressees, method, response and stream of every queued message are compared per path. "
                   "All host methods are enumerated for the reserved id, all operations for the stream of their messages.",
    "rules": ["ids", "consecutive", "answer-id", "addressee", "method", "once", "unknown-refused", "kind", "void", "stream", "remembered"],
}

VOID = {"SetShouldExit", "EnterNestedPrompt", "ExitNestedPrompt", "NotifyBeginApplication", "NotifyEndApplication", "Write1", "Write2", "WriteLine1",
        "WriteLine2", "WriteLine3", "WriteErrorLine", "WriteDebugLine", "WriteProgress", "WriteVerboseLine", "WriteWarningLine", "SetForegroundColor",
        "SetBackgroundColor", "SetCursorPosition", "SetWindowPosition", "SetCursorSize", "SetBufferSize", "SetWindowSize", "SetWindowTitle",
        "FlushInputBuffer", "SetBufferContents1", "SetBufferContents2", "ScrollBufferContents", "PushRunspace", "PopRunspace"}
PROMPT = {"RunspacePoolHostCall", "RunspacePoolHostResponse", "PipelineHostCall", "PipelineHostResponse"}


def num(it, v):
    v = it.prim(v)
    return v.v if isinstance(v, Const) and isinstance(v.v, int) else None


def new_msgs(w):
    return [m for m in w.queued(w.pool) if id(m.inst) not in w.seen]


class H:
    """One history on a fresh pool: steps are functions of (world); raised exceptions of steps marked so are recorded."""

    def __init__(self, w, side, pipes=()):
        self.w = w
        w.pool = self.pool = w.client() if side == "client" else w.server()
        w.set_state(self.pool, "Opened")
        version_peer(w, self.pool)
        w.pipes = {}
        for p in pipes:
            o = w.new("ClientPowerShell", self.pool, pipeline_id=Const(p)) if side == "client" else w.new("ServerPipeline", self.pool, Const(p))
            w.set_state(o, "Running", "PSInvocationState")
            w.pipes[p] = o
        w.seen = {id(m.inst) for m in w.queued(self.pool)}
        w.log = []

    def do(self, what, obj, name, *args, **kw):
        """Apply an operation; log (what, result or exception, messages it queued)"""
        w = self.w
        try:
            r = ("ok", w.call(obj, name, *args, **kw))
        except PyRaise as e:
            r = ("raise", e.cls)
        ms = new_msgs(w)
        w.seen |= {id(m.inst) for m in ms}
        w.log.append((what, r, ms))
        return r

    def recv(self, what, name, obj, pid=None):
        w = self.w
        w.incoming = obj
        try:
            r = ("ok", w.receive(w.pool, name, pid=pid))
        except PyRaise as e:
            r = ("raise", e.cls)
        ms = new_msgs(w)
        w.seen |= {id(m.inst) for m in ms}
        w.log.append((what, r, ms))
        return r


def history(chk, rule, name, side, body, judge, pipes=(), assume=None, fail=None):
    def go():
        def b(w):
            w.armed = False
            h = H(w, side, pipes)
            body(w, h)
            return NONE
        ps = chk.seen(run(chk.prog, b, config(fail=fail, value=lambda w: w.incoming, assume=assume)))
        for p in ps:
            if p.kind == "raise":
                chk.bad(rule, name, f"raises {p.exc_name()}", path=p)
                continue
            judge(p, p.world, p.interp)
    chk.attempt(rule, name, go)


# ------------------------------------------------------------------ requests of the client
REQ = [("get_available_runspaces", [], "GetAvailableRunspaces"), ("reset_runspace_state", [], "ResetRunspaceState"),
       ("set_max_runspaces", [Const(7)], "SetMaxRunspaces"), ("set_min_runspaces", [Const(5)], "SetMinRunspaces")]


def requests(chk):
    import itertools
    for order in list(itertools.permutations(range(4))):
        name = "client requests " + ", ".join(REQ[i][0] for i in order)

        def body(w, h, order=order):
            for i in order:
                n, a, m = REQ[i]
                h.do(n, h.pool, n, *a)

        def judge(p, w, it, order=order, name=name):
            ids = []
            for (what, r, ms), i in zip(w.log, order):
                if not chk.need(r[0] == "ok" and len(ms) == 1 and ms[0].name == REQ[i][2], "ids", name + ": " + what, f"{r} {ms}", path=p):
                    return
                ci = num(it, ms[0].field("ci"))
                chk.need(num(it, r[1]) == ci and ci is not None, "ids", name + ": " + what + " returns the id", f"returned {show(r[1])}, sent {ci}", path=p)
                chk.need(ms[0].pid is None or isinstance(it.prim(ms[0].pid), Const) and it.prim(ms[0].pid).v is None, "addressee", name + ": " + what,
                         "a request of the pool is addressed to a pipeline", path=p)
                ids.append(ci)
            chk.need(ids == [1, 2, 3, 4], "consecutive", name, f"the ids are {ids}", path=p)
        history(chk, "ids", name, "client", body, judge)

    # in a general state: the next unused id, then the one after it
    for n, a, m in REQ:
        def go(n=n, a=a, m=m):
            def b(w):
                w.pool = pool = w.client()
                w.set_state(pool, "Opened")
                version_peer(w, pool)
                w.generalise(pool, keep=("their_capability", "_min_runspaces", "_max_runspaces"))
                w.set_state(pool, "Opened")
                w.seen = {id(x.inst) for x in w.queued(pool)}
                w.ids = []
                for k in range(2):
                    r = w.call(pool, n, *[Const(x.v + k) for x in a])
                    ms = new_msgs(w)
                    w.seen |= {id(x.inst) for x in ms}
                    w.ids.append((r, [x.field("ci") for x in ms]))
                return NONE
            for p in chk.seen(run(chk.prog, b, config())):
                if p.kind == "raise":
                    if p.exc_name() != "ValueError":  # the id does not fit 64 bits
                        chk.bad("consecutive", f"{n} twice, any state", f"raises {p.exc_name()}", path=p)
                    continue
                it = p.interp
                (r1, m1), (r2, m2) = p.world.ids
                if lin_parts(it.prim(r1)) is None or lin_parts(it.prim(r2)) is None or len(m1) != 1 or len(m2) != 1:
                    if isinstance(it.prim(r1), Const) and it.prim(r1).v is None:
                        continue
                    raise Unsupported(f"ids {show(r1)} {show(r2)} {m1} {m2}")
                d = lin_add(it.prim(r2), it.prim(r1), -1)
                chk.need(isinstance(d, Const) and d.v == 1, "consecutive", f"{n} twice, any state", f"the ids are {show(r1)} and {show(r2)}", path=p)
                for r, m in p.world.ids:
                    chk.need(key(it.prim(m[0])) == key(it.prim(r)), "ids", f"{n}, any state", f"returns {show(r)}, sends {show(m[0])}", path=p)
        chk.attempt("consecutive", f"{n} twice, any state", go)

    # answers of the server
    def avail(w, ci, v):
        return w.new("RunspaceAvailability", ci=Const(ci), SetMinMaxRunspacesResponse=v)

    for n, a, m in REQ:
        val = (lambda w: Const(3)) if m == "GetAvailableRunspaces" else (lambda w: w.new("PSBool", Const(True)) if False else Const(True))

        def body(w, h, n=n, a=a, val=val):
            h.recv("answer before any request", "RunspaceAvailability", avail(w, 1, val(w)))
            h.do("request", h.pool, n, *a)
            h.recv("answer to another id", "RunspaceAvailability", avail(w, 2, val(w)))
            h.recv("answer", "RunspaceAvailability", avail(w, 1, val(w)))
            h.recv("second answer", "RunspaceAvailability", avail(w, 1, val(w)))

        def judge(p, w, it, n=n):
            want = ["raise", "ok", "raise", "ok", "raise"]
            for (what, r, ms), x in zip(w.log, want):
                rule = "unknown-refused" if what in ("answer before any request", "answer to another id") else "once" if what == "second answer" else "remembered"
                chk.need(r[0] == x, rule, f"client {n}: {what}", f"{'accepted' if r[0] == 'ok' else 'refused with ' + str(getattr(r[1], 'name', r[1]))}", path=p)
        history(chk, "once", f"client {n} answered", "client", body, judge)

    # two outstanding requests answered in both orders
    for i, (n1, a1, m1) in enumerate(REQ):
        for j, (n2, a2, m2) in enumerate(REQ):
            for order in ((1, 2), (2, 1)):
                def body(w, h, order=order, n1=n1, a1=a1, n2=n2, a2=a2):
                    h.do("first", h.pool, n1, *a1)
                    h.do("second", h.pool, n2, *[Const(x.v + 1) for x in a2])
                    kinds = {1: REQ[i][2], 2: REQ[j][2]}
                    for k in order:
                        kind = n1 if k == 1 else n2
                        h.recv(f"answer {k}", "RunspaceAvailability", avail(w, k, Const(3) if kind == "get_available_runspaces" else Const(True)))
                    for k in order:
                        kind = n1 if k == 1 else n2
                        h.recv(f"answer {k} again", "RunspaceAvailability", avail(w, k, Const(3) if kind == "get_available_runspaces" else Const(True)))

                def judge(p, w, it, n1=n1, n2=n2, order=order):
                    for what, r, ms in w.log:
                        x = "raise" if what.endswith("again") else "ok"
                        chk.need(r[0] == x, "once" if x == "raise" else "remembered", f"client {n1}, {n2}, answers {order}: {what}", str(r[0]), path=p)
                history(chk, "once", f"client {n1}, {n2}, answers {order}", "client", body, judge)


# ------------------------------------------------------------------ host calls on the client
def host_calls(chk):
    def call(w, ci, method, pipe=False):
        return w.new("PipelineHostCall" if pipe else "RunspacePoolHostCall", ci=Const(ci) if isinstance(ci, int) else ci, mi=w.enum("HostMethodIdentifier", method), mp=ListV([]))

    def check_answer(p, w, it, what, ms, ci, method, pid, name):
        if not chk.need(len(ms) == 1, "addressee", name + ": " + what, f"queued {ms}", path=p):
            return
        m = ms[0]
        want = "PipelineHostResponse" if pid else "RunspacePoolHostResponse"
        chk.need(m.name == want, "addressee", name + ": " + what + " (message)", f"is a {m.name}", path=p)
        got = it.prim(m.pid) if m.pid is not None else NONE
        chk.need(isinstance(got, Const) and got.v == pid, "addressee", name + ": " + what + " (pipeline)", f"goes to {show(got)}, the call came from {pid}", path=p)
        chk.need(num(it, m.field("ci")) == ci, "answer-id", name + ": " + what, f"carries id {show(m.field('ci'))} instead of {ci}", path=p)
        mi = it.prim(m.field("mi")) if not isinstance(m.field("mi"), EnumV) else m.field("mi")
        chk.need(isinstance(mi, EnumV) and mi.name == method, "method", name + ": " + what, f"carries the method {show(mi)}", path=p)
        chk.need(getattr(m.stream, "name", None) == "prompt_response", "stream", name + ": " + what, f"travels on {show(m.stream)}", path=p)

    cases = [("pool", [(None, 4, "ReadLine")]), ("pipeline", [(PID, 4, "Prompt")]),
             ("pool and pipeline", [(None, 4, "ReadLine"), (PID, 5, "Prompt")]),
             ("two pipelines", [(PID, 4, "ReadLine"), (PID2, 5, "Prompt")]),
             ("same pipeline twice", [(PID, 4, "ReadLine"), (PID, 5, "GetName")]),
             ("large and negative ids", [(None, 2 ** 40, "ReadLine"), (None, -1, "GetName")]),
             ("id 0", [(None, 0, "ReadLine"), (PID, 1, "GetName")])]
    for cname, calls in cases:
        for order in ([list(range(len(calls)))] + ([list(reversed(range(len(calls))))] if len(calls) > 1 else [])):
            for via in ("pool", "pipeline"):
                if via == "pipeline" and not any(c[0] for c in calls):
                    continue
                name = f"host calls {cname}, answered {'in order' if order == sorted(order) else 'in reverse'}" + (" by the pipeline" if via == "pipeline" else "")

                def body(w, h, calls=calls, order=order, via=via):
                    h.do("answer before the call", h.pool, "host_response", Const(calls[0][1]), A("v"))
                    for pid, ci, m in calls:
                        h.recv(f"call {ci}", "PipelineHostCall" if pid else "RunspacePoolHostCall", call(w, ci, m, bool(pid)), pid=pid)
                    h.do("unknown id", h.pool, "host_response", Const(77), A("v"))
                    for k in order:
                        pid, ci, m = calls[k]
                        o = w.pipes[pid] if via == "pipeline" and pid else h.pool
                        h.do(f"answer {ci}", o, "host_response", Const(ci), A("v"))
                    for k in order:
                        pid, ci, m = calls[k]
                        o = w.pipes[pid] if via == "pipeline" and pid else h.pool
                        h.do(f"answer {ci} again", o, "host_response", Const(ci), A("v"))

                def judge(p, w, it, calls=calls, name=name):
                    by = {f"answer {ci}": (pid, ci, m) for pid, ci, m in calls}
                    for what, r, ms in w.log:
                        if what in ("answer before the call", "unknown id"):
                            chk.need(r[0] == "raise" and not ms, "unknown-refused", f"{name}: {what}", f"{r[0]}, queued {ms}", path=p)
                        elif what.endswith("again"):
                            chk.need(r[0] == "raise" and not ms, "once", f"{name}: {what}", f"{r[0]}, queued {ms}", path=p)
                        elif what.startswith("call"):
                            chk.need(r[0] == "ok" and not ms, "remembered", f"{name}: {what}", f"{r}, queued {ms}", path=p)
                        else:
                            pid, ci, m = by[what]
                            if chk.need(r[0] == "ok", "remembered", f"{name}: {what}", f"refused with {getattr(r[1], 'name', r[1])}", path=p):
                                check_answer(p, w, it, what, ms, ci, m, pid, name)
                history(chk, "answer-id", name, "client", body, judge, pipes=(PID, PID2))

    # with an error instead of a value, with nothing at all; what the answer carries
    for what, args in (("a value", [A("v"), NONE]), ("an error", [NONE, A("e")]), ("nothing", []), ("a false value", [FALSE]), ("an empty string", [Const("")]), ("zero", [Const(0)])):
        def body(w, h, args=args):
            h.recv("call", "RunspacePoolHostCall", call(w, 4, "ReadLine"))
            h.do("answer", h.pool, "host_response", Const(4), *args)

        def assume(it, s):
            if s.op == "is" and isinstance(s.args[1], Const) and s.args[1].v is None and key(s.args[0]) in (key(A("v")), key(A("e"))):
                return False
            return None

        def judge(p, w, it, what=what, args=args):
            r, ms = w.log[-1][1:]
            if not chk.need(r[0] == "ok" and len(ms) == 1, "remembered", f"host call answered with {what}", f"{r} {ms}", path=p):
                return
            m = ms[0]
            isn = lambda v: v is None or isinstance(it.prim(v), Const) and it.prim(v).v is None
            v = args[0] if args else NONE
            mr, me = m.field("mr"), m.field("me")
            ok = isn(mr) if isinstance(v, Const) and v.v is None else (mr is not None and key(it.prim(mr)) == key(v))
            chk.need(ok, "method", f"host call answered with {what} (value)", f"the response carries {show(mr) if mr is not None else None}", path=p)
            e = args[1] if len(args) > 1 else NONE
            ok = isn(me) if isinstance(e, Const) and e.v is None else (me is not None and key(it.prim(me)) == key(e))
            chk.need(ok, "method", f"host call answered with {what} (error)", f"the response carries {show(me) if me is not None else None}", path=p)
        history(chk, "remembered", f"host call answered with {what}", "client", body, judge, assume=assume)

    # void calls are never remembered; any other id is
    for pipe in (False, True):
        name = ("pipeline" if pipe else "pool") + " host call with any id"

        def body(w, h, pipe=pipe):
            ci = A("ci", "int")
            h.recv("call", "PipelineHostCall" if pipe else "RunspacePoolHostCall", Sym("incoming"), pid=PID if pipe else None)
            h.do("answer", h.pool, "host_response", CI(), A("v"))

        def judge(p, w, it, name=name):
            void = it.known_truth(it.eq(CI(), Const(-100)))
            r, ms = w.log[-1][1:]
            if w.log[0][1][0] != "ok":
                chk.bad("remembered", name, "the call is refused", path=p)
            elif void is True:
                chk.need(r[0] == "raise" and not ms, "void", name + " -100", "a call that returns nothing is remembered", path=p)
            elif void is False:
                chk.need(r[0] == "ok", "remembered", name + " other than -100", "the call is not remembered", path=p)
            else:
                chk.need(r[0] == "raise", "void", name, "the reserved id is not told apart", path=p)
        history(chk, "void", name, "client", body, judge, pipes=(PID,))

    # unrelated traffic between call and answer
    def body(w, h):
        h.recv("call", "PipelineHostCall", call(w, 4, "ReadLine", True), pid=PID)
        h.recv("user event", "UserEvent", Sym("incoming"))
        h.do("request", h.pool, "get_available_runspaces")
        h.recv("availability", "RunspaceAvailability", w.new("RunspaceAvailability", ci=Const(1), SetMinMaxRunspacesResponse=Const(3)))
        h.do("begin stop", w.pipes[PID2], "begin_stop")
        h.recv("call 2", "RunspacePoolHostCall", call(w, 9, "GetName"))
        h.do("answer 2", h.pool, "host_response", Const(9), A("v"))
        h.do("answer", h.pool, "host_response", Const(4), A("v"))

    def judge(p, w, it):
        r, ms = w.log[-1][1:]
        if chk.need(r[0] == "ok", "remembered", "unrelated traffic", f"refused with {getattr(r[1], 'name', r[1])}", path=p):
            check_answer(p, w, it, "answer", ms, 4, "ReadLine", PID, "unrelated traffic")
    history(chk, "remembered", "unrelated traffic", "client", body, judge, pipes=(PID, PID2))

    # a request and a host call of the same id are independent (both sides count for themselves)
    for n, a, m in REQ:
        for first in ("call", "request"):
            def body2(w, h, n=n, a=a, m=m, first=first):
                steps = [lambda: h.recv("call", "RunspacePoolHostCall", call(w, 1, "ReadLine")), lambda: h.do("request", h.pool, n, *a)]
                for s in steps if first == "call" else reversed(steps):
                    s()
                steps = [lambda: h.do("answer", h.pool, "host_response", Const(1), A("v")),
                         lambda: h.recv("availability", "RunspaceAvailability", w.new("RunspaceAvailability", ci=Const(1), SetMinMaxRunspacesResponse=Const(3) if m == "GetAvailableRunspaces" else TRUE))]
                for s in steps if first == "call" else reversed(steps):
                    s()

            def judge2(p, w, it, n=n):
                for what, r, ms in w.log:
                    chk.need(r[0] == "ok", "remembered", f"host call and {n} of the same id: {what}", f"refused with {getattr(r[1], 'name', r[1])}", path=p)
            history(chk, "remembered", f"host call and {n} of the same id, {first} first", "client", body2, judge2)

    # an answer that could not be put on the wire was not given: the call is still open
    for via in ("pool", "pipeline"):
        def body3(w, h, via=via):
            h.recv("call", "PipelineHostCall", call(w, 4, "Prompt", True), pid=PID)
            w.armed = True
            h.do("answer", w.pipes[PID] if via == "pipeline" else h.pool, "host_response", Const(4), A("v"))
            w.armed = False
            h.do("answer again", w.pipes[PID] if via == "pipeline" else h.pool, "host_response", Const(4), A("v"))

        def judge3(p, w, it, via=via):
            name = f"host call answered by the {via}, the value may not serialize"
            (_, r1, m1), (_, r2, m2) = w.log[1:]
            if r1[0] == "ok":
                chk.need(r2[0] == "raise" and not m2, "once", name, "is answered twice", path=p)
            elif chk.need(not m1 and r2[0] == "ok", "remembered", name, "the call is forgotten although no answer was sent", path=p):
                check_answer(p, w, it, "answer again", m2, 4, "Prompt", PID, name)
        history(chk, "remembered", f"host call answered by the {via}, the value may not serialize", "client", body3, judge3, pipes=(PID,),
                fail=lambda it, w, obj: w.armed)


# ------------------------------------------------------------------ the server
def server(chk):
    members = chk.prog.cls("HostMethodIdentifier").enum_members
    for mname in members:
        def body(w, h, mname=mname):
            h.do("call", h.pool, "host_call", w.enum("HostMethodIdentifier", mname), A("params"))

        def judge(p, w, it, mname=mname):
            what, r, ms = w.log[0]
            if not chk.need(r[0] == "ok" and len(ms) == 1, "void", f"host_call({mname})", f"{r} {ms}", path=p):
                return
            ci = num(it, ms[0].field("ci"))
            chk.need(ci == num(it, r[1]), "ids", f"host_call({mname})", f"returns {show(r[1])}, sends {ci}", path=p)
            if mname in VOID:
                chk.need(ci == -100, "void", f"host_call({mname})", f"carries id {ci}, nothing is returned by it", path=p)
            else:
                chk.need(ci == 1, "void", f"host_call({mname})", f"carries id {ci}, an answer is expected", path=p)
        history(chk, "void", f"host_call({mname})", "server", body, judge)

    def body(w, h):
        M = lambda n: w.enum("HostMethodIdentifier", n)
        h.do("a", h.pool, "host_call", M("ReadLine"), A("p"))
        h.do("b", w.pipes[PID], "host_call", M("ReadLine"), A("p"))
        h.do("c", h.pool, "host_call", M("WriteLine1"), A("p"))
        h.do("d", w.pipes[PID2], "host_call", M("WriteLine1"), A("p"))
        h.do("e", w.pipes[PID2], "host_call", M("Prompt"), A("p"))
        h.do("f", h.pool, "host_call", M("GetName"))

    WANT = [(1, None, "ReadLine"), (2, PID, "ReadLine"), (-100, None, "WriteLine1"), (-100, PID2, "WriteLine1"), (3, PID2, "Prompt"), (4, None, "GetName")]

    def judge(p, w, it):
        for (what, r, ms), (ci, pid, mn) in zip(w.log, WANT):
            name = f"server host calls: {what} {mn}"
            if not chk.need(r[0] == "ok" and len(ms) == 1, "ids", name, f"{r} {ms}", path=p):
                return
            m = ms[0]
            chk.need(num(it, m.field("ci")) == ci == num(it, r[1]), "consecutive", name, f"id {show(m.field('ci'))}, returned {show(r[1])}, expected {ci}", path=p)
            chk.need(m.name == ("PipelineHostCall" if pid else "RunspacePoolHostCall"), "addressee", name, f"is a {m.name}", path=p)
            got = it.prim(m.pid) if m.pid is not None else NONE
            chk.need(isinstance(got, Const) and got.v == pid, "addressee", name + " (pipeline)", f"goes to {show(got)}", path=p)
            mi = m.field("mi")
            mi = mi if isinstance(mi, EnumV) else it.prim(mi)
            chk.need(isinstance(mi, EnumV) and mi.name == mn, "method", name, f"carries {show(mi)}", path=p)
    history(chk, "consecutive", "server host calls", "server", body, judge, pipes=(PID, PID2))

    # runspace requests
    reqs = {"GetAvailableRunspaces": lambda w, ci: w.new("GetAvailableRunspaces", ci=Const(ci)),
            "ResetRunspaceState": lambda w, ci: w.new("ResetRunspaceState", ci=Const(ci)),
            "SetMaxRunspaces": lambda w, ci: w.new("SetMaxRunspaces", MaxRunspaces=Const(8), ci=Const(ci)),
            "SetMinRunspaces": lambda w, ci: w.new("SetMinRunspaces", MinRunspaces=Const(8), ci=Const(ci))}
    for n, mk in reqs.items():
        good = Const(3) if n == "GetAvailableRunspaces" else TRUE
        for rname, resp in (("True", TRUE), ("False", FALSE), ("5", Const(5)), ("0", Const(0)), ("1", Const(1)), ("'x'", Const("x")), ("None", NONE), ("1.5", Const(1.5))):
            ok = isinstance(resp.v, int) and not isinstance(resp.v, bool) if n == "GetAvailableRunspaces" else isinstance(resp.v, bool)

            def body(w, h, n=n, mk=mk, resp=resp):
                h.recv("request", n, mk(w, 6))
                h.do("other id", h.pool, "runspace_availability_response", Const(5), good)
                h.do("response", h.pool, "runspace_availability_response", Const(6), resp)
                h.do("response again", h.pool, "runspace_availability_response", Const(6), resp)

            def judge(p, w, it, n=n, resp=resp, rname=rname, ok=ok):
                name = f"server {n} answered with {rname}"
                chk.need(w.log[0][1][0] == "ok" and not w.log[0][2], "remembered", name, f"the request: {w.log[0]}", path=p)
                chk.need(w.log[1][1][0] == "raise" and not w.log[1][2], "unknown-refused", name, "an answer to an id nobody asked for is sent", path=p)
                r, ms = w.log[2][1:]
                if not ok:
                    chk.need(r[0] == "raise" and not ms, "kind", name, f"is accepted, queued {ms}", path=p)
                    return
                if not chk.need(r[0] == "ok" and len(ms) == 1 and ms[0].name == "RunspaceAvailability", "kind", name, f"{r[0]}, queued {ms}", path=p):
                    return
                chk.need(num(it, ms[0].field("ci")) == 6, "answer-id", name, f"carries id {show(ms[0].field('ci'))}", path=p)
                v = it.prim(ms[0].field("SetMinMaxRunspacesResponse"))
                chk.need(isinstance(v, Const) and v.v == resp.v and isinstance(v.v, bool) == isinstance(resp.v, bool), "method", name, f"carries the response {show(v)}", path=p)
                chk.need(w.log[3][1][0] == "raise" and not w.log[3][2], "once", name, "is answered twice", path=p)
            history(chk, "kind", f"server {n} answered with {rname}", "server", body, judge)
    names = list(reqs)
    for a in names:
        for b in names:
            for order in ((1, 2), (2, 1)):
                def body(w, h, a=a, b=b, order=order):
                    h.recv("request 1", a, reqs[a](w, 1))
                    h.recv("request 2", b, reqs[b](w, 2))
                    for suffix in ("", " again"):
                        for k in order:
                            n = a if k == 1 else b
                            h.do(f"response {k}{suffix}", h.pool, "runspace_availability_response", Const(k), Const(3) if n == "GetAvailableRunspaces" else TRUE)

                def judge(p, w, it, a=a, b=b, order=order):
                    name = f"server {a}, {b} answered {order}"
                    for what, r, ms in w.log[2:]:
                        if what.endswith("again"):
                            chk.need(r[0] == "raise" and not ms, "once", f"{name}: {what}", "is answered twice", path=p)
                        else:
                            k = int(what.split()[1])
                            if chk.need(r[0] == "ok" and len(ms) == 1, "remembered", f"{name}: {what}", f"{r[0]}, queued {ms}", path=p):
                                chk.need(num(it, ms[0].field("ci")) == k, "answer-id", f"{name}: {what}", f"carries id {show(ms[0].field('ci'))}", path=p)
                history(chk, "once", f"server {a}, {b} answered {order}", "server", body, judge)


# ------------------------------------------------------------------ streams
def streams(chk):
    for op in CLIENT_POOL + SERVER_POOL + CLIENT_PIPE + SERVER_PIPE:
        def go(op=op):
            def b(w):
                return op.apply(w, pool_state="BeforeOpen" if op.name in ("open",) else "Opened" if op.name not in ("connect", "reconnect") else "Disconnected",
                                pipe_state="NotStarted" if op.name == "start" else "Running")
            n = 0
            for p in chk.seen(run(chk.prog, b, config(assume=not_void))):
                if p.kind == "raise":
                    continue
                for m in outcome(p)[4]:
                    want = "prompt_response" if m.name in PROMPT else "default"
                    n += 1
                    chk.need(getattr(m.stream, "name", None) == want, "stream", f"{op!r}: {m.name}", f"travels on {show(m.stream)}", path=p)
        chk.attempt("stream", repr(op), go)


def check(chk):
    requests(chk)
    host_calls(chk)
    server(chk)
    streams(chk)
