"""C06: the pipeline state machine, decided by enumerating operation x state and comparing the abstract outcomes."""
from ..drive import run as run_
from ..ops import *
from .c05 import MESSAGES, FOR_PIPELINE, SAME, OK, table, assume_plain

META = {
    "technique": "abstract interpretation of every public pipeline operation and received message from every pipeline state, compared with the MS-PSRP state table",
    "level": "other",
    "explanation": "Abstract interpretation of every public operation of the client and server pipelines from every pipeline state "
                   "(and every pool state for host calls), and of the reception of every message type with two pipelines in the "
                   "table, compared path by path with the MS-PSRP pipeline state table: exception class, resulting state of that and "
                   "of the other pipeline, table membership, messages queued, their addressee and the state they report.",
    "rules": ["pipeline-op-table", "pipeline-op-reachable", "pipeline-addressee", "state-report", "pipeline-table", "pipeline-message-table"],
}

REFUSE = ("raise", "InvalidPipelineState")
START = dict(NotStarted=1, Stopped=1, Completed=1)


def on(states, out):
    return table(REFUSE, **{s: out for s in states})


RUN = lambda *m: on(["Running"], OK(SAME, *m))
CLOSE = on(["NotStarted", "Stopped", "Stopping", "Completed", "Failed"], OK(SAME))
EXPECT_CLIENT = {
    "start": on(START, OK("Running", "*start")),
    "send": RUN("PipelineInput"),
    "send_eof": RUN("EndOfPipelineInput"),
    "host_response": RUN("PipelineHostResponse"),
    "begin_stop": on(["Running", "Stopping"], OK("Stopping")),
    "close": CLOSE,
}
PS = "PipelineState"
EXPECT_SERVER = {
    "start": on(START, OK("Running", PS)),
    "complete": table(OK("Completed", PS)),
    "stop": table(REFUSE, Stopped=OK(SAME), Running=OK("Stopped", PS), Stopping=OK("Stopped", PS)),
    "begin_stop": on(["Running", "Stopping"], OK("Stopping", PS)),
    "close": CLOSE,
    "host_call": RUN("PipelineHostCall"),
    "write_output": RUN("PipelineOutput"),
    "write_error": RUN("ErrorRecord"),
    "write_debug": RUN("DebugRecord"),
    "write_verbose": RUN("VerboseRecord"),
    "write_warning": RUN("WarningRecord"),
    "write_progress": RUN("ProgressRecord"),
    "write_information": RUN("InformationRecord"),
}


def assume(it, s):
    # the data of these scenarios is an ordinary object
    if s.op == "is" and isinstance(s.args[0], Sym) and s.args[0].op == "arg" and s.args[0].args[0] in ("data", "value"):
        return False
    if s.op == "isinstance" and isinstance(s.args[0], Sym) and s.args[0].op == "arg" and s.args[0].args[0] in ("data", "value") \
            and getattr(s.args[1], "name", "") == "EndOfPipelineInput":
        return False
    return not_void(it, s)


def msgs_of(op, exp):
    start = {"ClientPowerShell": "CreatePipeline", "ClientGetCommandMetadata": "GetCommandMetadata"}.get(op.kind)
    return [start if m == "*start" else m for m in exp[2]]


def matches(prog, op, o, exp, pool_state, state):
    kind, exc, pst, st, msgs = o
    if sname(pst) != pool_state:
        return False
    if exp[0] == "raise":
        return kind == "raise" and is_a(prog, exc, exp[1]) and sname(st) == state and not msgs
    return kind == "return" and sname(st) == (state if exp[1] is SAME else exp[1]) and [m.name for m in msgs] == msgs_of(op, exp)


def describe(o):
    kind, exc, pst, st, msgs = o
    return f"{kind}{' ' + str(getattr(exc, 'name', exc)) if exc is not None else ''}, state {sname(st)}, pool {sname(pst)}, messages {[m.name for m in msgs]}"


def show_exp(op, exp, state):
    if exp[0] == "raise":
        return f"raise {exp[1]}, state {state}, no message"
    return f"return, state {state if exp[1] is SAME else exp[1]}, messages {msgs_of(op, exp)}"


def in_table(p):
    """Is the pipeline (by its id) still in the pool's table at the end of the path?"""
    w = p.world
    t = w.pool.attrs.get("pipeline_table")
    if not isinstance(t, DictV):
        raise Unsupported("pipeline_table")
    e = t.entries.get(key(Const(PID)))
    return e is not None and e[1] is w.obj


def check(chk):
    for ops, expect in ((CLIENT_PIPE, EXPECT_CLIENT), (SERVER_PIPE, EXPECT_SERVER)):
        for op in ops:
            for state in PIPE_STATES:
                chk.attempt("pipeline-op-table", f"{op} in {state}", lambda: decide(chk, op, state, expect[op.label](state), "Opened"))
            if op.label in ("host_call", "host_response"):
                for ps in POOL_STATES:
                    if ps != "Opened":
                        chk.attempt("pipeline-op-table", f"{op} in pool {ps}",
                                    lambda: decide(chk, op, "Running", ("raise", "InvalidRunspacePoolState"), ps))
    for side in ("client", "server"):
        for mt in MESSAGES:
            for state in PIPE_STATES:
                chk.attempt("pipeline-message-table", f"{side} receives {mt} in {state}", lambda: message(chk, side, mt, state))
        chk.attempt("pipeline-table", side, lambda: creation(chk, side))


def decide(chk, op, state, exp, pool_state):
    prog = chk.prog
    what = f"{op} in {state}" + ("" if pool_state == "Opened" else f", pool {pool_state}")
    for general in (False, True):
        paths = chk.seen(run_(prog, lambda w: op.apply(w, pool_state=pool_state, pipe_state=state, general=general), config(assume=assume)))
        if not paths:
            raise Unsupported("no path")
        hit = False
        for p in paths:
            o = outcome(p)
            good = matches(prog, op, o, exp, pool_state, state)
            hit = hit or good
            if not good and exp[0] == "ok" and p.kind == "raise" and isinstance(p.exc_cls, (ExtV,)) and sname(o[3]) == state and not o[4]:
                continue  # an argument of a type or range the operation does not document; that it leaves no trace is C07
            if not good and op.label == "host_response" and p.kind == "raise" and is_a(prog, p.exc_cls, "PSRPCoreError") is False:
                continue
            chk.need(good, "pipeline-op-table", what, f"got {describe(o)}; prescribed: {show_exp(op, exp, state)}", path=p)
            gone = op.label == "close" and exp[0] == "ok"
            chk.need(in_table(p) != gone, "pipeline-table", what,
                     "the pipeline is still in the pool's table" if gone else "the pipeline was removed from the pool's table", path=p)
            if good and exp[0] == "ok":
                for m in o[4]:
                    ok = isinstance(m.pid, Const) and m.pid.v == PID
                    chk.need(ok, "pipeline-addressee", what, f"message {m.name} is addressed to {show(m.pid)}, not to the pipeline", path=p)
                    if m.name == "PipelineState":
                        report(chk, p, m, o[3], what)
        chk.need(hit, "pipeline-op-reachable", what,
                 f"no path performs the prescribed outcome ({show_exp(op, exp, state)}); paths: {[describe(outcome(p)) for p in paths][:4]}", path=paths[0])


def report(chk, p, m, st, what):
    it = p.interp
    v = m.field("PipelineState")
    want = it.prim(st.value) if isinstance(st, EnumV) else st
    r = v is not None and it.eq(it.prim(v), want)
    chk.need(isinstance(r, Const) and bool(r.v), "state-report", what,
             f"the state reported to the client is {show(v) if v is not None else None}, the pipeline state is {sname(st)}", path=p)
    if sname(st) == "Stopped":
        e = m.field("ExceptionAsErrorRecord")
        chk.need(e is not None and not (isinstance(e, Const) and e.v is None), "state-report", what + " error",
                 "the stopped state is reported without its error record", path=p)


def pipes(w, side):
    pool = w.client() if side == "client" else w.server()
    w.set_state(pool, "Opened")
    version_peer(w, pool)
    pool.attrs["runspace_pool_id"] = Const(RPID)
    mk = (lambda i: w.new("ClientPowerShell", pool, pipeline_id=Const(i))) if side == "client" else (lambda i: w.new("ServerPipeline", pool, Const(i)))
    return pool, mk(PID), mk(PID2)


def message(chk, side, mt, state):
    prog = chk.prog
    reported = ["Running", "Completed", "Failed", "Stopped"] if mt == "PipelineState" and side == "client" else [None]
    for rep in reported:
        def body(w):
            pool, a, b = pipes(w, side)
            w.set_state(a, state, "PSInvocationState")
            w.set_state(b, "Running", "PSInvocationState")
            w.pool, w.obj, w.other = pool, a, b
            w.before = set()
            w.reset()
            return w.receive(pool, mt, pid=PID if mt in FOR_PIPELINE else None)

        what = f"{side} receives {mt}{'=' + rep if rep else ''} in {state}"
        paths = chk.seen(run_(prog, body, config(assume=assume_plain, focus={"PSInvocationState": rep} if rep else {},
                                                   prepare=lambda w: w.generalise(w.pool, keep=("their_capability", "pipeline_table")))))
        done = False
        for p in paths:
            o = outcome(p)
            want = rep if rep and p.kind == "return" else state
            done = done or p.kind == "return"
            chk.need(sname(o[3]) == want, "pipeline-message-table", what, f"the state of the addressed pipeline becomes {sname(o[3])}, prescribed is {want}", path=p)
            chk.need(sname(p.world.other.attrs["state"]) == "Running", "pipeline-message-table", what + " other",
                     f"the state of another pipeline becomes {sname(p.world.other.attrs['state'])}", path=p)
            chk.need(in_table(p), "pipeline-table", what, "a received message removed the pipeline from the table", path=p)
            ps = [m for m in o[4] if m.name == "PipelineState"]
            chk.need(not ps, "pipeline-message-table", what + " report", "receiving a message sends a pipeline state", path=p)
        if rep:
            chk.need(done, "pipeline-op-reachable", what, "the state message is never accepted", path=paths[0] if paths else None)


def creation(chk, side):
    """A new pipeline is not started and is in the table of its pool under its id, and in no other place."""
    def body(w):
        pool, a, b = pipes(w, side)
        w.pool, w.obj, w.other = pool, a, b
        w.before = set()
        return NONE

    for p in chk.seen(run_(chk.prog, body, config())):
        o = outcome(p)
        chk.need(sname(o[3]) == "NotStarted" and not o[4], "pipeline-op-table", f"new {side} pipeline", f"got {describe(o)}", path=p)
        chk.need(in_table(p), "pipeline-table", f"new {side} pipeline", "a new pipeline is not in its pool's table under its id", path=p)
