"""C05: the runspace pool state machine, decided by enumerating operation x state and comparing the abstract outcomes."""
from ..ops import *

META = {
    "technique": "abstract interpretation of every public pool operation and received message from every pool state, compared with the MS-PSRP state table",
    "level": "other",
    "explanation": "Abstract interpretation of every public pool operation and of the reception of every message type, from every "
                   "pool state and an otherwise general pool (unknown counters, tables, key exchange), compared path by path with "
                   "the MS-PSRP pool state table: exception class, resulting state, messages queued and their addressee and the "
                   "state they report.",
    "rules": ["pool-op-table", "pool-op-reachable", "pool-message-table", "state-report", "non-state-ops"],
}

OK = lambda new, *msgs: ("ok", new, list(msgs))
REFUSE = ("raise", "InvalidRunspacePoolState")
ANY = ("any",)


def table(default, **kw):
    return lambda s: kw.get(s, default)


SAME = object()
EXPECT_CLIENT = {
    "open": table(REFUSE, Opened=OK(SAME), BeforeOpen=OK("Opening", "SessionCapability", "InitRunspacePool")),
    "connect": table(REFUSE, Opened=OK(SAME), BeforeOpen=OK("Connecting", "SessionCapability", "ConnectRunspacePool"),
                     Disconnected=OK("Connecting", "SessionCapability", "ConnectRunspacePool")),
    "get_available_runspaces": table(REFUSE, Opened=OK(SAME, "GetAvailableRunspaces")),
    "exchange_key": table(REFUSE, Opened=OK(SAME, "PublicKey")),
    "host_response": table(REFUSE, Opened=OK(SAME, "RunspacePoolHostResponse")),
    "reset_runspace_state": table(REFUSE, Opened=OK(SAME, "ResetRunspaceState")),
    "set_max_runspaces": table(ANY, BeforeOpen=OK(SAME), Opened=OK(SAME, "SetMaxRunspaces")),
    "set_min_runspaces": table(ANY, BeforeOpen=OK(SAME), Opened=OK(SAME, "SetMinRunspaces")),
    "begin_close": table(OK("Closing")),
    "close": table(REFUSE, Opened=OK("Closed"), Closing=OK("Closed"), Closed=OK("Closed")),
    "begin_disconnect": table(OK("Disconnecting")),
    "disconnect": table(REFUSE, Opened=OK("Disconnected"), Disconnecting=OK("Disconnected"), Disconnected=OK("Disconnected")),
    "reconnect": table(REFUSE, Disconnected=OK("Opened"), Opened=OK("Opened")),
}
S = "RunspacePoolState"
EXPECT_SERVER = {
    "connect": table(REFUSE, Opened=OK(SAME), Disconnected=OK("Connecting")),
    "send_event": table(REFUSE, Opened=OK(SAME, "UserEvent")),
    "set_broken": table(REFUSE, Opened=OK("Broken", S), Broken=OK("Broken", S)),
    "host_call": table(REFUSE, Opened=OK(SAME, "RunspacePoolHostCall")),
    "host_call(void)": table(REFUSE, Opened=OK(SAME, "RunspacePoolHostCall")),
    "request_key": table(REFUSE, Opened=OK(SAME, "PublicKeyRequest")),
    "runspace_availability_response": table(OK(SAME, "RunspaceAvailability")),
    "begin_close": table(OK("Closing", S)),
    "close": table(REFUSE, Opened=OK("Closed", S), Closing=OK("Closed", S), Closed=OK("Closed", S)),
    "begin_disconnect": table(OK("Disconnecting")),
    "disconnect": table(REFUSE, Opened=OK("Disconnected"), Disconnecting=OK("Disconnected"), Disconnected=OK("Disconnected")),
    "reconnect": table(REFUSE, Disconnected=OK("Opened", S), Opened=OK("Opened", S)),
}
# outcomes that are right as well when the pool is in a general situation: nothing to do, pipelines still open, unknown call
EXTRA = {
    "exchange_key": [OK(SAME)], "request_key": [OK(SAME)],
    "set_max_runspaces": [OK(SAME)], "set_min_runspaces": [OK(SAME)],
    "close": [("raise", "PSRPCoreError")],
    "host_response": [("raise", "KeyError"), ("raise", "PSRPCoreError"), OK(SAME, "PipelineHostResponse")],
    "runspace_availability_response": [("raise", "PSRPCoreError")],
}


def matches(prog, out, exp, state):
    kind, exc, st, _, msgs = out
    if exp[0] == "any":
        return True
    if exp[0] == "raise":
        return kind == "raise" and is_a(prog, exc, exp[1]) and sname(st) == state and not msgs
    new = state if exp[1] is SAME else exp[1]
    return kind == "return" and sname(st) == new and [m.name for m in msgs] == exp[2]


def describe(out):
    kind, exc, st, _, msgs = out
    return f"{kind}{' ' + str(getattr(exc, 'name', exc)) if exc is not None else ''}, state {sname(st)}, messages {[m.name for m in msgs]}"


def show_exp(exp, state):
    if exp[0] == "raise":
        return f"raise {exp[1]}, state {state}, no message"
    if exp[0] == "any":
        return "anything"
    return f"return, state {state if exp[1] is SAME else exp[1]}, messages {exp[2]}"


def check(chk):
    prog = chk.prog
    for ops, expect in ((CLIENT_POOL, EXPECT_CLIENT), (SERVER_POOL, EXPECT_SERVER)):
        for op in ops:
            for state in POOL_STATES:
                chk.attempt("pool-op-table", f"{op} in {state}", lambda: decide(chk, op, state, expect[op.label](state)))
    for side in ("client", "server"):
        for state in POOL_STATES:
            for mt in MESSAGES:
                chk.attempt("pool-message-table", f"{side} receives {mt} in {state}", lambda: message(chk, side, mt, state))
    closing(chk)
    for side in ("client", "server"):
        for state in POOL_STATES:
            chk.attempt("non-state-ops", f"{side} {state}", lambda: others(chk, side, state))


def cfg_for(op, **kw):
    return config(assume=not_void, **kw)


def decide(chk, op, state, exp):
    prog = chk.prog
    for general in (False, True):
        paths = chk.seen(run_paths(prog, op, state, general))
        what = f"{op} in {state}"
        allowed = [exp] + (EXTRA.get(op.label, []) if general or op.label in ("host_response", "set_max_runspaces", "set_min_runspaces") else [])
        if not paths:
            raise Unsupported("no path")
        hit = False
        for p in paths:
            o = outcome(p)
            main = matches(prog, o, exp, state)
            hit = hit or main
            good = main or any(matches(prog, o, e, state) for e in allowed)
            if not good and exp[0] == "ok" and p.kind == "raise" and isinstance(p.exc_cls, ExtV) and sname(o[2]) == state and not o[4]:
                continue  # an argument of a type or range the operation does not document; that it leaves no trace is C07
            chk.need(good, "pool-op-table", what, f"got {describe(o)}; prescribed: {show_exp(exp, state)}", path=p)
            if good and main and exp[0] == "ok":
                for m in o[4]:
                    if m.name == "RunspacePoolState":
                        report(chk, p, m, o[2], what)
                    pid = NONE if m.pid is None else m.pid
                    if m.name not in ("PipelineHostResponse",):
                        chk.need(isinstance(pid, Const) and pid.v is None, "pool-op-table", what + " addressee",
                                 f"message {m.name} of the pool is addressed to pipeline {show(pid)}", path=p)
        chk.need(hit or exp[0] == "any", "pool-op-reachable", what,
                 f"no path performs the prescribed outcome ({show_exp(exp, state)}); paths: {[describe(outcome(p)) for p in paths][:4]}",
                 path=paths[0])


def report(chk, p, m, st, what):
    it = p.interp
    v = m.field("RunspaceState")
    want = it.prim(st.value) if isinstance(st, EnumV) else st
    r = v is not None and it.eq(it.prim(v), want)
    same = isinstance(r, Const) and bool(r.v)
    chk.need(same, "state-report", what, f"the state reported to the client is {show(v) if v is not None else None}, the pool state is {sname(st)}", path=p)


def run_paths(prog, op, state, general):
    return run_(prog, lambda w: op.apply(w, pool_state=state, general=general), cfg_for(op))


run_ = __import__("psa.drive", fromlist=["run"]).run

MESSAGES = ["SessionCapability", "InitRunspacePool", "PublicKey", "EncryptedSessionKey", "PublicKeyRequest", "SetMaxRunspaces",
            "SetMinRunspaces", "RunspaceAvailability", "RunspacePoolState", "CreatePipeline", "GetAvailableRunspaces", "UserEvent",
            "ApplicationPrivateData", "GetCommandMetadata", "RunspacePoolHostCall", "RunspacePoolHostResponse", "PipelineInput",
            "EndOfPipelineInput", "PipelineOutput", "ErrorRecord", "PipelineState", "DebugRecord", "VerboseRecord", "WarningRecord",
            "ProgressRecord", "InformationRecord", "PipelineHostCall", "PipelineHostResponse", "ConnectRunspacePool",
            "RunspacePoolInitData", "ResetRunspaceState"]

FOR_PIPELINE = {"CreatePipeline", "GetCommandMetadata", "PipelineInput", "EndOfPipelineInput", "PipelineOutput", "ErrorRecord", "PipelineState",
                "DebugRecord", "VerboseRecord", "WarningRecord", "ProgressRecord", "InformationRecord", "PipelineHostCall", "PipelineHostResponse"}


def assume_plain(it, s):
    if s.op in ("hasattr",):
        return False
    return not_void(it, s)


def message(chk, side, mt, state):
    prog = chk.prog
    reported = ["Opened", "Closed", "Broken"] if mt == "RunspacePoolState" and side == "client" else [None]
    for rep in reported:
        focus = {"RunspacePoolState": rep} if rep else {}

        def prepare(w):
            w.generalise(w.pool, keep=("their_capability",))

        def body(w):
            pool = w.client() if side == "client" else w.server()
            version_peer(w, pool)
            w.set_state(pool, state)
            pool.attrs["runspace_pool_id"] = Const(RPID)
            w.pool = w.obj = pool
            w.before = set()
            w.reset()
            return w.receive(pool, mt, pid=PID if mt in FOR_PIPELINE else None)

        paths = chk.seen(run_(prog, body, config(assume=assume_plain, prepare=prepare, focus=focus)))
        start = "Opening" if side == "server" and state == "BeforeOpen" else state
        what = f"{side} receives {mt}{'=' + rep if rep else ''} in {state}"
        done = False
        for p in paths:
            o = outcome(p)
            want = start
            msgs = [m for m in o[4] if m.name == "RunspacePoolState"]
            nrep = 0
            if p.kind == "return":
                if side == "client" and mt == "RunspacePoolState":
                    want = rep
                elif side == "client" and mt == "ApplicationPrivateData" and state == "Connecting":
                    want = "Opened"
                elif side == "server" and mt in ("InitRunspacePool", "ConnectRunspacePool"):
                    want, nrep = "Opened", 1
                done = True
            got = sname(o[2])
            if p.kind == "raise" and is_a(prog, p.exc_cls, "InvalidRunspacePoolState") is False and mt in ("InitRunspacePool", "ConnectRunspacePool") and got in (start, "Opened"):
                continue
            chk.need(got == want, "pool-message-table", what, f"the pool state becomes {got}, prescribed is {want}", path=p)
            chk.need(len(msgs) == nrep, "pool-message-table", what + " report", f"{len(msgs)} state reports are sent, prescribed are {nrep}", path=p)
            for m in msgs:
                report(chk, p, m, o[2], what)
        if mt not in ("EncryptedSessionKey",) and paths and not (mt == "PublicKeyRequest" and side == "client" and state != "Opened") \
                and not (side == "client" and mt == "RunspaceAvailability"):
            chk.need(done, "pool-op-reachable", what, "the message is never accepted", path=paths[0])


def closing(chk):
    """A pool with pipelines cannot be closed, in whatever state the pool and the pipelines are; with the last one gone it can."""
    prog = chk.prog
    for side in ("client", "server"):
        for state in POOL_STATES:
            for pstates in [(x,) for x in PIPE_STATES] + [("Completed", "Running"), ("Running", "Stopped"), ("Stopped", "Failed")]:
                def body(w):
                    pool = w.client() if side == "client" else w.server()
                    w.set_state(pool, "Opened")
                    for pid, pstate in zip((PID, PID2), pstates):
                        if side == "client":
                            pipe = w.new("ClientPowerShell", pool, pipeline_id=Const(pid))
                        else:
                            pipe = w.new("ServerPipeline", pool, Const(pid))
                        w.set_state(pipe, pstate, "PSInvocationState")
                    w.generalise(pool, keep=("pipeline_table",))
                    w.set_state(pool, state)
                    w.pool = w.obj = pool
                    w.before = set()
                    return w.call(pool, "close")

                what = f"{side} pool.close in {state} with a pipeline" + {("NotStarted",): ""}.get(pstates, " in " + " and ".join(pstates))

                def go():
                    for p in chk.seen(run_(prog, body, config())):
                        o = outcome(p)
                        chk.need(p.kind == "raise" and is_a(prog, p.exc_cls, "PSRPCoreError") and sname(o[2]) == state and not o[4],
                                 "pool-op-table", what, f"got {describe(o)}; a pool with pipelines cannot be closed", path=p)

                chk.attempt("pool-op-table", what, go)


def others(chk, side, state):
    """Reading data, asking for events and the limits never change the state."""
    prog = chk.prog
    for what, body in {
        "data_to_send": lambda w, pool: w.call(pool, "data_to_send"),
        "next_event": lambda w, pool: w.call(pool, "next_event"),
        "max_runspaces": lambda w, pool: w.get(pool, "max_runspaces"),
        "min_runspaces": lambda w, pool: w.get(pool, "min_runspaces"),
    }.items():
        def b(w):
            pool = w.client() if side == "client" else w.server()
            w.set_state(pool, state)
            w.pool = w.obj = pool
            w.before = set()
            return body(w, pool)

        for p in chk.seen(run_(prog, b, config())):
            o = outcome(p)
            chk.need(sname(o[2]) == state and not o[4], "non-state-ops", f"{side} pool.{what} in {state}",
                     f"got {describe(o)}", path=p)
