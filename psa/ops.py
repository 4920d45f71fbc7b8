"""The public operations of pools and pipelines, each applicable to an abstract pool or pipeline in any state."""
from .drive import *

POOL_STATES = ["BeforeOpen", "Opening", "Opened", "Closed", "Closing", "Broken", "Disconnecting", "Disconnected", "Connecting"]
PIPE_STATES = ["NotStarted", "Running", "Stopping", "Stopped", "Completed", "Failed", "Disconnected"]

A = lambda n, typ=None: Sym("arg", n, typ=typ)


def version_peer(w, pool, version="2.3"):
    """The peer announced this protocol version."""
    v = lambda s: w.new("PSVersion", Const(s))
    pool.attrs["their_capability"] = w.new("SessionCapability", PSVersion=v("2.0"), protocolversion=v(version),
                                           SerializationVersion=v("1.1.0.1"))


class Op:
    def __init__(self, side, target, name, args, setup=None, label=None, kind=None):
        self.side, self.target, self.name, self.args, self.setup = side, target, name, args, setup
        self.label = label or name
        self.kind = kind

    def __repr__(self):
        return f"{self.kind or (self.side + ' ' + self.target)}.{self.label}"

    def build(self, w, pool_state="Opened", pipe_state="Running", general=True):
        """(pool, object the operation is applied to, positional args, keyword args)"""
        pool = w.client() if self.side == "client" else w.server()
        w.set_state(pool, "Opened")
        version_peer(w, pool)
        obj = pool
        if self.target == "pipeline":
            if self.side == "client":
                kind = self.kind or "ClientPowerShell"
                if kind == "ClientPowerShell":
                    obj = w.new(kind, pool, pipeline_id=Const(PID))
                else:
                    obj = w.new(kind, pool, A("name"), pipeline_id=Const(PID))
            else:
                obj = w.new("ServerPipeline", pool, Const(PID))
            w.set_state(obj, "Running", "PSInvocationState")
        if self.setup:
            self.setup(w, pool)
        if general:
            w.generalise(pool, keep=("their_capability",))
        w.set_state(pool, pool_state)
        if self.target == "pipeline":
            w.set_state(obj, pipe_state, "PSInvocationState")
        a = self.args(w) if self.args else []
        kw = {}
        if a and isinstance(a[-1], dict):
            kw = a.pop()
        w.pool, w.obj = pool, obj
        w.before = {id(m.inst) for m in w.queued(pool)}
        w.reset()
        return pool, obj, a, kw

    def apply(self, w, **kw):
        pool, obj, a, k = self.build(w, **kw)
        m = w.it.getattr(obj, self.name, None)
        return w.it.call(m, a, k, None)


def pending_pool_call(w, pool):
    w.receive(pool, "RunspacePoolHostCall", oid=101)


def pending_pipe_call(w, pool):
    w.receive(pool, "PipelineHostCall", pid=PID, oid=101)


def pending(name):
    def s(w, pool):
        w.receive(pool, name, oid=101)
    return s


CI = lambda: Sym("attr", Sym("incoming"), "ci")


def not_void(it, s):
    """The pending calls of the scenarios are ones that expect an answer."""
    if s.op == "eq" and any(isinstance(a, Const) and a.v == -100 for a in s.args):
        return False
    if s.op == "eq0":
        p = lin_parts(s.args[0])
        if p and p[0] == 100:
            return False
    return None


CLIENT_POOL = [
    Op("client", "pool", "open", None),
    Op("client", "pool", "connect", None),
    Op("client", "pool", "get_available_runspaces", None),
    Op("client", "pool", "exchange_key", None),
    Op("client", "pool", "host_response", lambda w: [CI(), A("return_value"), A("error_record")], pending_pool_call),
    Op("client", "pool", "reset_runspace_state", None),
    Op("client", "pool", "set_max_runspaces", lambda w: [A("value", "int")]),
    Op("client", "pool", "set_min_runspaces", lambda w: [A("value", "int")]),
    Op("client", "pool", "begin_close", None),
    Op("client", "pool", "close", None),
    Op("client", "pool", "begin_disconnect", None),
    Op("client", "pool", "disconnect", None),
    Op("client", "pool", "reconnect", None),
]

SERVER_POOL = [
    Op("server", "pool", "connect", None),
    Op("server", "pool", "send_event", lambda w: [A("event_identifier", "int"), A("source_identifier", "str"), A("sender"), A("source_args"),
                                                  A("message_data"), A("time_generated"), A("computer")]),
    Op("server", "pool", "set_broken", lambda w: [A("error")]),
    Op("server", "pool", "host_call", lambda w: [w.enum("HostMethodIdentifier", "ReadLine"), A("parameters")]),
    Op("server", "pool", "host_call", lambda w: [w.enum("HostMethodIdentifier", "WriteLine1"), A("parameters")], label="host_call(void)"),
    Op("server", "pool", "request_key", None),
    Op("server", "pool", "runspace_availability_response", lambda w: [CI(), A("response", "bool")], pending("SetMaxRunspaces")),
    Op("server", "pool", "begin_close", None),
    Op("server", "pool", "close", None),
    Op("server", "pool", "begin_disconnect", None),
    Op("server", "pool", "disconnect", None),
    Op("server", "pool", "reconnect", None),
]

CLIENT_PIPE = [
    Op("client", "pipeline", n, a, s, kind=k)
    for k in ("ClientPowerShell", "ClientGetCommandMetadata")
    for n, a, s in [
        ("start", None, None),
        ("send", lambda w: [A("data")], None),
        ("send_eof", None, None),
        ("host_response", lambda w: [CI(), A("return_value"), A("error_record")], pending_pipe_call),
        ("begin_stop", None, None),
        ("close", None, None),
    ]
]

SERVER_PIPE = [
    Op("server", "pipeline", "start", None),
    Op("server", "pipeline", "complete", None),
    Op("server", "pipeline", "stop", None),
    Op("server", "pipeline", "begin_stop", None),
    Op("server", "pipeline", "close", None),
    Op("server", "pipeline", "host_call", lambda w: [w.enum("HostMethodIdentifier", "ReadLine"), A("parameters")]),
    Op("server", "pipeline", "write_output", lambda w: [A("value")]),
    Op("server", "pipeline", "write_error", lambda w: [A("exception"), A("category_info"), A("target_object"), A("fully_qualified_error_id", "str"),
                                                       A("error_details"), A("invocation_info"), A("pipeline_iteration_info"), A("script_stack_trace", "str")]),
    Op("server", "pipeline", "write_debug", lambda w: [A("message", "str"), A("invocation_info"), A("pipeline_iteration_info")]),
    Op("server", "pipeline", "write_verbose", lambda w: [A("message", "str"), A("invocation_info"), A("pipeline_iteration_info")]),
    Op("server", "pipeline", "write_warning", lambda w: [A("message", "str"), A("invocation_info"), A("pipeline_iteration_info")]),
    Op("server", "pipeline", "write_progress", lambda w: [A("activity", "str"), A("activity_id", "int"), A("status_description", "str"), A("current_operation", "str"),
                                                          A("parent_activity_id", "int"), A("percent_complete", "int"),
                                                          w.enum("ProgressRecordType", "Processing"), A("seconds_remaining", "int")]),
    Op("server", "pipeline", "write_information", lambda w: [A("message_data"), A("source", "str")]),
]


def is_a(prog, exc_cls, name):
    """Whether an exception class of a path is the named class of the package (or a subclass)."""
    c = exc_cls
    if isinstance(c, ClassV):
        return any(getattr(x, "name", None) == name for x in c.mro)
    return getattr(c, "name", None) == name


def outcome(p):
    """What a path did, as observable on the pool: (kind, exception, pool state, pipeline state, messages)"""
    w = p.world
    st = lambda o: o.attrs["state"] if isinstance(o, InstV) else None
    msgs = [m for m in w.queued(w.pool) if id(m.inst) not in w.before]
    return p.kind, p.exc_cls, st(w.pool), st(w.obj) if w.obj is not w.pool else None, msgs


def sname(s):
    return s.name if isinstance(s, EnumV) else show(s) if s is not None else None
