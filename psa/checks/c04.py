"""C04: message numbers, message definitions, event types and dispatch."""
import struct
import uuid

from ..ops import *
from ..wire import *

META = {
    "level": "other",
    "technique": "abstract interpretation of sending and receiving every message type, compared with the documented table",
    "explanation": "The message number enumeration, the message definition and the event registry are read from the abstractly evaluated module "
                   "top levels; for each of the 31 types an instance of its definition is sent through prepare_message/data_to_send by both sides "
                   "(the number in the bytes is compared), a message with that number and another pool and pipeline id is received by both sides "
                   "(event class, ids, content and the accessors of the event are compared, by the message property each of them depends on), "
                   "then the effect on the receiving side the protocol names is compared with a table.",
    "rules": ["numbers", "registry", "sent-number", "event", "content", "event-ids", "accessor", "unknown-number", "not-a-message", "acted-on", "other-side"],
}

# name: (number, message class, event class, receiver, pipeline level)
TABLE = {
    "SessionCapability": (0x00010002, "SessionCapability", "SessionCapabilityEvent", "both", False),
    "InitRunspacePool": (0x00010004, "InitRunspacePool", "InitRunspacePoolEvent", "server", False),
    "PublicKey": (0x00010005, "PublicKey", "PublicKeyEvent", "server", False),
    "EncryptedSessionKey": (0x00010006, "EncryptedSessionKey", "EncryptedSessionKeyEvent", "client", False),
    "PublicKeyRequest": (0x00010007, "PublicKeyRequest", "PublicKeyRequestEvent", "client", False),
    "ConnectRunspacePool": (0x00010008, "ConnectRunspacePool", "ConnectRunspacePoolEvent", "server", False),
    "SetMaxRunspaces": (0x00021002, "SetMaxRunspaces", "SetMaxRunspacesEvent", "server", False),
    "SetMinRunspaces": (0x00021003, "SetMinRunspaces", "SetMinRunspacesEvent", "server", False),
    "RunspaceAvailability": (0x00021004, "RunspaceAvailability", "RunspaceAvailabilityEvent", "client", False),
    "RunspacePoolState": (0x00021005, "RunspacePoolStateMsg", "RunspacePoolStateEvent", "client", False),
    "CreatePipeline": (0x00021006, "CreatePipeline", "CreatePipelineEvent", "server", True),
    "GetAvailableRunspaces": (0x00021007, "GetAvailableRunspaces", "GetAvailableRunspacesEvent", "server", False),
    "UserEvent": (0x00021008, "UserEvent", "UserEventEvent", "client", False),
    "ApplicationPrivateData": (0x00021009, "ApplicationPrivateData", "ApplicationPrivateDataEvent", "client", False),
    "GetCommandMetadata": (0x0002100A, "GetCommandMetadata", "GetCommandMetadataEvent", "server", True),
    "RunspacePoolInitData": (0x0002100B, "RunspacePoolInitData", "RunspacePoolInitDataEvent", "client", False),
    "ResetRunspaceState": (0x0002100C, "ResetRunspaceState", "ResetRunspaceStateEvent", "server", False),
    "RunspacePoolHostCall": (0x00021100, "RunspacePoolHostCall", "RunspacePoolHostCallEvent", "client", False),
    "RunspacePoolHostResponse": (0x00021101, "RunspacePoolHostResponse", "RunspacePoolHostResponseEvent", "server", False),
    "PipelineInput": (0x00041002, None, "PipelineInputEvent", "server", True),
    "EndOfPipelineInput": (0x00041003, "EndOfPipelineInput", "EndOfPipelineInputEvent", "server", True),
    "PipelineOutput": (0x00041004, None, "PipelineOutputEvent", "client", True),
    "ErrorRecord": (0x00041005, "ErrorRecordMsg", "ErrorRecordEvent", "client", True),
    "PipelineState": (0x00041006, "PipelineState", "PipelineStateEvent", "client", True),
    "DebugRecord": (0x00041007, "DebugRecordMsg", "DebugRecordEvent", "client", True),
    "VerboseRecord": (0x00041008, "VerboseRecordMsg", "VerboseRecordEvent", "client", True),
    "WarningRecord": (0x00041009, "WarningRecordMsg", "WarningRecordEvent", "client", True),
    "ProgressRecord": (0x00041010, "ProgressRecordMsg", "ProgressRecordEvent", "client", True),
    "InformationRecord": (0x00041011, "InformationRecordMsg", "InformationRecordEvent", "client", True),
    "PipelineHostCall": (0x00041100, "PipelineHostCall", "PipelineHostCallEvent", "client", True),
    "PipelineHostResponse": (0x00041101, "PipelineHostResponse", "PipelineHostResponseEvent", "server", True),
}

# public accessors of the events: the properties of the message each of them depends on ("" is the message itself)
ACCESS = {
    "ApplicationPrivateDataEvent": {"data": {"ApplicationPrivateData"}},
    "ConnectRunspacePoolEvent": {"max_runspaces": {"MaxRunspaces"}, "min_runspaces": {"MinRunspaces"}},
    "EncryptedSessionKeyEvent": {"key": {"EncryptedSessionKey"}},
    "GetAvailableRunspacesEvent": {"ci": {"ci"}},
    "InitRunspacePoolEvent": {"max_runspaces": {"MaxRunspaces"}, "min_runspaces": {"MinRunspaces"}, "ps_thread_options": {"PSThreadOptions"},
                              "apartment_state": {"ApartmentState"}, "application_arguments": {"ApplicationArguments"}},
    "PipelineHostCallEvent": {"ci": {"ci"}, "method_identifier": {"mi"}},
    "PipelineHostResponseEvent": {"ci": {"ci"}, "method_identifier": {"mi"}},
    "RunspacePoolHostCallEvent": {"ci": {"ci"}, "method_identifier": {"mi"}},
    "RunspacePoolHostResponseEvent": {"ci": {"ci"}, "method_identifier": {"mi"}},
    "PipelineInputEvent": {"data": {""}},
    "PipelineOutputEvent": {"data": {""}},
    "PipelineStateEvent": {"reason": {"ExceptionAsErrorRecord"}, "state": {"PipelineState"}},
    "PublicKeyEvent": {"key": {"PublicKey"}},
    "ResetRunspaceStateEvent": {"ci": {"ci"}},
    "RunspaceAvailabilityEvent": {"ci": {"ci"}, "success": {"SetMinMaxRunspacesResponse"}, "count": {"SetMinMaxRunspacesResponse"}},
    "RunspacePoolInitDataEvent": {"min_runspaces": {"MinRunspaces"}, "max_runspaces": {"MaxRunspaces"}},
    "RunspacePoolStateEvent": {"reason": {"ExceptionAsErrorRecord"}, "state": {"RunspaceState"}},
    "SessionCapabilityEvent": {"ps_version": {"PSVersion"}, "protocol_version": {"protocolversion"}, "serialization_version": {"SerializationVersion"}},
    "SetMaxRunspacesEvent": {"ci": {"ci"}, "count": {"MaxRunspaces"}},
    "SetMinRunspacesEvent": {"ci": {"ci"}, "count": {"MinRunspaces"}},
    "DebugRecordEvent": {"record": {""}},
    "VerboseRecordEvent": {"record": {""}},
    "WarningRecordEvent": {"record": {""}},
    "ErrorRecordEvent": {"record": {""}},
}
RECORDS = {  # records rebuilt from the message: property of the record -> property of the message
    "ProgressRecordEvent": {"record": {"Activity": "Activity", "ActivityId": "ActivityId", "CurrentOperation": "CurrentOperation",
                            "ParentActivityId": "ParentActivityId", "PercentComplete": "PercentComplete", "RecordType": "Type",
                            "SecondsRemaining": "SecondsRemaining", "StatusDescription": "StatusDescription"}},
    "UserEventEvent": {"event": {n: "PSEventArgs." + n for n in ("EventIdentifier", "SourceIdentifier", "TimeGenerated", "Sender", "SourceArgs",
                                                                 "MessageData", "ComputerName", "RunspaceId")}},
}
PIPES = lambda it, f, args, kw, node: Sym("call", ExtV("command of"), *[a for a in args if isinstance(a, Sym)])
META_HOOKS = {"PowerShell.FromPSObjectForRemoting": PIPES, "GetMetadata.FromPSObjectForRemoting": PIPES}
RPID2 = uuid.UUID("99999999-8888-7777-6666-555555555555")


def attrs_of(t, base, out=None):
    """Names of the properties of `base` a value depends on ('' for base itself)."""
    out = set() if out is None else out
    if isinstance(t, Sym):
        if key(t) == key(base):
            out.add("")
            return out
        if t.op == "attr" and key(t.args[0]) == key(base):
            out.add(t.args[1] if isinstance(t.args[1], str) else show(t.args[1]))
            return out
        if t.op == "item" and key(t.args[0]) == key(base) and isinstance(t.args[1], Const):
            out.add(t.args[1].v)
            return out
        for a in t.args:
            if isinstance(a, V):
                attrs_of(a, base, out)
    elif isinstance(t, (TupleV, ListV)):
        for a in t.items:
            attrs_of(a, base, out)
    elif isinstance(t, EnumV):
        attrs_of(t.value, base, out)
    return out


def numbers(chk):
    it = chk.prog.init_interp
    members = chk.prog.cls("PSRPMessageType").enum_members
    for n, (num, *_r) in TABLE.items():
        if not chk.need(n in members, "numbers", n, "the message type is gone"):
            continue
        v = it.prim(members[n].value)
        if not isinstance(v, Const):
            raise Unsupported("number of " + n)
        chk.need(v.v == num, "numbers", n, f"the number is {v.v:#x}, MS-PSRP says {num:#x}")
    for n, m in members.items():
        v = it.prim(m.value)
        if isinstance(v, Const) and m.name == n:
            chk.need(n in TABLE, "numbers", n, f"message type {n} = {v.v} is not in MS-PSRP")


def registry(chk):
    for n, (num, cls, ev, rc, lvl) in TABLE.items():
        if cls is None:
            continue

        def go(n=n, cls=cls):
            def body(w):
                return w.it.call(w.it.getattr(w.cls("PSRPMessageType"), "get_message_id", None), [w.cls(cls)], {}, None)
            for p in chk.seen(run(chk.prog, body, config())):
                if p.kind == "raise":
                    chk.bad("registry", cls, f"get_message_id raises {p.exc_name()}", path=p)
                elif not isinstance(p.value, EnumV):
                    raise Unsupported(show(p.value))
                else:
                    chk.need(p.value.name == n, "registry", cls, f"is registered as {p.value.name}", path=p)
        chk.attempt("registry", cls, go)


def number_cells(data, at):
    cs = cells(data)[at:at + 4]
    if len(cs) != 4 or any(c[0] != "c" for c in cs):
        raise Unsupported("message number bytes " + show_cells(cs))
    return struct.unpack("<I", bytes(c[1] for c in cs))[0]


def property_names(w, cls):
    """Names of the properties a message definition declares"""
    meta = w.it.getattr(w.cls(cls), "PSObject", None)
    out = []
    for g in ("extended_properties", "adapted_properties"):
        l = w.it.prim(w.it.getattr(meta, g, None))
        for q in getattr(l, "items", None) or []:
            n = w.it.prim(w.get(q, "name"))
            if isinstance(n, Const):
                out.append(n.v)
    return out


def instance(w, cls):
    names = property_names(w, cls)
    if not names:
        try:
            return w.it.call(w.cls(cls), [], {}, None)
        except PyRaise:
            return w.it.call(w.cls(cls), [Const("")], {}, None)
    return w.it.call(w.cls(cls), [], {n: A(n) for n in names}, None)


def sending(chk, side):
    for n, (num, cls, ev, rc, lvl) in TABLE.items():
        def go(n=n, num=num, cls=cls, explicit=False):
            def body(w):
                pool = w.client() if side == "client" else w.server()
                if side == "server":
                    w.receive(pool, "SessionCapability")
                w.set_state(pool, "Opened")
                while not w.it.known_truth(w.it.eq(w.call(pool, "data_to_send"), NONE)):
                    pass
                w.reset()
                w.made = False
                obj = instance(w, cls) if cls else w.new("PSString", Const("x"))
                w.made = True
                if cls is None or explicit:
                    w.call(pool, "prepare_message", obj, w.enum("PSRPMessageType", n))
                else:
                    w.call(pool, "prepare_message", obj)
                w.out = w.call(pool, "data_to_send")
                return w.out
            some = False
            for p in chk.seen(run(chk.prog, body, config())):
                what = f"{side} sends {n}" + (" (type given)" if explicit or cls is None else "")
                if not p.world.made:
                    continue
                some = True
                if p.kind == "raise":
                    chk.bad("sent-number", what, f"raises {p.exc_name()}", path=p)
                    continue
                data = p.world.get(p.world.out, "data")
                data = p.interp.prim(data)
                got = number_cells(data, 21 + 4)
                chk.need(got == num, "sent-number", what, f"the message carries the number {got:#x} instead of {num:#x}", path=p)
            if not some:
                raise Unsupported("no instance of the message could be made")
        chk.attempt("sent-number", f"{side} sends {n}", go)
        if cls is not None and n != "EndOfPipelineInput":
            # any object may be sent under an explicitly given type
            def go2(n=n, num=num):
                def body(w):
                    pool = w.client()
                    w.set_state(pool, "Opened")
                    w.call(pool, "prepare_message", w.new("PSString", Const("x")), w.enum("PSRPMessageType", n))
                    w.out = w.call(pool, "data_to_send")
                    return w.out
                for p in chk.seen(run(chk.prog, body, config())):
                    what = f"something sent as {n}"
                    if p.kind == "raise":
                        chk.bad("sent-number", what, f"raises {p.exc_name()}", path=p)
                        continue
                    got = number_cells(p.interp.prim(p.world.get(p.world.out, "data")), 21 + 4)
                    chk.need(got == num, "sent-number", what, f"the message carries the number {got:#x} instead of {num:#x}", path=p)
            if side == "client":
                chk.attempt("sent-number", f"something sent as {n}", go2)

    # no protocol message and no type: refused, nothing queued
    for what, mk in (("a string", lambda w: w.new("PSString", Const("x"))), ("a PSObject", lambda w: w.new("PSObject")),
                     ("a dictionary", lambda w: DictV()), ("a record", lambda w: w.new("WarningRecord", Message=Const("a")))):
        def go3(what=what, mk=mk):
            def body(w):
                pool = w.client() if side == "client" else w.server()
                w.set_state(pool, "Opened")
                o = mk(w)
                w.pool = pool
                w.before = len(w.queued(pool))
                w.call(pool, "prepare_message", o)
                return NONE
            for p in chk.seen(run(chk.prog, body, config())):
                chk.need(p.kind == "raise", "not-a-message", f"{side}: {what} without a type", "is accepted", path=p)
                chk.need(len(p.world.queued(p.world.pool)) == p.world.before, "not-a-message", f"{side}: {what} without a type (queue)",
                         "leaves a message in the queue", path=p)
        chk.attempt("not-a-message", f"{side}: {what} without a type", go3)


def prepare_receiver(w, side, n, lvl):
    pool = w.client() if side == "client" else w.server()
    w.set_state(pool, "Opened")
    pipe = None
    if lvl:
        if side == "client":
            pipe = w.new("ClientPowerShell", pool, pipeline_id=Const(PID))
        else:
            pipe = w.new("ServerPipeline", pool, Const(PID))
        w.set_state(pipe, "Running", "PSInvocationState")
    w.pool, w.pipe = pool, pipe
    return pool


def receiving(chk, side):
    for n, (num, cls, ev, rc, lvl) in TABLE.items():
        def go(n=n, num=num, ev=ev, rc=rc, lvl=lvl):
            def body(w):
                pool = prepare_receiver(w, side, n, lvl)
                w.before = {id(m.inst) for m in w.queued(pool)}
                if n == "ConnectRunspacePool":  # only a client of this very pool may connect
                    pool.attrs["runspace_pool_id"] = Const(RPID2)
                w.attrs0 = snapshot(pool)
                w.pipe0 = snapshot(w.pipe) if w.pipe else None
                return w.receive(pool, n, pid=PID if lvl else None, rpid=RPID2, number=num)

            def assume(it, s):
                return None
            for p in chk.seen(run(chk.prog, body, config(assume=assume, hooks=META_HOOKS, focus={"RunspacePoolState": "Opened", "PSInvocationState": "Stopped"}))):
                what = f"{side} receives {n}"
                if p.kind == "raise":
                    # refusing the content (a response nobody asked for, a key that is no key) is decided elsewhere
                    if n in ("RunspaceAvailability", "EncryptedSessionKey", "PublicKey", "CreatePipeline", "GetCommandMetadata", "PipelineState",
                             "RunspacePoolState", "InitRunspacePool"):
                        continue
                    chk.bad("event", what, f"raises {p.exc_name()}", path=p)
                    continue
                e = p.value
                if not isinstance(e, InstV):
                    chk.need(False, "event", what, f"yields {show(e)}", path=p)
                    continue
                chk.need(any(getattr(c, "name", None) == ev for c in e.cls.mro), "event", what, f"yields a {e.cls.name}", path=p)
                w, it = p.world, p.interp
                r, i = it.prim(w.get(e, "runspace_pool_id")), it.prim(w.get(e, "pipeline_id"))
                chk.need(isinstance(r, Const) and r.v == RPID2, "event-ids", what, f"pool id of the event is {show(r)}", path=p)
                chk.need(isinstance(i, Const) and i.v == (PID if lvl else None), "event-ids", what + " (pipeline)", f"pipeline id of the event is {show(i)}", path=p)
                if n == "EndOfPipelineInput":
                    ok = any(isinstance(v, InstV) and v.cls.name == "EndOfPipelineInput" for v in e.attrs.values())
                else:
                    ok = any(key(v) == key(Sym("incoming")) for v in e.attrs.values() if isinstance(v, Sym))
                chk.need(ok, "event", what + " (content)", "the event does not hold the received message", path=p)
                if rc not in ("both", side):
                    new = [m for m in w.queued(w.pool) if id(m.inst) not in w.before]
                    chk.need(not new, "other-side", what, f"the side that never receives it answers with {new}", path=p)
                    d = differs(w.attrs0, snapshot(w.pool)) + (differs(w.pipe0, snapshot(w.pipe)) if w.pipe else [])
                    chk.need(not d, "other-side", what + " (state)", f"the side that never receives it changes {d}", path=p)
        chk.attempt("event", f"{side} receives {n}", go)

        # a message of no bytes: only the output of a pipeline can be nothing at all
        def go1(n=n, num=num, lvl=lvl):
            def body(w):
                pool = prepare_receiver(w, side, n, lvl)
                if n == "ConnectRunspacePool":
                    pool.attrs["runspace_pool_id"] = Const(RPID2)
                return w.receive(pool, n, pid=PID if lvl else None, rpid=RPID2, number=num, data=b"")
            for p in chk.seen(run(chk.prog, body, config(hooks=META_HOOKS, focus={"RunspacePoolState": "Opened", "PSInvocationState": "Stopped"}))):
                e = p.value
                if p.kind == "raise" or not isinstance(e, InstV):
                    continue
                held = [v for v in e.attrs.values() if isinstance(v, Sym) and key(v) == key(Sym("incoming"))]
                chk.need(bool(held), "content", f"{side} receives {n} of no bytes", "yields an event without the message it is about", path=p)
        if n not in ("EndOfPipelineInput", "PipelineOutput"):
            chk.attempt("content", f"{side} receives {n} of no bytes", go1)

    # numbers that are no message type
    for num in (0, 1, 0x00010000, 0x00010001, 0x00010003, 0x00010009, 0x00021001, 0x0002100D, 0x00041001, 0x00041012, 0x00041102, 0x7FFFFFFF):
        def go2(num=num):
            def body(w):
                pool = prepare_receiver(w, side, None, False)
                return w.receive(pool, None, number=num)
            for p in chk.seen(run(chk.prog, body, config())):
                chk.need(p.kind == "raise", "unknown-number", f"{side} receives number {num:#x}", f"yields {show(p.value)}", path=p)
        chk.attempt("unknown-number", f"{side} receives number {num:#x}", go2)


def snapshot(o):
    out = {}
    for n, v in o.attrs.items():
        if n.startswith("$") or n in ("PSObject",) or isinstance(v, BufV) or n == "_receive_buffer":
            continue
        if isinstance(v, (ListV, DictV, SetV)):
            its = v.items if isinstance(v, ListV) else list(v.entries.values())
            out[n] = len(its)
            continue
        try:
            out[n] = key(v)
        except Exception:
            pass
    return out


def differs(a, b):
    return [n for n in b if n in a and a[n] != b[n]]


def accessors(chk):
    for n, (num, cls, ev, rc, lvl) in TABLE.items():
        for acc, want in list(ACCESS.get(ev, {}).items()) + [(r, None) for r in RECORDS.get(ev, {})]:
            def go(n=n, ev=ev, acc=acc, want=want):
                def body(w):
                    ec = w.cls("PSRPEvent")
                    w.e = w.it.call(w.it.getattr(ec, "create", None), [w.enum("PSRPMessageType", n), Sym("incoming"), Const(RPID), Const(PID)], {}, None)
                    w.v = w.get(w.e, acc)
                    return w.v
                some = False
                ps = chk.seen(run(chk.prog, body, config()))
                for p in ps:
                    what = f"{ev}.{acc}"
                    if p.kind == "raise":
                        if ev == "RunspaceAvailabilityEvent" and p.exc_name() == "AttributeError" or acc == "state" and p.exc_name() == "ValueError":
                            continue  # the accessor of the other kind of answer; a state that is none
                        raise Unsupported(f"{what} raises {p.exc_name()}")
                    w, it = p.world, p.interp
                    inc = Sym("incoming")
                    if want is None:
                        for a, b in RECORDS[ev][acc].items():
                            v = field(it, p.value, a)
                            if v is None:
                                raise Unsupported("record property " + a)
                            got = attrs_of(it.prim(v), inc)
                            some = some or bool(got)
                            chk.need(got <= {b} and (got or isinstance(it.prim(v), Const)), "accessor", f"{what}.{a}",
                                     f"depends on {sorted(got)} of the message, not on {b}", path=p)
                        continue
                    v = it.prim(p.value)
                    got = attrs_of(v, inc)
                    if isinstance(p.value, EnumV) and not got:
                        (name,) = want
                        chk.need(it.known_truth(it.eq(INC(name), p.value.value)) is True, "accessor", f"{what} {p.value.name}",
                                 f"is {p.value.name}, which is not what {name} says", path=p)
                        some = True
                        continue
                    if not got and isinstance(v, Const) and v.v is None:
                        continue  # the optional property is missing on this path
                    if not got:
                        raise Unsupported(f"{what} is {show(v)}")
                    some = True
                    chk.need(got == want, "accessor", what, f"depends on {sorted(got)} of the message, not on {sorted(want)}", path=p)
                if not some and not ps.incomplete:
                    chk.bad("accessor", f"{ev}.{acc}", f"never depends on {want} of the message")
            chk.attempt("accessor", f"{ev}.{acc}", go)


INC = lambda n: Sym("attr", Sym("incoming"), n)


def acted(chk):
    """What the receiving side does with a message, observed on public attributes (besides what C05-C09 decide)."""
    def one(side, n, observe, rule="acted-on", prep=None, lvl=False, setup=None):
        def go():
            def body(w):
                pool = prepare_receiver(w, side, n, lvl)
                if setup:
                    setup(w, pool)
                w.before = {id(m.inst) for m in w.queued(pool)}
                w.e = w.receive(pool, n, pid=PID if lvl else None)
                return w.e
            for p in chk.seen(run(chk.prog, body, config(hooks=META_HOOKS))):
                if p.kind == "raise":
                    if p.exc_cls is not None and is_a(chk.prog, p.exc_cls, "PSRPCoreError"):
                        chk.bad(rule, f"{side}: {n}", f"is refused with {p.exc_name()}", path=p)
                    continue
                w, it = p.world, p.interp
                new = [m for m in w.queued(w.pool) if id(m.inst) not in w.before]
                for what, ok, detail in observe(w, it, new):
                    chk.need(ok, rule, f"{side}: {n}: {what}", detail, path=p)
        chk.attempt(rule, f"{side}: {n}", go)

    def attr_is(w, it, obj, name, prop):
        v = it.prim(w.get(obj, name))
        got = attrs_of(v, Sym("incoming")) if isinstance(v, V) else set()
        return (f"{name} is taken from {prop}", got == {prop}, f"{name} is {show(v)}")

    one("client", "ApplicationPrivateData", lambda w, it, new: [attr_is(w, it, w.pool, "application_private_data", "ApplicationPrivateData")])
    one("client", "RunspacePoolInitData", lambda w, it, new: [attr_is(w, it, w.pool, "max_runspaces", "MaxRunspaces"),
                                                             attr_is(w, it, w.pool, "min_runspaces", "MinRunspaces")])
    one("server", "InitRunspacePool", lambda w, it, new: [
        attr_is(w, it, w.pool, "max_runspaces", "MaxRunspaces"), attr_is(w, it, w.pool, "min_runspaces", "MinRunspaces"),
        attr_is(w, it, w.pool, "apartment_state", "ApartmentState"), attr_is(w, it, w.pool, "thread_options", "PSThreadOptions"),
        attr_is(w, it, w.pool, "application_arguments", "ApplicationArguments")],
        setup=lambda w, pool: w.set_state(pool, "Opening"))
    one("server", "SessionCapability", lambda w, it, new: [
        ("answers with its own capability", [m.name for m in new] == ["SessionCapability"], f"queued {new}"),
        ("takes over the pool id", isinstance(it.prim(w.get(w.pool, "runspace_pool_id")), Const) and it.prim(w.get(w.pool, "runspace_pool_id")).v == RPID,
         f"pool id {show(w.get(w.pool, 'runspace_pool_id'))}")],
        setup=lambda w, pool: w.set_state(pool, "BeforeOpen"))

    def caps(w, it, new):
        c = it.prim(w.get(w.pool, "their_capability"))
        out = [("their_capability is set", isinstance(c, InstV), show(c))]
        if isinstance(c, InstV):
            for n in ("PSVersion", "protocolversion", "SerializationVersion"):
                v = field(it, c, n)
                got = attrs_of(it.prim(v), Sym("incoming")) if v is not None else set()
                out.append((f"their_capability.{n}", got == {n}, f"is {show(v)}"))
        return out
    for side in ("client", "server"):
        one(side, "SessionCapability", caps, setup=lambda w, pool: w.set_state(pool, "Opening"))

    def answerable(field_name):
        def f(w, it, new):
            return [("sends nothing by itself", not new, f"queued {new}")]
        return f
    for n in ("GetAvailableRunspaces", "ResetRunspaceState", "SetMaxRunspaces", "SetMinRunspaces"):
        one("server", n, answerable(n))

    def can_answer(n, side, pipe):
        def go():
            def body(w):
                pool = prepare_receiver(w, side, n, pipe)
                version_peer(w, pool)
                w.e = w.receive(pool, n, pid=PID if pipe else None)
                w.before = {id(m.inst) for m in w.queued(pool)}
                if side == "server":
                    w.call(pool, "runspace_availability_response", CI(), A("response", "int" if n == "GetAvailableRunspaces" else "bool"))
                else:
                    w.call(w.pipe if pipe else pool, "host_response", CI(), A("value"))
                return NONE
            for p in chk.seen(run(chk.prog, body, config(assume=not_void))):
                chk.need(p.kind == "return", "acted-on", f"{side}: {n} can be answered", f"raises {p.exc_name() if p.kind == 'raise' else ''}", path=p)
        chk.attempt("acted-on", f"{side}: {n} can be answered", go)
    for n in ("GetAvailableRunspaces", "ResetRunspaceState", "SetMaxRunspaces", "SetMinRunspaces"):
        can_answer(n, "server", False)
    can_answer("RunspacePoolHostCall", "client", False)
    can_answer("PipelineHostCall", "client", True)

    def meta(w, it, new):
        m = it.prim(w.get(w.pipe, "metadata"))
        return [("the pipeline gets its command", "" in attrs_of(m, Sym("incoming")), show(m))]
    for n in ("CreatePipeline", "GetCommandMetadata"):
        one("server", n, meta, lvl=True)


def check(chk):
    chk.attempt("numbers", "message numbers", lambda: numbers(chk))
    registry(chk)
    for side in ("client", "server"):
        sending(chk, side)
        receiving(chk, side)
    accessors(chk)
    acted(chk)
