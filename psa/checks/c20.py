"""C20: features of newer protocol versions."""
from ..link import *
from ..ops import *
from ..vals import *

META = {
    "level": "other",
    "technique": "abstract interpretation of every operation under every announced protocol version, the documents written compared with the version table",
    "explanation": "Every public operation is interpreted with a peer of every protocol version (none announced, 2.0, 2.1, 2.2, 2.3, newer, with build numbers) and every own "
                   "version; the versioned operations must be refused with the protocol version error and queue nothing below their version, and must send their message from it on. "
                   "The documents that pipelines with redirected commands write (conversion and serializer interpreted as they are) are searched for the versioned fields, wherever "
                   "a command is nested in what is sent. The announced version reaches the decision through the received capability message.",
    "rules": ["operation-refused", "operation-allowed", "message", "field", "field-value", "peer-version"],
}

VERSIONS = [None, "2.0", "2.1", "2.2", "2.3", "2.4", "3.0", "2.10", "2.2.9", "2.3.0", "1.9", "10.0", "2.1.3.4"]
OWN = ["2.0", "2.1", "2.2", "2.3", "2.9"]
NEW_MESSAGES = {"ResetRunspaceState": (2, 3), "InformationRecord": (2, 3)}
FIELDS = {"MergeError": (2, 2), "MergeWarning": (2, 2), "MergeVerbose": (2, 2), "MergeDebug": (2, 2), "MergeInformation": (2, 3)}


def ver(s):
    return (2, 0) if s is None else tuple(int(x) for x in s.split("."))


def at_least(s, v):
    return ver(s)[:2] >= v


def check(chk):
    prog = chk.prog

    def cap(w, v):
        p = lambda s: w.new("PSVersion", Const(s))
        return NONE if v is None else w.new("SessionCapability", PSVersion=p("2.0"), protocolversion=p(v), SerializationVersion=p("1.1.0.1"))

    # ------------------------------------------------------------------ operations
    def operation(op, versions, own=None):
        for v in versions:
            name = f"{op} with a peer of version {v or 'unknown'}" + (f", own version {own}" if own else "")

            def decide(v=v, name=name):
                def body(w):
                    pool, obj, a, kw = op.build(w, general=False)
                    pool.attrs["their_capability"] = cap(w, v)
                    if own:
                        pool.attrs["our_capability"] = cap(w, own)
                    w.prepared = True
                    return w.it.call(w.it.getattr(obj, op.name, None), a, kw, None)

                gated = {"reset_runspace_state": "ResetRunspaceState", "write_information": "InformationRecord"}.get(op.name)
                ps = chk.seen(run(prog, body, config(assume=not_void)))
                for p in ps:
                    w = p.world
                    if not getattr(w, "prepared", False):
                        raise Unsupported("preparing the operation raises " + str(p.exc_name()))
                    kind, exc, _, _, msgs = outcome(p)
                    names = [m.name for m in msgs]
                    for m in names:
                        need = NEW_MESSAGES.get(m)
                        chk.need(need is None or at_least(v, need), "message", f"{m} by {name}", "sends the message to a peer that does not know it", path=p)
                    if gated and not at_least(v, NEW_MESSAGES[gated]):
                        chk.need(kind == "raise" and is_a(prog, exc, "InvalidProtocolVersion"), "operation-refused", name,
                                 "is not refused with the protocol version error but " + (f"raises {p.exc_name()}" if kind == "raise" else "goes through"), path=p)
                        chk.need(not names, "operation-refused", name + " sends nothing", f"queues {names}", path=p)
                    elif gated:
                        chk.need(not (kind == "raise" and is_a(prog, exc, "InvalidProtocolVersion")), "operation-allowed", name, "is refused although the peer's version is new enough", path=p)
                        if kind == "return":
                            chk.need(names == [gated], "operation-allowed", name + " sends", f"queues {names}", path=p)

            chk.attempt("message", name, decide)

    for op in CLIENT_POOL + SERVER_POOL + CLIENT_PIPE + SERVER_PIPE:
        if op.name in ("reset_runspace_state", "write_information"):
            operation(op, VERSIONS)
            for o in OWN:
                operation(op, ["2.0", "2.2", "2.3", None], own=o)
        elif op.name not in ("open", "connect"):
            operation(op, [None, "2.2"] if chk.tier == "quick" else VERSIONS)

    # ------------------------------------------------------------------ the version is the one the peer announced
    def announced(side, v, own, first=None):
        name = f"{side} told version {v}, own version {own}" + (f", before that {first}" if first else "")

        def body(w):
            start(w)
            c, s = w.client(), w.server(known=False)
            me, peer = (c, s) if side == "client" else (s, c)
            me.attrs["our_capability"] = cap(w, own)
            peer.attrs["our_capability"] = cap(w, first or v)
            w.call(c, "open")
            pump(w, c, s)
            pump(w, s, c)
            if first:
                # announced again, as by a client that reconnects
                w.call(peer, "prepare_message", cap(w, v))
                pump(w, peer, me)
            if side == "server":
                pipe = w.new("ServerPipeline", s, Const(PID))
                w.call(pipe, "start")
                drain(w, s)
            w.prepared = True
            try:
                if side == "client":
                    w.call(c, "reset_runspace_state")
                else:
                    w.call(pipe, "write_information", Const("text"), Const("source"), user=Const("u"), computer=Const("c"), process_id=Const(1), native_thread_id=Const(2),
                           time_generated=w.new("PSDateTime", Const(2020), Const(1), Const(2)))
                r = "done"
            except PyRaise as e:
                r = e.cls
            return r, [m.name for m in drain(w, me)[1]]

        def decide():
            ps = chk.seen(run(prog, body, link_config()))
            for p in ps:
                if p.kind != "return":
                    raise Unsupported(f"the handshake raises {p.exc_name()}")
                r, ms = p.value
                ok = at_least(v, (2, 3))
                if ok:
                    chk.need(r == "done" and len(ms) == 1, "peer-version", name, f"is {r if r == 'done' else 'refused with ' + str(getattr(r, 'name', r))} and sends {ms}", path=p)
                else:
                    chk.need(r != "done" and is_a(prog, r, "InvalidProtocolVersion") and not ms, "peer-version", name, f"is not refused, sends {ms}", path=p)

        chk.attempt("peer-version", name, decide)

    for side in ("client", "server"):
        for v in ("2.0", "2.1", "2.2", "2.3", "2.4"):
            for own in ("2.1", "2.3"):
                announced(side, v, own)
        for first, v in (("2.3", "2.2"), ("2.2", "2.3"), ("2.3", "2.1"), ("2.1", "2.3")):
            announced(side, v, "2.3", first)

    # ------------------------------------------------------------------ fields of commands
    kinds = ("error", "warning", "verbose", "debug", "information")

    def command(w, how):
        c = w.new("Command", Const("Get-Item"))
        if how == "all":
            w.call(c, "redirect_all")
        elif how == "null":
            for k in kinds:
                w.call(c, "redirect_" + k, w.enum("PipelineResultTypes", "Null"))
        elif how != "none":
            w.call(c, "redirect_" + how)
        return c

    def objects(x, prop):
        """Every object of the document that has this property."""
        return [k for k in x.walk() if k.tag in ("MS", "Props") and any(attr_text(q) == prop for q in k.kids)]

    def judge(name, v, x, n, it, p, how):
        cmds = objects(x, "Cmd")
        chk.need(len(cmds) == n, "field", f"commands of {name}", f"{len(cmds)} commands are written, not {n}", path=p)
        for c in cmds:
            have = {attr_text(q): q for q in c.kids}
            for f, since in FIELDS.items():
                chk.need((f in have) == at_least(v, since), "field", f"{f} of {name}", "is sent to a peer that does not know it" if f in have else "is left out although the peer knows it", path=p)
                if f in have and how is not None:
                    o = have[f]
                    if o.tag == "Ref":
                        o = next((k for k in x.walk() if k.tag == "Obj" and key(k.attrib.get("RefId", NONE)) == key(o.attrib.get("RefId", NONE))), o)
                    i = o.find("I32", "U32", "By")
                    got = it.prim(i[0].text) if i and i[0].text is not None else None
                    want = how if not isinstance(how, str) else {"none": 0, "all": 1, "null": 8}.get(how, 1 if f == "Merge" + how.capitalize() else 0)
                    chk.need(isinstance(got, Const) and got.v == str(want), "field-value", f"{f} of {name}", f"is {show(got) if got is not None else None}, configured is {want}", path=p)
            for f in ("Args", "IsScript", "UseLocalScope", "MergeMyResult", "MergeToResult", "MergePreviousResults"):
                chk.need(f in have, "field", f"{f} of {name}", "is left out", path=p)
            extra = set(have) - set(FIELDS) - {"Cmd", "Args", "IsScript", "UseLocalScope", "MergeMyResult", "MergeToResult", "MergePreviousResults"}
            chk.need(not extra, "field", f"fields of {name}", f"unknown fields {sorted(extra)}", path=p)

    def attr_text(q):
        a = q.attrib.get("N")
        return a.v if isinstance(a, Const) else None

    def pipeline(v, how, where):
        name = f"{where} ({how} redirected) to a peer of version {v or 'unknown'}"

        def decide():
            def body(w):
                start(w)
                c, s = pair(w)
                c.attrs["their_capability"] = s.attrs["their_capability"] = cap(w, v)
                w.prepared = True
                if where == "pipeline":
                    p = w.new("ClientPowerShell", c, pipeline_id=Const(PID))
                    w.call(p, "add_command", command(w, how))
                    w.call(p, "add_command", command(w, how))
                    w.call(p, "add_statement")
                    w.call(p, "add_command", command(w, how))
                    w.call(p, "start")
                    n, src = 5, c  # the first statement is written twice
                else:
                    n, src = 2, c
                    cmds = [command(w, how), command(w, how)]
                    obj = {"nested list": lambda: ListV([ListV([cmds[0]]), mkdict((Const("k"), cmds[1]))]),
                           "property": lambda: w.new("PSCustomObject", a=cmds[0], b=w.new("PSCustomObject", c=cmds[1])),
                           "typed list": lambda: w.new("PSList", ListV(cmds)), "host call": lambda: ListV(cmds), "host response": lambda: ListV(cmds), "event": lambda: ListV(cmds),
                           "output": lambda: ListV(cmds)}[where]()
                    if where in ("event", "host call", "output"):
                        src = s
                        if where == "event":
                            w.call(s, "send_event", Const(1), Const("src"), message_data=obj, computer=Const("c"), time_generated=w.new("PSDateTime", Const(2020), Const(1), Const(2)))
                        elif where == "host call":
                            w.call(s, "host_call", w.enum("HostMethodIdentifier", "Prompt"), obj)
                        else:
                            p = w.new("ServerPipeline", s, Const(PID))
                            w.set_state(p, "Running", "PSInvocationState")
                            w.call(p, "write_output", obj)
                    elif where == "host response":
                        w.call(s, "host_call", w.enum("HostMethodIdentifier", "Prompt"), ListV([]))
                        pump(w, s, c)
                        w.call(c, "host_response", Const(1), return_value=obj)
                    else:
                        p = w.new("ClientPowerShell", c, pipeline_id=Const(PID))
                        w.set_state(p, "Running", "PSInvocationState")
                        w.call(p, "send", obj)
                ms = drain(w, src)[1]
                ms = [m for m in ms if m.doc is not None]
                return snap(w.it, ms[-1].doc), n

            ps = chk.seen(run(prog, body, link_config()))
            for p in ps:
                if p.kind != "return":
                    if getattr(p.world, "prepared", False):
                        chk.bad("field", name, f"raises {p.exc_name()}", path=p)
                    continue
                x, n = p.value
                judge(name, v, x, n, p.interp, p, how if where == "pipeline" or how else None)

        chk.attempt("field", name, decide)

    for v in VERSIONS:
        for how in ("none", "all", "null"):
            pipeline(v, how, "pipeline")
    for v in (None, "2.1", "2.2", "2.3"):
        for how in kinds:
            pipeline(v, how, "pipeline")
        for where in ("nested list", "property", "typed list", "host call", "host response", "event", "output"):
            pipeline(v, "all", where)

    # without any capability at all (a document written outside of a pool)
    def alone():
        for label, kw in (("no capability given", lambda w: {}), ("an unknown capability", lambda w: {"their_capability": NONE}),
                          ("only the own capability", lambda w: {"our_capability": cap(w, "2.3")})):
            def body(w, kw=kw):
                return snap(w.it, serialize(w, ListV([command(w, "all")]), **kw(w)))

            for p in chk.seen(run(prog, body, link_config())):
                if p.kind != "return":
                    chk.bad("field", label, f"raises {p.exc_name()}", path=p)
                else:
                    judge("a command with " + label, None, p.value, 1, p.interp, p, "all")

    chk.attempt("field", "no pool", alone)
