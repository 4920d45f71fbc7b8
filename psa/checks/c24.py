"""C24: the opening and connecting handshakes."""
from ..link import *
from ..vals import *

META = {
    "level": "other",
    "technique": "abstract interpretation of both sides of the handshakes joined by their public data methods, over symbolic limits and values",
    "explanation": "A client and a server pool are interpreted together (open, connect, connect with another id, connect after a disconnect): everything one sends is "
                   "fragmented, packed, unpacked, deserialized and handled by the interpreted code of the other. Which messages are queued after which received message, their "
                   "fields, and the attributes both pools end up with are compared with the MS-PSRP handshake; limits are symbolic integers, every thread option and "
                   "apartment state, hosts and nested application data are tried.",
    "rules": ["open-sends", "init-fields", "server-answers", "server-adopts", "client-adopts", "capability", "connect-sends", "connect-refused", "connect-answers", "connect-adopts", "numbering"],
}

OTHER = uuid.UUID("99999999-2222-3333-4444-555555555555")


def plain(s):
    """A primitive dictionary is a dictionary."""
    if isinstance(s, tuple):
        if s[:1] == ("PSPrimitiveDictionary",) and len(s) == 4:
            return ("PSDict", plain(s[1]), s[2], s[3])
        return tuple(plain(x) for x in s)
    return s


def contains(it, a, b):
    """Every entry of the given dictionary is in the received one."""
    if a[:1] != ("PSDict",) or b[:1] != ("PSDict",):
        return False
    return all(any(same(it, k, k2) and same(it, v, v2) for k2, v2 in b[1][1:]) for k, v in a[1][1:])


def check(chk):
    prog = chk.prog

    def assume(it, s):
        if s.op == "resub":
            return True
        if s.op == "arg" and s.args[0] in ("min", "max"):
            return True  # a limit of 0 is not a limit
        return None

    cfg = lambda **kw: link_config(assume=assume, **kw)

    def eqv(it, a, b):
        try:
            return same(it, plain(shape(it, b)), plain(shape(it, a)))
        except RecursionError:
            raise Unsupported("recursive value")

    def caps(w, *vs):
        v = lambda s: w.new("PSVersion", Const(s))
        return w.new("SessionCapability", PSVersion=v(vs[0]), protocolversion=v(vs[1]), SerializationVersion=v(vs[2]))

    def evname(ev):
        return ev.cls.name if isinstance(ev, InstV) else None

    def value(w, o, n):
        return w.it.prim(w.get(o, n))

    def cap_ok(w, got, sent):
        if not isinstance(got, InstV):
            return "it is " + show(got)
        for n in ("PSVersion", "protocolversion", "SerializationVersion"):
            a, b = field(w.it, got, n), field(w.it, sent, n)
            if a is None or not eqv(w.it, a, b):
                return f"{n} is {show(a) if a is not None else None}, announced was {show(b)}"
        return None

    # ------------------------------------------------------------------ open
    def open_with(name, ckw=None, skw=None, prepare=None):
        def body(w):
            start(w)
            it = w.it
            c = w.client(**(ckw(w) if ckw else {}))
            kw = skw(w) if skw else {}
            given = plain(shape(it, kw["application_private_data"]))[1][1:] if kw else ()
            s = w.server(known=False, **kw)
            if prepare:
                prepare(w, c, s)
            w.built = True
            r = w.r = {"bad": [], "n": 0}

            def need(cond, rule, what, detail=""):
                r["n"] += 1
                if not cond:
                    r["bad"].append((rule, what, detail))

            want = {n: w.get(c, n) for n in ("apartment_state", "thread_options", "application_arguments", "min_runspaces", "max_runspaces")}
            host = w.get(c, "host")
            w.call(c, "open")
            pls, ms = drain(w, c)
            w.sent = True
            need([m.name for m in ms] == ["SessionCapability", "InitRunspacePool"], "open-sends", "open", "sends " + str([m.name for m in ms]))
            oc, osv = w.get(c, "our_capability"), w.get(s, "our_capability")
            # the server, one message at a time
            got = []
            back = []
            deliver(w, pls, s)
            for _ in range(4):
                k, ev = step(w, s)
                if k == "event" and ev is None:
                    break
                pls, ans = drain(w, s)
                back += pls
                got.append((k, ev, ans))
                if k == "raise":
                    need(False, "server-answers", "open", f"the server raises {getattr(ev, 'name', ev)} after {[evname(g[1]) for g in got[:-1]]}")
                    return r
            need([evname(g[1]) for g in got] == ["SessionCapabilityEvent", "InitRunspacePoolEvent"], "server-answers", "events", f"the server sees {[evname(g[1]) for g in got]}")
            if len(got) == 2:
                need([m.name for m in got[0][2]] == ["SessionCapability"], "server-answers", "capability", f"the capability is answered with {[m.name for m in got[0][2]]}")
                need([m.name for m in got[1][2]] == ["ApplicationPrivateData", "RunspacePoolState"], "server-answers", "initialization", f"the initialization is answered with {[m.name for m in got[1][2]]}")
                init = got[1][1]
                pairs = [("apartment_state", "apartment_state"), ("ps_thread_options", "thread_options"), ("application_arguments", "application_arguments"),
                         ("min_runspaces", "min_runspaces"), ("max_runspaces", "max_runspaces")]
                for en, n in pairs:
                    v = w.get(init, en)
                    need(eqv(it, v, want[n]), "init-fields", en, f"the initialization carries {show(v)}, configured is {show(want[n])}")
                hv = w.get(init, "host_info")
                hw = host if truth(it, host) else w.new("HostInfo")
                need(eqv(it, hv, hw), "init-fields", "host_info", f"the initialization carries the host {shape(it, hv)}, configured is {shape(it, hw)}")
                for n in want:
                    v = w.get(s, n)
                    need(eqv(it, v, want[n]), "server-adopts", n, f"the server has {show(v)}, the client is configured with {show(want[n])}")
                need(eqv(it, w.get(s, "host"), hw), "server-adopts", "host", f"the server has the host {show(w.get(s, 'host'))}")
            need(key(value(w, s, "runspace_pool_id")) == key(value(w, c, "runspace_pool_id")), "server-adopts", "runspace_pool_id", f"the server has the id {show(value(w, s, 'runspace_pool_id'))}")
            need(sname(w.get(s, "state")) == "Opened", "server-adopts", "state", f"the server is {sname(w.get(s, 'state'))}")
            b = cap_ok(w, w.get(s, "their_capability"), oc)
            need(b is None, "capability", "server", f"what the server remembers of the client: {b}")
            private = w.get(s, "application_private_data")
            before = shape(it, private)
            # and back
            pls, ans = drain(w, s)
            need(not ans, "server-answers", "afterwards", f"the server also sends {[m.name for m in ans]}")
            deliver(w, back, c)
            evs = events(w, c)
            need([evname(e) for e in evs] == ["SessionCapabilityEvent", "ApplicationPrivateDataEvent", "RunspacePoolStateEvent"], "client-adopts", "events", f"the client sees {[evname(e) for e in evs]}")
            pls, ans = drain(w, c)
            need(not ans, "client-adopts", "no answer", f"the client sends {[m.name for m in ans]} once opened")
            need(sname(w.get(c, "state")) == "Opened", "client-adopts", "state", f"the client is {sname(w.get(c, 'state'))}")
            v = w.get(c, "application_private_data")
            need(same(it, plain(before), plain(shape(it, v))), "client-adopts", "application_private_data", f"the client has {str(shape(it, v))[:300]}, the server {str(before)[:300]}")
            have = plain(shape(it, v))[1][1:]
            for gk, gv in given:
                x = [y for k, y in have if same(it, gk, k)]
                need(len(x) == 1 and (same(it, gv, x[0]) or contains(it, gv, x[0])), "client-adopts", f"private data {gk[1][-1]}", f"the client has {str(x)[:300]}, the server was given {str(gv)[:300]}")
            for n in ("min_runspaces", "max_runspaces"):
                need(eqv(it, w.get(c, n), want[n]), "client-adopts", n, f"the client has {show(w.get(c, n))}")
            b = cap_ok(w, w.get(c, "their_capability"), osv)
            need(b is None, "capability", "client", f"what the client remembers of the server: {b}")
            return r

        settle(name, body)

    def settle(name, body):
        def decide():
            ps = chk.seen(run(prog, body, cfg()))
            good = 0
            for p in ps:
                if p.kind == "return":
                    good += 1
                    r = p.value
                    for rule, what, detail in r["bad"]:
                        chk.bad(rule, f"{name}: {what}", detail, path=p)
                    chk.ok("open-sends", name, r["n"] - len(r["bad"]))
                elif getattr(p.world, "sent", False):
                    chk.bad("server-answers", name, f"{p.exc_name()} during the handshake", path=p)
            if not all(getattr(p.world, "built", False) for p in ps):
                raise Unsupported("the pools of the scenario cannot be made: " + "; ".join(str(p.exc_name()) for p in ps if p.kind != "return"))
            if not good and not ps.incomplete and not chk.findings:
                chk.bad("open-sends", name, "cannot be done: " + "; ".join(sorted({str(p.exc_name()) for p in ps})), path=ps[0] if ps else None)

        chk.attempt("open-sends", name, decide)

    def hosts(w, kind):
        if kind == "none":
            return w.new("HostInfo")
        hd = w.new("HostDefaultData",
                   ForegroundColor=w.enum("ConsoleColor", "Red"), BackgroundColor=w.enum("ConsoleColor", "Blue"),
                   CursorPosition=w.new("Coordinates", Const(1), Const(2)), WindowPosition=w.new("Coordinates", Const(3), Const(4)), CursorSize=Const(5),
                   BufferSize=w.new("Size", Const(6), Const(7)), WindowSize=w.new("Size", Const(8), Const(9)), MaxWindowSize=w.new("Size", Const(10), Const(11)),
                   MaxPhysicalWindowSize=w.new("Size", Const(12), Const(13)), WindowTitle=S("title", "str"))
        flags = {"full": (False, False, False, False), "no raw": (False, False, True, False)}[kind]
        return w.new("HostInfo", IsHostNull=Const(flags[0]), IsHostUINull=Const(flags[1]), IsHostRawUINull=Const(flags[2]), UseRunspaceHost=Const(flags[3]),
                     HostDefaultData=hd if kind == "full" else NONE)

    nested = lambda: mkdict((Const("text"), S("text", "str")), (Const("list"), ListV([Const(1), Const("two"), NONE])), (Const("inner"), mkdict((Const("k"), TRUE))))
    open_with("defaults")
    open_with("symbolic limits", lambda w: dict(min_runspaces=S("min", "int"), max_runspaces=S("max", "int")))
    open_with("limits", lambda w: dict(min_runspaces=Const(2), max_runspaces=Const(7)))
    for e, a in (("PSThreadOptions", "thread_options"), ("ApartmentState", "apartment_state")):
        for m in sorted(prog.cls(e).enum_members or {}):
            open_with(f"{e}.{m}", lambda w, e=e, a=a, m=m: {a: w.enum(e, m)})
    for k in ("none", "full", "no raw"):
        open_with(f"host {k}", lambda w, k=k: dict(host=hosts(w, k)))
    open_with("application arguments", lambda w: dict(application_arguments=nested()))
    open_with("private data", None, lambda w: dict(application_private_data=nested()))
    open_with("private data with version table", None, lambda w: dict(application_private_data=mkdict((Const("PSVersionTable"), mkdict((Const("PSVersion"), w.new("PSVersion", Const("7.1.2"))),
                                                                                                                                     (Const("SerializationVersion"), w.new("PSVersion", Const("1.1.0.5"))))))))
    open_with("all at once", lambda w: dict(min_runspaces=Const(3), max_runspaces=Const(9), host=hosts(w, "full"), application_arguments=nested(),
                                            thread_options=w.enum("PSThreadOptions", "UseNewThread"), apartment_state=w.enum("ApartmentState", "MTA")),
              lambda w: dict(application_private_data=nested()))

    def versions(cv, sv):
        def prep(w, c, s):
            c.attrs["our_capability"] = caps(w, *cv)
            s.attrs["our_capability"] = caps(w, *sv)
        return prep

    open_with("capabilities", None, None, versions(("7.1.2.3", "2.1", "1.1.0.2"), ("5.1", "2.2", "1.1.0.3")))
    open_with("newer client", None, None, versions(("8.0", "3.0", "1.2.0.0"), ("2.0", "2.3", "1.1.0.1")))

    # ------------------------------------------------------------------ connect
    def connect_with(name, fresh=True, other=False, limits=(2, 5), cver=None, before=None, asked=None):
        def body(w):
            start(w)
            it = w.it
            r = w.r = {"bad": [], "n": 0}

            def need(cond, rule, what, detail=""):
                r["n"] += 1
                if not cond:
                    r["bad"].append((rule, what, detail))

            w.built = True
            lim = [Const(x) if isinstance(x, int) else x for x in limits]
            first = w.client(min_runspaces=lim[0], max_runspaces=lim[1])
            s = w.server(known=False, application_private_data=nested())
            w.call(first, "open")
            pump(w, first, s)
            pump(w, s, first)
            if before:
                before(w, first, s)
            w.call(first, "begin_disconnect") if not fresh else None
            w.call(first, "disconnect") if not fresh else None
            w.call(s, "begin_disconnect")
            w.call(s, "disconnect")
            pump(w, s, first)
            w.call(s, "connect")
            pls, ms = drain(w, s)
            need(not ms, "connect-sends", "server", f"the server sends {[m.name for m in ms]} before the client connects")
            need(sname(w.get(s, "state")) == "Connecting", "connect-answers", "connecting", f"the server is {sname(w.get(s, 'state'))}")
            c = w.client(runspace_pool_id=Const(OTHER if other else RPID)) if fresh else first
            if cver:
                c.attrs["our_capability"] = caps(w, *cver)
            if asked is None:
                w.call(c, "connect")
            else:
                # a peer that asks for limits of its own with the connect request
                w.set_state(c, "Connecting")
                w.call(c, "prepare_message", w.get(c, "our_capability"))
                w.call(c, "prepare_message", w.new("ConnectRunspacePool", **asked))
            w.sent = True
            pls, ms = drain(w, c)
            need([m.name for m in ms] == ["SessionCapability", "ConnectRunspacePool"], "connect-sends", "connect", "sends " + str([m.name for m in ms]))
            deliver(w, pls, s)
            got, back = [], []
            known = {n: w.get(s, n) for n in ("runspace_pool_id", "min_runspaces", "max_runspaces", "their_capability", "state")}
            for _ in range(4):
                k, ev = step(w, s)
                if k == "event" and ev is None:
                    break
                pls, ans = drain(w, s)
                back += pls
                got.append((k, ev, ans))
            if other:
                need(len(got) >= 1 and got[0][0] == "raise", "connect-refused", "capability", "a client of another pool is not refused")
                for k, ev, m in got:
                    need(k == "raise", "connect-refused", evname(ev) or "", f"after the refusal {evname(ev)} of the other pool's client is still accepted")
                    need(not m, "connect-refused", "answers", f"the client of another pool is answered with {[x.name for x in m]}")
                for n, v in known.items():
                    need(key(w.get(s, n)) == key(v) if not isinstance(v, Heap) else w.get(s, n) is v, "connect-refused", n, f"{n} is {show(w.get(s, n))} after a client of another pool was refused")
                return r
            if any(k == "raise" for k, _, _ in got):
                need(False, "connect-answers", "events", f"the server raises {[getattr(g[1], 'name', None) for g in got if g[0] == 'raise']}")
                return r
            need([evname(g[1]) for g in got] == ["SessionCapabilityEvent", "ConnectRunspacePoolEvent"], "connect-answers", "events", f"the server sees {[evname(g[1]) for g in got]}")
            if len(got) == 2:
                a, b = [m.name for m in got[0][2]], [m.name for m in got[1][2]]
                need(a == [], "connect-answers", "capability", f"the capability is answered with {a}")
                need(b == ["RunspacePoolInitData", "ApplicationPrivateData", "RunspacePoolState"], "connect-answers", "connect", f"the connect request is answered with {b}")
                nums = [m.oid for m in got[1][2]]
                need(nums == [1, 2, 3], "numbering", "answers", f"the answers have the object ids {nums}")
            need(sname(w.get(s, "state")) == "Opened", "connect-answers", "state", f"the server is {sname(w.get(s, 'state'))}")
            if asked is not None:
                lim = [w.get(s, n) for n in ("min_runspaces", "max_runspaces")]  # whatever the server granted
            for i, n in enumerate(("min_runspaces", "max_runspaces")):
                need(eqv(it, w.get(s, n), lim[i]), "connect-answers", n, f"the limit in force on the server changed to {show(w.get(s, n))}")
            need(key(value(w, s, "runspace_pool_id")) == key(Const(RPID)), "connect-answers", "id", f"the server has the id {show(value(w, s, 'runspace_pool_id'))}")
            b = cap_ok(w, w.get(s, "their_capability"), w.get(c, "our_capability"))
            need(b is None, "capability", "server", f"what the server remembers of the connected client: {b}")
            before_ = shape(it, w.get(s, "application_private_data"))
            deliver(w, back, c)
            evs = events(w, c)
            need([evname(e) for e in evs] == ["RunspacePoolInitDataEvent", "ApplicationPrivateDataEvent", "RunspacePoolStateEvent"], "connect-adopts", "events", f"the client sees {[evname(e) for e in evs]}")
            need(sname(w.get(c, "state")) == "Opened", "connect-adopts", "state", f"the client is {sname(w.get(c, 'state'))}")
            for i, n in enumerate(("min_runspaces", "max_runspaces")):
                need(eqv(it, w.get(c, n), lim[i]), "connect-adopts", n, f"the client has {show(w.get(c, n))}, in force is {show(lim[i])}")
            v = w.get(c, "application_private_data")
            need(same(it, plain(before_), plain(shape(it, v))), "connect-adopts", "application_private_data", f"the client has {str(shape(it, v))[:300]}, the server {str(before_)[:300]}")
            # the next request of either side
            w.call(s, "host_call", w.enum("HostMethodIdentifier", "ReadLine"))
            ev = pump(w, s, c)
            ci = it.prim(w.get(ev[0], "ci")) if ev and evname(ev[0]) == "RunspacePoolHostCallEvent" else None
            need(ci is not None and isinstance(ci, Const) and ci.v == 1, "numbering", "call id", f"the first host call after connecting has the id {show(ci) if ci is not None else None}")
            return r

        settle("connect " + name, body)

    def busy(w, c, s):
        """Numbers were used before the disconnect."""
        for m in ("Clear", "ReadLine", "ReadLine") if False else ("ReadLine", "GetName"):
            w.call(s, "host_call", w.enum("HostMethodIdentifier", m))
        pump(w, s, c)

    connect_with("to an idle pool")
    connect_with("to a used pool", before=busy)
    connect_with("with other limits", limits=(4, 4))
    connect_with("with symbolic limits", limits=(S("min", "int"), S("max", "int")))
    connect_with("with another version", cver=("7.2", "2.1", "1.1.0.4"))
    connect_with("asking for limits", asked=dict(MinRunspaces=Const(4), MaxRunspaces=Const(9)))
    connect_with("asking for a maximum", asked=dict(MaxRunspaces=Const(9)), before=busy)
    connect_with("asking for a minimum", asked=dict(MinRunspaces=Const(1)), limits=(3, 3))
    connect_with("of another pool", other=True)
    connect_with("of another pool to a used pool", other=True, before=busy)
    connect_with("of the same client", fresh=False, before=busy)


def sname(s):
    return s.name if isinstance(s, EnumV) else show(s)
