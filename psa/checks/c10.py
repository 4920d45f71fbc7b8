"""C10: secure strings only ever leave the process encrypted."""
from ..link import *
from ..vals import *
from .c11 import Odd, crypto, has_op, nf

META = {
    "level": "other",
    "technique": "taint analysis by abstract interpretation: the plain text of a secure string is an origin term that may reach a document, a textual representation or a log only below the session cipher's encryption",
    "explanation": "A symbolic secure string is placed in every kind of object graph and handed to every operation of two interpreted pools, with and without a session key. Every text and attribute of every document that results, "
                   "every str/repr/format of the values and every log call is searched for the term of the plain text (or of a decryption) outside an encryption; the ciphertext has to be that of exactly the text; "
                   "without a key the operation has to fail. Received secure strings are followed through reading, writing again and decryption.",
    "rules": ["plain", "ciphertext", "missing-key", "received", "representation", "unchanged"],
}
SECRET = S("secret", "str")


def tainted(v, depth=0):
    """The value holds the plain text outside an encryption."""
    if depth > 60:
        return False
    if isinstance(v, Sym):
        if v.op == "arg":
            return v.args[0] == "secret"
        if v.op == "call" and isinstance(v.args[0], ExtV) and v.args[0].name.startswith("opaque_crypto.") and len(v.args) > 1:
            k = v.args[1].v if isinstance(v.args[1], Const) else None
            if k == "enc":
                return False
            if k == "dec":
                return True
        return any(tainted(a, depth + 1) for a in v.args if isinstance(a, V)) or any(tainted_raw(a, depth + 1) for a in v.args if isinstance(a, tuple))
    if isinstance(v, Const):
        return isinstance(v.v, str) and MARK in v.v or isinstance(v.v, bytes) and (MARK.encode() in v.v or MARK.encode("utf-16-le") in v.v)
    if isinstance(v, (TupleV, ListV)):
        return any(tainted(a, depth + 1) for a in v.items)
    return False


def tainted_raw(t, depth):
    return any(tainted(a, depth) if isinstance(a, V) else isinstance(a, tuple) and tainted_raw(a, depth + 1) for a in t)


MARK = "S3cr3t-plain-text"


def check(chk):
    prog = chk.prog
    prog.extra("user_types")
    prog.extra("secure_types")
    hc, ext, assume0 = crypto(prog)

    def h_update(it, args, kw, node):
        k = args[0].v
        it.world.ops.append(k)
        return ext["opaque_crypto.update"](it, args, kw, node)

    def assume(it, s):
        return assume0(it, s)

    def cfg():
        c = link_config(ext_hooks={**ext, "opaque_crypto.update": h_update}, assume=assume)
        c.hooks = {k: v for k, v in c.hooks.items() if k not in CRYPT}
        return c

    def settle(name, body, rule="plain"):
        def decide():
            def go(w):
                start(w)
                w.keys, w.randoms, w.ops = [], 0, []
                try:
                    return body(w)
                except Odd as e:
                    raise Unsupported(f"term {e}")

            ps = chk.seen(run(prog, go, cfg()))
            if not any(getattr(p.world, "built", False) for p in ps):
                raise Unsupported("the scenario cannot be built: " + "; ".join(sorted({str(p.exc_name()) for p in ps})))
            for p in ps:
                for e in p.effects:
                    if e.kind == "log" and any(isinstance(x, V) and tainted(x) for x in (getattr(e, "value", None), getattr(e, "args", None)) if x is not None):
                        chk.bad("representation", f"{name}: log", "the plain text is logged", path=p)
                if p.kind == "return":
                    for r, label, b in p.value:
                        chk.need(b is None, r, f"{name}: {label}", b, path=p)
                elif getattr(p.world, "built", False):
                    chk.bad(rule, name, f"raises {p.exc_name()}", path=p)

        chk.attempt(rule, name, decide)

    # ------------------------------------------------------------------ object graphs
    def note(w, o, n, v):
        w.it.call(prog.func("add_note_property"), [o, Const(n), v], {}, None)
        return o

    def bag(w, **kw):
        o = w.new("PSObject")
        for n, v in kw.items():
            note(w, o, n, v)
        return o

    def error(w, **kw):
        d = dict(Exception=w.new("NETException", Message=Const("m")), CategoryInfo=w.new("ErrorCategoryInfo"), FullyQualifiedErrorId=Const("i"))
        d.update(kw)
        return w.new("ErrorRecord", **d)

    def info(w, **kw):
        d = dict(MessageData=Const("m"), Source=Const("s"), Tags=w.new("PSList"), User=Const("u"), Computer=Const("c"), ProcessId=Const(5), NativeThreadId=Const(6), ManagedThreadId=Const(8),
                 TimeGenerated=w.new("PSDateTime", Const(2020), Const(1), Const(1)))
        d.update(kw)
        return w.new("InformationRecord", **d)

    def renamed(w, s):
        m = s.attrs["PSObject"]
        w.it.setattr(m, "type_names", ListV([Const("User.Secure"), Const("System.Object")]), None)
        return s

    def psdict(w, k, v):
        d = w.new("PSDict")
        w.it.set_item(d, k, v, None)
        return d

    GRAPHS = [
        ("by itself", lambda w, s: s), ("in a list", lambda w, s: ListV([Const(1), s])), ("twice in a list", lambda w, s: ListV([s, s])), ("in nested lists", lambda w, s: ListV([ListV([ListV([s])])])),
        ("in a PSList", lambda w, s: w.new("PSList", ListV([s]))), ("in a stack", lambda w, s: w.new("PSStack", ListV([s]))), ("in an enumerable", lambda w, s: w.new("PSIEnumerable", ListV([s]))),
        ("in a queue", lambda w, s: queue_of(w, "PSQueue", s)), ("in a dict", lambda w, s: mkdict((Const("k"), s))), ("in a PSDict", lambda w, s: psdict(w, Const("k"), s)),
        ("in a primitive dictionary", lambda w, s: psdict2(w, s)), ("in a user list", lambda w, s: w.new("UserList", ListV([s]))),
        ("as a property", lambda w, s: bag(w, Name=Const("n"), Password=s)), ("as a nested property", lambda w, s: bag(w, Outer=bag(w, Inner=ListV([bag(w, Password=s)])))),
        ("as a property of a text", lambda w, s: note(w, w.new("PSString", Const("abc")), "Extra", s)), ("as a property of a number", lambda w, s: note(w, w.new("PSInt", Const(7)), "Extra", s)),
        ("as a property of a list", lambda w, s: note(w, w.new("PSList", ListV([Const(1)])), "Extra", s)), ("as a property of a dictionary", lambda w, s: note(w, psdict(w, Const("k"), Const(1)), "Extra", s)),
        ("as a property of a secure string", lambda w, s: note(w, w.new("PSSecureString", SECRET), "Extra", s)),
        ("with a property", lambda w, s: note(w, s, "Extra", Const(1))), ("with other type names", renamed), ("with other type names and a property in a list", lambda w, s: ListV([note(w, renamed(w, s), "Extra", Const("x"))])),
        ("of a user type", lambda w, s: w.new("SecretHolder", Name=Const("n"), Password=s)), ("of a user type with computed properties", lambda w, s: w.new("SecretScript", Stored=s)),
        ("of a converted user type", lambda w, s: w.it.call(prog.cls("SecretConverted"), [s], {}, None)), ("of a plain object", lambda w, s: w.it.call(prog.cls("PlainHolder"), [s], {}, None)),
        ("of a credential", lambda w, s: w.new("PSCredential", UserName=Const("u"), Password=s)), ("of a credential in a list", lambda w, s: ListV([w.new("PSCredential", UserName=Const("u"), Password=s)])),
        ("of an error record", lambda w, s: error(w, TargetObject=s)), ("of an exception", lambda w, s: error(w, Exception=w.new("NETException", Message=Const("m"), Data=mkdict((Const("k"), s))))),
        ("of an information record", lambda w, s: info(w, MessageData=s)),
    ]

    def psdict2(w, s):
        d = w.new("PSPrimitiveDictionary")
        w.it.set_item(d, Const("k"), s, None)
        return d

    KINDS = [
        ("PSSecureString", lambda w, t: w.new("PSSecureString", t)),
        ("user secure string", lambda w, t: w.it.call(prog.cls("UserSecureString"), [t], {}, None)),
    ]

    def keyed(w, name="session"):
        c = w.new("PSRemotingCrypto")
        w.call(c, "register_key", S(name, "bytes"))
        return c

    def key_in(x):
        """(key, text) of a normalized ciphertext."""
        if x[0] != "b64" or x[1][0] != "enc" or x[1][1][0] != "cipher":
            return None
        k, y = x[1][1][1], x[1][2]
        if y[0] == "pad":
            y = y[2]
        if y[0] == "text":
            y = y[3]
        elif y[0] == "const" and isinstance(y[1], bytes):
            y = ("const", y[1].decode("utf-16-le", "replace"))
        return (k[1] if k[0] == "AES" else k), y

    def scan(w, x, out, texts, keys, label="", least=1):
        """Judge a document: nothing plain, every secure element the ciphertext of a given text."""
        n = 0
        for k in x.walk():
            for a, v in list(k.attrib.items()) + [("text", k.text)]:
                if v is not None and tainted(v):
                    out.append(("plain", label, f"the plain text is the {a} of <{k.tag}>: {show(v)[:200]}"))
            if k.tag == "SS":
                n += 1
                t = nf(w.it.term(w.it.prim(k.text))) if k.text is not None else ("const", "")
                g = key_in(t)
                if g is None and has_op(t, "?"):
                    raise Odd(str(t)[:200])
                if g is None:
                    out.append(("ciphertext", label, f"the secure element holds {str(t)[:200]}"))
                else:
                    out.append(("ciphertext", label, None if g[0] in keys else f"it is encrypted with {g[0]}, not the session key"))
                    out.append(("ciphertext", label + " text", None if g[1] in texts else f"{str(g[1])[:200]} is encrypted"))
        out.append(("plain", label, None))
        out.append(("ciphertext", label + " number", None if n >= least else f"the document has {n} secure elements"))

    for kind, make in KINDS:
        for text in (SECRET, Const(""), Const(MARK)):
            want = ("arg", "secret") if text is SECRET else ("const", text.v)
            for name, graph in GRAPHS:
                if (text is not SECRET or kind != "PSSecureString") and name not in ("by itself", "in a list", "as a property", "in a dict", "of a credential", "with a property"):
                    continue
                label = f"{kind} {'of ' + show(text) + ' ' if text is not SECRET else ''}{name}"

                def written(w, make=make, graph=graph, text=text, want=want):
                    v = graph(w, make(w, text))
                    ci = keyed(w)
                    w.built = True
                    out = []
                    scan(w, snap(w.it, serialize(w, v, ci)), out, [want, ("arg", "secret")], [("arg", "session")], "document")
                    return out

                settle(f"{label}, written", written)

                def unkeyed(w, make=make, graph=graph, text=text):
                    v = graph(w, make(w, text))
                    ci = w.new("PSRemotingCrypto")
                    w.built = True
                    try:
                        r = serialize(w, v, ci)
                    except PyRaise as e:
                        n = getattr(e.cls, "name", str(e.cls))
                        return [("missing-key", "without a key", None if n == "MissingCipherError" else f"raises {n}")]
                    return [("missing-key", "without a key", f"is written as {snap(w.it, r)!r:.200} without a session key")]

                settle(f"{label}, no key", unkeyed, "missing-key")

    # one value for several ciphers
    def several(w):
        s = w.new("PSSecureString", SECRET)
        a, b = keyed(w, "first"), keyed(w, "second")
        w.built = True
        out = []
        for i, (ci, k) in enumerate(((a, "first"), (b, "second"), (a, "first"))):
            scan(w, snap(w.it, serialize(w, ListV([s]), ci)), out, [("arg", "secret")], [("arg", k)], f"writing {i}")
        t = nf(w.it.term(w.it.prim(w.call(s, "decrypt"))))
        out.append(("unchanged", "text", None if t == ("arg", "secret") else f"decrypts to {str(t)[:200]}"))
        n = w.new("PSRemotingCrypto")
        try:
            serialize(w, s, n)
            out.append(("missing-key", "third cipher without a key", "is written without a session key"))
        except PyRaise as e:
            m = getattr(e.cls, "name", str(e.cls))
            out.append(("missing-key", "third cipher without a key", None if m == "MissingCipherError" else f"raises {m}"))
        return out

    settle("one secure string, several ciphers", several)

    # ------------------------------------------------------------------ representations
    def texts(w, v, out, label):
        it = w.it
        for n in ("str", "repr", "format", "ascii"):
            try:
                r = it.call(ExtV(n), [v], {}, None)
            except PyRaise as e:
                m = getattr(e.cls, "name", str(e.cls))
                out.append(("representation", f"{label} {n}", f"raises {m}"))
                continue
            r = it.prim(r)
            out.append(("representation", f"{label} {n}", f"shows the plain text: {show(r)[:200]}" if tainted(r) else None))

    for kind, make in KINDS:
        def rep(w, make=make):
            it = w.it
            s = make(w, SECRET)
            ci = keyed(w)
            w.built = True
            out = []
            texts(w, s, out, "before")
            note(w, s, "Extra", Const("x"))
            texts(w, s, out, "with a property")
            serialize(w, ListV([s]), ci)
            texts(w, s, out, "after writing")
            w.call(s, "decrypt")
            texts(w, s, out, "after decryption")
            renamed(w, s)
            texts(w, s, out, "with other type names")
            texts(w, w.new("PSCredential", UserName=Const("u"), Password=s), out, "credential")
            texts(w, bag(w, Password=s), out, "object")
            texts(w, w.new("SecretHolder", Name=Const("n"), Password=s), out, "user type")
            texts(w, error(w, TargetObject=s), out, "error record")
            return out

        settle(f"representations of a {kind}", rep, "representation")

    # ------------------------------------------------------------------ received secure strings
    def ss(w, text):
        return build(w, "SS", text)

    for name, wrap, at in (("by itself", lambda w, e: e, lambda w, v: v),
                           ("in a list", lambda w, e: build(w, "Obj", None, [build(w, "LST", None, [e])], RefId="0"), lambda w, v: w.it.get_item(v, Const(0), None)),
                           ("as a property", lambda w, e: (e.attrs["attrib"].entries.update({key(Const("N")): (Const("N"), Const("Password"))}), build(w, "Obj", None, [build(w, "MS", None, [e])], RefId="0"))[1],
                            lambda w, v: w.get(v, "Password")),
                           ("with a property", lambda w, e: build(w, "Obj", None, [e, build(w, "MS", None, [build(w, "S", Const("x"), N="Extra")])], RefId="0"), lambda w, v: v),
                           ("with type names", lambda w, e: build(w, "Obj", None, [build(w, "TN", None, [build(w, "T", Const("User.Secure"))], RefId="0"), e], RefId="0"), lambda w, v: v)):
        def received(w, wrap=wrap, at=at):
            it = w.it
            a, b = keyed(w, "first"), keyed(w, "second")
            e = wrap(w, ss(w, S("received", "str")))
            w.built = True
            v = deserialize(w, e, a)
            s = at(w, v)
            out = [("received", "type", None if isinstance(s, InstV) and s.cls.name == "PSSecureString" else f"is {show(s)[:100]}")]
            if out[0][2]:
                return out
            out.append(("received", "kept encrypted", None if "dec" not in w.ops else "it is decrypted when it is read"))
            texts(w, s, out, "received")
            for i, ci in ((1, a), (2, b)):
                w.ops.clear()
                x = snap(it, serialize(w, v, ci))
                for k in x.walk():
                    for t in list(k.attrib.values()) + [k.text]:
                        if t is not None and tainted(t):
                            out.append(("plain", f"written again {i}", f"the decrypted text is in <{k.tag}>"))
                el = [k for k in x.walk() if k.tag == "SS"]
                out.append(("received", f"written again {i} number", None if len(el) == 1 else f"{len(el)} secure elements"))
                if ci is a and len(el) == 1 and el[0].text is not None:
                    t = nf(it.term(it.prim(el[0].text)))
                    out.append(("received", "written again is the ciphertext", None if t == ("arg", "received") else f"is {str(t)[:200]}"))
            w.ops.clear()
            t = nf(it.term(it.prim(w.call(s, "decrypt"))))
            if has_op(t, "?"):
                raise Odd(str(t)[:200])
            ok = t[0] == "untext" and "dec" in w.ops and "'arg', 'first'" in str(t) and "'arg', 'second'" not in str(t) and "'arg', 'received'" in str(t)
            if ok:
                b = t[3]
                ok = b[0] == "unpad" and b[2][0] == "dec" and b[2][2] == ("unb64", ("arg", "received"))
            out.append(("received", "decrypted", None if ok else f"decrypts to {str(t)[:300]}, not with the cipher it came with"))
            texts(w, s, out, "after decryption")
            x = snap(it, serialize(w, v, a))
            for k in x.walk():
                if k.text is not None and tainted(k.text):
                    out.append(("plain", "written after decryption", f"the decrypted text is in <{k.tag}>"))
            return out

        settle(f"received secure string {name}", received, "received")

        def received_unkeyed(w, wrap=wrap, at=at):
            a = w.new("PSRemotingCrypto")
            e = wrap(w, ss(w, S("received", "str")))
            w.built = True
            s = at(w, deserialize(w, e, a))
            try:
                r = w.call(s, "decrypt")
            except PyRaise as x:
                n = getattr(x.cls, "name", str(x.cls))
                return [("missing-key", "decrypt", None if n == "MissingCipherError" else f"raises {n}")]
            return [("missing-key", "decrypt", f"gives {show(r)[:100]} without a key")]

        settle(f"received secure string {name}, no key", received_unkeyed, "missing-key")

    # ------------------------------------------------------------------ operations of the pools
    def cipher_of(w, pool):
        cs = [v for v in pool.attrs.values() if isinstance(v, InstV) and v.cls.name == "PSRemotingCrypto"]
        if len({id(c) for c in cs}) != 1:
            raise Unsupported("cipher of the pool")
        return cs[0]

    def client_pipeline(w, c, *args, **kw):
        p = w.new("ClientPowerShell", c, pipeline_id=Const(PID))
        w.call(p, "add_command", Const("cmd"))
        return p

    def running(w, c, s):
        """A pipeline known to both."""
        p = client_pipeline(w, c)
        w.call(p, "start")
        sp = w.new("ServerPipeline", s, Const(PID))
        pump(w, c, s)
        w.set_state(sp, "Running", "PSInvocationState")
        w.set_state(p, "Running", "PSInvocationState")
        return p, sp

    def op_argument(w, c, s, v):
        p = client_pipeline(w, c)
        w.call(p, "add_argument", v)
        return c, lambda: w.call(p, "start")

    def op_parameter(w, c, s, v):
        p = client_pipeline(w, c)
        w.call(p, "add_parameter", Const("Password"), v)
        return c, lambda: w.call(p, "start")

    def op_input(w, c, s, v):
        p = w.new("ClientPowerShell", c, no_input=FALSE, pipeline_id=Const(PID))
        w.call(p, "add_command", Const("cmd"))
        w.call(p, "start")
        drain(w, c)
        w.set_state(p, "Running", "PSInvocationState")
        return c, lambda: w.call(p, "send", v)

    def op_host_response(w, c, s, v):
        w.call(s, "host_call", w.enum("HostMethodIdentifier", "ReadLineAsSecureString"))
        pump(w, s, c)
        return c, lambda: w.call(c, "host_response", Const(1), v)

    def op_pipeline_host_response(w, c, s, v):
        p, sp = running(w, c, s)
        ci = w.call(sp, "host_call", w.enum("HostMethodIdentifier", "ReadLineAsSecureString"))
        pump(w, s, c)
        return c, lambda: w.call(p, "host_response", ci, v)

    def server_write(op):
        def f(w, c, s, v):
            p, sp = running(w, c, s)
            return s, lambda: w.call(sp, op, v)
        return f

    def op_host_call(w, c, s, v):
        return s, lambda: w.call(s, "host_call", w.enum("HostMethodIdentifier", "WriteLine2"), ListV([v]))

    def op_pipeline_host_call(w, c, s, v):
        p, sp = running(w, c, s)
        return s, lambda: w.call(sp, "host_call", w.enum("HostMethodIdentifier", "WriteLine2"), ListV([v]))

    def op_event(w, c, s, v):
        return s, lambda: w.call(s, "send_event", Const(1), Const("id"), v, ListV([v]), v, w.new("PSDateTime", Const(2020), Const(1), Const(1)), Const("c"))

    OPS = [("argument of a command", op_argument), ("parameter of a command", op_parameter), ("pipeline input", op_input), ("host response", op_host_response), ("pipeline host response", op_pipeline_host_response),
           ("pipeline output", server_write("write_output")), ("host call", op_host_call), ("pipeline host call", op_pipeline_host_call), ("user event", op_event)]
    NEST = [g for g in GRAPHS if g[0] in ("by itself", "in a list", "as a nested property", "of a credential", "in a dict", "of a converted user type", "with a property")]

    for oname, op in OPS:
        for gname, graph in NEST:
            for has_key in (True, False):
                def operation(w, op=op, graph=graph, has_key=has_key):
                    c, s = pair(w)
                    if has_key:
                        w.call(cipher_of(w, c), "register_key", S("session", "bytes"))
                        w.call(cipher_of(w, s), "register_key", S("session", "bytes"))
                    v = graph(w, w.new("PSSecureString", SECRET))
                    src, act = op(w, c, s, v)
                    drain(w, src)
                    w.built = True
                    out, raised = [], None
                    try:
                        act()
                    except PyRaise as e:
                        raised = getattr(e.cls, "name", str(e.cls))
                    _, ms = drain(w, src)
                    docs = [snap(w.it, m.doc) for m in ms if m.doc is not None]
                    if has_key:
                        out.append(("ciphertext", "sent", None if raised is None and docs else f"raises {raised}" if raised else "nothing is sent"))
                    elif src is c:
                        out.append(("missing-key", "sent", None if raised == "MissingCipherError" else f"raises {raised}" if raised else "is sent without a session key"))
                    for x in docs:
                        scan(w, x, out, [("arg", "secret")], [("arg", "session"), ("urandom", 32, 1)], "message", 1 if has_key else 0)
                    return out

                settle(f"{oname}, secure string {gname}, {'with' if has_key else 'without'} a key", operation)

    for where in ("client", "server"):
        def arguments(w, where=where):
            """Application arguments and private data, sent before a client can have a key."""
            v = w.new("PSSecureString", SECRET)
            if where == "client":
                c, s = pair(w, None, client={"application_arguments": mkdict((Const("k"), v))})
            else:
                c, s = pair(w, None, server={"application_private_data": mkdict((Const("k"), v))})
            w.built = True
            out, raised = [], None
            try:
                w.call(c, "open")
                _ = None
                pls, ms = drain(w, c)
                if where == "server":
                    deliver(w, pls, s)
                    events(w, s)
                    pls, ms = drain(w, s)
            except PyRaise as e:
                raised = getattr(e.cls, "name", str(e.cls))
                ms = []
            if where == "client":
                out.append(("missing-key", "opening", None if raised == "MissingCipherError" else f"raises {raised}" if raised else "is sent without a session key"))
            for x in [snap(w.it, m.doc) for m in ms if m.doc is not None]:
                scan(w, x, out, [("arg", "secret")], [("urandom", 32, 1)], "message", 0)
            return out

        settle(f"application data of a {where}", arguments)

    # texts of whole documents
    for has_key in (True, False):
        def clixml(w, has_key=has_key):
            v = ListV([w.new("PSSecureString", SECRET), bag(w, Password=w.new("PSSecureString", SECRET))])
            ci = keyed(w) if has_key else w.new("PSRemotingCrypto")
            w.built = True
            out = []
            try:
                w.it.call(prog.func("serialize_clixml"), [v, ci], {}, None)
            except PyRaise as e:
                n = getattr(e.cls, "name", str(e.cls))
                return [("missing-key", "serialize_clixml", None if n == "MissingCipherError" and not has_key else f"raises {n}")]
            if not has_key:
                return [("missing-key", "serialize_clixml", "is written without a session key")]
            for d in w.docs:
                scan(w, snap(w.it, d), out, [("arg", "secret")], [("arg", "session")], "document", 2)
            return out

        settle(f"serialize_clixml {'with' if has_key else 'without'} a key", clixml)
