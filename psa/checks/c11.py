"""C11: both ends of the key exchange and the session cipher mirror each other."""
from ..link import *
from ..vals import *

META = {
    "level": "other",
    "technique": "abstract interpretation of the key exchange and of the ciphers to origin terms, normalized and compared with the MS-PSRP formats and with each other",
    "explanation": "The primitives of the cryptography package are opaque; what the package hands to them and does with their results is interpreted into terms (which key, mode, IV, padding, codec and framing, which slices and reversals) "
                   "that are compared with the MS-PSRP formats; encryption and decryption have to be each other's mirror image. Byte layouts of the public key are folded for moduli with distinct, zero and extreme bytes. "
                   "Whole exchanges between two interpreted pools show which key each cipher ends up with, when, and what is sent.",
    "rules": ["public-key", "session-key-blob", "cipher", "mirror", "missing-key", "fresh", "exchange", "never-sent"],
}
RSA = "cryptography.hazmat.primitives.asymmetric.rsa."
HEADER = b"\x06\x02\x00\x00\x00\xa4\x00\x00RSA1\x00\x08\x00\x00"
KEYHEADER = b"\x01\x02\x00\x00\x10\x66\x00\x00\x00\xa4\x00\x00"


def moduli():
    yield "distinct bytes", bytes(range(255, 127, -1)) + bytes(range(127, -1, -1))
    yield "zero bytes inside", b"\xc0" + b"\0" * 100 + b"\x11" + b"\0" * 153 + b"\x05"
    yield "all ones", b"\xff" * 256
    yield "smallest", b"\x80" + b"\0" * 254 + b"\x01"


def num(b):
    return int.from_bytes(b, "big")


class Odd(Exception):
    pass


def kwargs_of(args):
    pos, kw = [], {}
    for a in args:
        if isinstance(a, Sym) and a.op == "kw":
            kw[raw(a.args[0])] = a.args[1]
        else:
            pos.append(a)
    return pos, kw


def raw(a):
    return a.v if isinstance(a, Const) else a[1] if isinstance(a, tuple) else a


def codec(n):
    import codecs
    try:
        return codecs.lookup(n).name
    except (LookupError, TypeError):
        return n


def nf(t):
    """The normal form of a term over the primitives."""
    if isinstance(t, Const):
        return ("const", t.v)
    if isinstance(t, ExtV):
        return ("const", 128) if t.name.endswith("algorithms.AES.block_size") else ("ext", t.name)
    if isinstance(t, InstV):
        return ("object", t.cls.name, t.born)
    if not isinstance(t, Sym):
        raise Odd(show(t))
    op, a = t.op, t.args
    if op == "arg":
        return ("arg", a[0])
    if op == "urandom":
        return ("urandom", a[0], a[1])
    if op == "resub":
        return nf(a[2])
    if op == "str" and len(a) == 1:
        return nf(a[0])
    if op == "cat":
        ps = [nf(x) for x in a]
        ps = [p for p in ps if p not in (("const", b""), ("const", ""))]
        out = []
        for p in ps:
            if out and p[0] == "rest" and out[-1][0] == "part" and out[-1][1] == p[1]:
                out[-1] = p[1] + (out[-1][2],) if p[1][0] != "unpad" else ("unpad", p[1][1], out[-1][2])
            else:
                out.append(p)
        return out[0] if len(out) == 1 else ("cat",) + tuple(out)
    if op == "slice":
        x = nf(a[0])
        lo, hi, st = [raw(y) if isinstance(y, (Const, tuple)) or y is None else y for y in a[1:4]]
        if lo is None and hi is None and st == -1:
            return x[1] if x[0] == "reversed" else ("reversed", x)
        if st in (None, 1) and isinstance(lo, int) and hi is None and x[0] == "cat" and x[1][0] == "const" and len(x[1][1]) <= lo:
            rest = x[2:]
            if len(x[1][1]) == lo:
                return rest[0] if len(rest) == 1 else ("cat",) + rest
        return ("slice", x, lo, hi, st)
    if op in ("encode", "decode") and len(a) >= 1:
        t = Sym("mcall", op, *a)
        a, op = t.args, "mcall"
    if op == "call":
        f = a[0].name if isinstance(a[0], ExtV) else show(a[0])
        pos, kw = kwargs_of(a[1:])
        if f == "base64.b64encode":
            return ("b64", nf(pos[0]))
        if f == "base64.b16encode":
            return ("b16", nf(pos[0]))
        if f in ("base64.b64decode", "base64.b16decode"):
            x = nf(pos[0])
            k = "b64" if f.endswith("b64decode") else "b16"
            return x[1] if x[0] == k else ("un" + k, x)
        if f == "binascii.hexlify":
            return ("b16", nf(pos[0]))
        if f == "opaque_crypto.cipher":
            return ("cipher", nf(pos[0]), nf(pos[1]))
        if f == "opaque_crypto.pkcs7":
            return ("PKCS7", nf(pos[0]))
        if f == "opaque_crypto.update":
            return ("part", (raw(pos[0]), nf(pos[1])), nf(pos[2]))
        if f == "opaque_crypto.finalize":
            return ("rest", (raw(pos[0]), nf(pos[1])))
        if f.endswith("algorithms.AES"):
            return ("AES", nf(pos[0] if pos else kw["key"]))
        if f.endswith("modes.CBC"):
            return ("CBC", nf(pos[0] if pos else kw["initialization_vector"]))
        if f.endswith("padding.PKCS1v15"):
            return ("PKCS1v15",)
        if f.startswith("opaque_crypto."):
            x = tuple(nf(p) for p in pos)
            if f.endswith("rsa_decrypt") and x[2][0] == "rsa_encrypt" and x[2][1:3] == x[:2] and x[2][4] == x[3]:
                return x[2][3]
            return (f.rpartition(".")[2],) + x
        return ("call", f) + tuple(nf(p) for p in pos) + tuple((k, nf(v)) for k, v in sorted(kw.items()))
    if op == "mcall":
        name, recv = raw(a[0]), a[1]
        pos, kw = kwargs_of(a[2:])
        r = nf(recv)
        if name in ("encode", "decode"):
            enc = raw(pos[0]) if pos else raw(kw.get("encoding", "utf-8"))
            err = raw(pos[1]) if len(pos) > 1 else raw(kw.get("errors", "strict"))
            if name == "decode" and r[0] in ("b64", "b16"):
                return r  # the text of an ASCII framing
            if name == "decode" and r[0] == "text" and r[1] == codec(enc):
                return r[3]
            return ("text" if name == "encode" else "untext", codec(enc), err, r)
        if name in ("upper", "lower", "strip") and r[0] == "b64":
            return ("changed", name, r)
        if name == "upper" and r[0] == "b16":
            return r
        if name == "upper":
            return ("upper", r)
        return ("mcall", name, r) + tuple(nf(p) for p in pos)
    if op == "rpart":
        return ("rpart",) + tuple(nf(x) for x in a if isinstance(x, V))
    return ("?", op, show(t)[:300]) + tuple(nf(x) for x in a if isinstance(x, (Const, ExtV, Sym)))


def has(x, what):
    return x == what or isinstance(x, tuple) and any(has(y, what) for y in x)


def has_op(x, op):
    return isinstance(x, tuple) and (x[:1] == (op,) or any(has_op(y, op) for y in x))


def judge_form(bad, *forms):
    """A form with steps nothing is known about is not judged."""
    if bad is not None and any(has_op(f, "?") for f in forms):
        raise Odd(bad[:100])
    return bad


def crypto(prog):
    """Stand-ins for the primitives: (class of the harness, external hooks, assumptions)."""
    harness = prog.extra("crypto_types")
    hc = lambda n: harness.frame.vars[n]

    def assume(it, s):
        if s.op == "call" and isinstance(s.args[0], ExtV) and s.args[0].name.startswith(("cryptography.", "opaque_crypto.", "base64.")):
            return True
        return True if s.op in ("resub", "arg", "encode", "decode", "urandom", "cat", "mcall") else None

    def unwrap(it, v):
        v = it.prim(v)
        for _ in range(8):
            if isinstance(v, Sym) and v.op == "str" and len(v.args) == 1:
                v = v.args[0]
            elif isinstance(v, Sym) and v.op == "resub":
                v = v.args[2]
            else:
                break
        return v

    def h_unb64(it, args, kw, node):
        """Decoding undoes encoding, also of text that went through the escaping (which leaves that alphabet alone)."""
        v = unwrap(it, args[0] if args else kw["s"])
        if isinstance(v, Const):
            import base64
            return Const(base64.b64decode(v.v))
        x = v
        if isinstance(x, Sym) and x.op == "mcall" and raw(x.args[0]) == "decode":
            x = x.args[1]
        if isinstance(x, Sym) and x.op == "call" and isinstance(x.args[0], ExtV) and x.args[0].name == "base64.b64encode":
            return x.args[1]
        return Sym("call", ExtV("base64.b64decode"), it.term(v), typ="bytes")

    def h_keygen(it, args, kw, node):
        w = it.world
        g = lambda i, n: args[i] if len(args) > i else kw.get(n, NONE)
        e, size = it.prim(g(0, "public_exponent")), it.prim(g(1, "key_size"))
        n = list(moduli())[getattr(w, "modulus", 0)][1]
        k = it.call(hc("PrivateKeyStandIn"), [e, Const(num(n))], {}, node)
        w.keys.append((e, size, k))
        return k

    def h_numbers(it, args, kw, node):
        return it.call(hc("Numbers"), [args[0] if args else kw["e"], args[1] if len(args) > 1 else kw["n"]], {}, node)

    def h_random(it, args, kw, node):
        n = it.prim(args[0] if args else kw.get("nbytes", Const(32)))
        w = it.world
        w.randoms += 1
        return Sym("urandom", n.v if isinstance(n, Const) else show(n), w.randoms, typ="bytes")

    def h_cls(name):
        return lambda it, args, kw, node: it.call(hc(name), args, kw, node)

    def h_bytes(name):
        return lambda it, args, kw, node: Sym("call", ExtV(name), *[it.term(it.prim(a)) for a in args], typ="bytes")

    CI = "cryptography.hazmat.primitives."
    ext = {n: h_bytes(n) for n in ("opaque_crypto.update", "opaque_crypto.finalize", "opaque_crypto.rsa_encrypt", "opaque_crypto.rsa_decrypt")}
    ext |= {CI + "ciphers.Cipher": h_cls("CipherStandIn"), CI + "ciphers.base.Cipher": h_cls("CipherStandIn"), CI + "padding.PKCS7": h_cls("PaddingStandIn"), RSA + "generate_private_key": h_keygen, RSA + "RSAPublicNumbers": h_numbers, "os.urandom": h_random, "secrets.token_bytes": h_random, "base64.b64decode": h_unb64}
    return hc, ext, assume


def check(chk):
    prog = chk.prog
    hc, ext, assume = crypto(prog)

    def cfg():
        c = link_config(ext_hooks=ext, assume=assume)
        c.const_loop = 600
        c.hooks = {k: v for k, v in c.hooks.items() if k not in CRYPT}
        return c

    def settle(rule, name, body):
        def decide():
            def go(w):
                start(w)
                w.keys, w.randoms = [], 0
                try:
                    return body(w)
                except Odd as e:
                    raise Unsupported(f"term {e}")

            ps = chk.seen(run(prog, go, cfg()))
            if not any(getattr(p.world, "built", False) for p in ps):
                raise Unsupported("the scenario cannot be built: " + "; ".join(sorted({str(p.exc_name()) for p in ps})))
            for p in ps:
                if p.kind == "return":
                    for r, label, b in p.value:
                        chk.need(b is None, r, f"{name}: {label}", b, path=p)
                elif getattr(p.world, "built", False):
                    chk.bad(rule, name, f"raises {p.exc_name()}", path=p)

        chk.attempt(rule, name, decide)

    def fn(name):
        return prog.func(name)

    def const_bytes(w, v):
        v = w.it.prim(v)
        return bytes(v.v) if isinstance(v, Const) and isinstance(v.v, (bytes, bytearray)) else None

    # ------------------------------------------------------------------ the public key
    for i, (label, n) in enumerate(moduli()):
        def keypair(w, i=i, n=n):
            w.modulus = i
            w.built = True
            r = w.it.prim(w.it.call(fn("create_keypair"), [], {}, None))
            if not isinstance(r, (TupleV, ListV)) or len(r.items) != 2:
                raise Unsupported("key pair " + show(r))
            out = [("fresh", "generated", None if len(w.keys) == 1 else f"{len(w.keys)} keys are generated")]
            if len(w.keys) != 1:
                return out
            e, size, k = w.keys[0]
            out.append(("public-key", "exponent", None if isinstance(e, Const) and e.v == 65537 else f"is {show(e)}"))
            out.append(("public-key", "size", None if isinstance(size, Const) and size.v == 2048 else f"is {show(size)}"))
            out.append(("public-key", "private key", None if r.items[0] is k else f"is {show(r.items[0])}, not the one generated"))
            b = const_bytes(w, r.items[1])
            if b is None:
                raise Unsupported("public key blob " + show(r.items[1])[:200])
            out.append(("public-key", "header", None if b[:16] == HEADER else f"is {b[:16].hex()}, MS-PSRP has {HEADER.hex()}"))
            out.append(("public-key", "exponent bytes", None if b[16:20] == b"\x01\x00\x01\x00" else f"are {b[16:20].hex()}"))
            out.append(("public-key", "modulus bytes", None if b[20:] == n[::-1] else f"are {len(b) - 20} bytes {b[20:40].hex()}..., not the {len(n)} of the modulus from the low end"))
            return out

        settle("public-key", f"create_keypair, modulus with {label}", keypair)

        for e in (65537, 3, 17, 2**31 + 1):
            def session(w, n=n, e=e):
                w.built = True
                blob = HEADER + e.to_bytes(4, "little") + n[::-1]
                r = w.it.call(fn("encrypt_session_key"), [Const(blob), S("session", "bytes")], {}, None)
                x = nf(w.it.term(w.it.prim(r)))
                out = []
                ok = x[0] == "cat" and x[1][0] == "const"
                out.append(("session-key-blob", "header", None if ok and x[1][1] == KEYHEADER else f"is {x[1] if x[0] == 'cat' else x}, MS-PSRP has {KEYHEADER.hex()}"))
                want = ("reversed", ("rsa_encrypt", ("const", e), ("const", num(n)), ("arg", "session"), ("PKCS1v15",)))
                got = x[2] if ok and len(x) == 3 else x
                out.append(("session-key-blob", "content", judge_form(None if got == want else f"is {str(got)[:300]}, not the reversed PKCS#1 v1.5 ciphertext of the session key under the received key", x)))
                return out

            settle("session-key-blob", f"encrypt_session_key, exponent {e}, modulus with {label}", session)

    for hdr in (KEYHEADER, bytes(range(12))):
        def unseal(w, hdr=hdr):
            it = w.it
            k = it.call(hc("PrivateKeyStandIn"), [Const(65537), Const(num(list(moduli())[0][1]))], {}, None)
            ct = S("ciphertext", "bytes")
            blob = it.cat([Const(hdr), Sym("slice", ct, NONE, NONE, Const(-1), typ="bytes")], "bytes")
            w.built = True
            x = nf(it.term(it.prim(it.call(fn("decrypt_session_key"), [k, blob], {}, None))))
            want = ("rsa_decrypt", ("const", 65537), ("const", num(list(moduli())[0][1])), ("arg", "ciphertext"), ("PKCS1v15",))
            return [("session-key-blob", "decrypted", judge_form(None if x == want else f"is {str(x)[:300]}, not the PKCS#1 v1.5 decryption of the reversed bytes after the header", x))]

        settle("session-key-blob", f"decrypt_session_key, header {hdr.hex()}", unseal)

    # ------------------------------------------------------------------ the session cipher
    def enc_form(w, c, text):
        return nf(w.it.term(w.it.prim(w.call(c, "encrypt", text))))

    def judge_enc(x, k, text):
        """What is wrong with the normal form of an encryption."""
        if x[0] != "b64":
            return f"the framing is {x[0]}, not base64"
        x = x[1]
        if x[0] != "enc" or len(x) != 3:
            return f"the content is {str(x)[:200]}, not an encryption"
        ci, x = x[1], x[2]
        if ci[0] != "cipher" or ci[1] != ("AES", k):
            return f"the algorithm is {str(ci[1])[:200]}, not AES with the session key"
        if ci[2] != ("CBC", ("const", b"\0" * 16)):
            return f"the mode is {str(ci[2])[:200]}, not CBC with a zero IV"
        if x[0] != "pad" or x[1] != ("PKCS7", ("const", 128)) or len(x) != 3:
            return f"the padding is {str(x)[:200]}, not PKCS#7 of 128 bit blocks"
        x = x[2]
        if x[0] != "text" or x[1] != "utf-16-le" or x[2] not in ("strict", "surrogatepass"):
            return f"the text is encoded as {str(x)[:200]}, not UTF-16 little endian"
        return None if x[3] == text else f"the text is {str(x[3])[:200]}"

    for key_name in ("session", "other"):
        def encryption(w, key_name=key_name):
            c = w.new("PSRemotingCrypto")
            w.call(c, "register_key", S(key_name, "bytes"))
            w.built = True
            x = enc_form(w, c, S("secret", "str"))
            return [("cipher", "encrypt", judge_form(judge_enc(x, ("arg", key_name), ("arg", "secret")), x))]

        settle("cipher", f"encryption with key {key_name}", encryption)

        def decryption(w, key_name=key_name):
            c = w.new("PSRemotingCrypto")
            w.call(c, "register_key", S(key_name, "bytes"))
            w.built = True
            e = enc_form(w, c, S("secret", "str"))
            x = nf(w.it.term(w.it.prim(w.call(c, "decrypt", S("received", "str")))))
            # the mirror image: untext(unpad(dec(unb64)))
            bad = None
            if x[0] != "untext":
                bad = f"the text is {x[0]}"
            elif e[0] == "b64" and e[1][0] == "enc" and e[1][2][0] == "pad" and e[1][2][2][0] == "text":
                tx = e[1][2][2]
                err = {("strict", "strict"), ("surrogatepass", "surrogatepass"), ("strict", "surrogatepass")}
                want = ("unpad", e[1][2][1], ("dec", e[1][1], ("unb64", ("arg", "received"))))
                if x[1] != tx[1] or (tx[2], x[2]) not in err:
                    bad = f"text is decoded as {x[1:3]}, encoded as {tx[1:3]}"
                elif x[3] != want:
                    bad = f"undoes {str(x[3])[:300]}, done was {str(want)[:300]}"
            return [("mirror", "decrypt", judge_form(bad, e, x))]

        settle("mirror", f"decryption with key {key_name}", decryption)

    def rekey(w):
        c = w.new("PSRemotingCrypto")
        w.call(c, "register_key", S("first", "bytes"))
        w.call(c, "register_key", S("second", "bytes"))
        w.built = True
        out = [("cipher", "encrypt", judge_enc(enc_form(w, c, S("secret", "str")), ("arg", "second"), ("arg", "secret")))]
        d = w.new("PSRemotingCrypto")
        w.call(d, "register_key", S("third", "bytes"))
        out.append(("cipher", "another cipher", judge_enc(enc_form(w, d, S("secret", "str")), ("arg", "third"), ("arg", "secret"))))
        out.append(("cipher", "the first one again", judge_enc(enc_form(w, c, S("again", "str")), ("arg", "second"), ("arg", "again"))))
        return out

    settle("cipher", "keys of several ciphers", rekey)

    def often(w):
        """One cipher for several texts, in turn."""
        c = w.new("PSRemotingCrypto")
        w.call(c, "register_key", S("session", "bytes"))
        w.built = True
        out = []
        for i in range(4):
            out.append(("cipher", f"encryption {i}", judge_enc(enc_form(w, c, S(f"text{i}", "str")), ("arg", "session"), ("arg", f"text{i}"))))
            if i:
                x = nf(w.it.term(w.it.prim(w.call(c, "decrypt", S(f"cipher{i}", "str")))))
                out.append(("mirror", f"decryption {i}", None if has(x, ("arg", f"cipher{i}")) and not has(x, ("arg", f"cipher{i - 1}")) else f"is {str(x)[:200]}"))
        return out

    settle("cipher", "several texts", often)

    for op in ("encrypt", "decrypt"):
        for text in (S("secret", "str"), Const(""), Const("abc")):
            def nokey(w, op=op, text=text):
                c = w.new("PSRemotingCrypto")
                d = w.new("PSRemotingCrypto")
                w.call(d, "register_key", S("session", "bytes"))
                w.built = True
                try:
                    r = w.call(c, op, text)
                except PyRaise as e:
                    n = getattr(e.cls, "name", str(e.cls))
                    return [("missing-key", op, None if n == "MissingCipherError" else f"raises {n}")]
                return [("missing-key", op, f"gives {show(r)[:200]} without a key")]

            settle("missing-key", f"{op} of {show(text)} without a key", nokey)

    def local(w):
        c = w.new("LocalCryptoProvider")
        w.built = True
        e = nf(w.it.term(w.it.prim(w.call(c, "encrypt", S("secret", "str")))))
        x = nf(w.it.term(w.it.prim(w.call(c, "decrypt", S("received", "str")))))
        out = []
        ok = e[0] == "b16" and e[1][0] == "text" and e[1][1] == "utf-16-le" and e[1][3] == ("arg", "secret")
        out.append(("cipher", "local encryption", judge_form(None if ok else f"is {str(e)[:200]}", e)))
        want = [("unb16", ("arg", "received")), ("unb16", ("upper", ("arg", "received")))]
        ok2 = x[0] == "untext" and x[1] == "utf-16-le" and x[3] in want and (not ok or (e[1][2], x[2]) in {("strict", "strict"), ("surrogatepass", "surrogatepass"), ("strict", "surrogatepass")})
        out.append(("mirror", "local decryption", judge_form(None if ok2 else f"is {str(x)[:200]}", x)))
        return out

    settle("mirror", "LocalCryptoProvider", local)

    # ------------------------------------------------------------------ exchanges
    def cipher_of(w, pool):
        cs = [v for v in pool.attrs.values() if isinstance(v, InstV) and v.cls.name == "PSRemotingCrypto"]
        if len({id(c) for c in cs}) != 1:
            raise Unsupported("cipher of the pool")
        return cs[0]

    def key_of(w, pool):
        """The normal form of the key the pool's cipher encrypts with, None without."""
        try:
            x = nf(w.it.term(w.it.prim(w.call(cipher_of(w, pool), "encrypt", S("probe", "str")))))
        except PyRaise:
            return None
        if x[0] == "b64" and x[1][0] == "enc" and x[1][1][1][0] == "AES":
            return x[1][1][1][1]
        raise Unsupported(f"encryption {str(x)[:200]}")

    def pieces(w, x):
        for k in x.walk():
            if k.text is not None:
                yield nf(w.it.term(w.it.prim(k.text)))
            for a in k.attrib.values():
                yield nf(w.it.term(w.it.prim(a)))

    def leaks(w, x, keys, born):
        """Whether a text of the document holds a key outside an encryption of it."""
        def bare(t):
            if isinstance(t, tuple):
                if t in keys:
                    return True
                if t[:1] == ("object",) and t[-1] in born:
                    return True
                if t[:1] == ("rsa_encrypt",):
                    return False
                return any(bare(y) for y in t)
            return False
        return any(bare(t) for t in pieces(w, x))

    def pool_pair(w):
        c, s = pair(w)
        w.built = True
        return c, s

    def exchange(w, c, s, opening, out, tag=""):
        """Everything both sides send until nothing is left."""
        opening()
        seen = []
        for _ in range(4):
            sent = False
            for a, b in ((c, s), (s, c)):
                pls, ms = drain(w, a)
                for m in ms:
                    sent = True
                    x = snap(w.it, m.doc)
                    seen.append((m.name, x))
                if pls:
                    before = key_of(w, c)
                    deliver(w, pls, b)
                    mid = key_of(w, c)
                    out.append(("exchange", f"client key after receiving bytes{tag}", None if mid == before else f"is {mid} before the message is processed"))
                    events(w, b)
                    now = key_of(w, c)
                    if now != before:
                        out.append(("exchange", f"client key comes with the session key message{tag}", None if b is c and any(m.name == "EncryptedSessionKey" for m in ms) else f"changes to {now} on {[m.name for m in ms]}"))
            if not sent:
                return seen
        raise Unsupported("endless exchange")

    def judged(w, c, s, seen, out, n=1):
        ck, sk = key_of(w, c), key_of(w, s)
        if has_op(sk, "?") and not any(n in str(sk) for n in ("uuid.", "random.", "time.", "hashlib.")):
            raise Odd(str(sk)[:100])
        out.append(("fresh", "session key", None if isinstance(sk, tuple) and sk[0] == "urandom" and sk[1] == 32 else f"is {sk}, not 32 bytes of the system source"))
        out.append(("exchange", "same key", None if ck == sk else f"the client has {str(ck)[:200]}, the server {str(sk)[:200]}"))
        born = {k.born for _, _, k in w.keys}
        for name, x in seen:
            out.append(("never-sent", name, "holds a key that is not encrypted" if leaks(w, x, {sk, ck} - {None}, born) else None))
        pk = [x for nm, x in seen if nm == "PublicKey"]
        out.append(("exchange", "public keys sent", None if len(pk) == n else f"{len(pk)} of {n}"))
        import base64
        for x in pk:
            blob = base64.b64encode(HEADER + b"\x01\x00\x01\x00" + list(moduli())[0][1][::-1]).decode()
            ts = [k.text for k in x.walk() if k.text is not None]
            out.append(("exchange", "public key text", None if any(isinstance(t, Const) and t.v == blob for t in ts) else "is not the base64 text of the public key blob"))
        return out

    def by_client(w):
        c, s = pool_pair(w)
        out = [("exchange", "key before", None if key_of(w, c) is None else "the client has a key before any exchange")]
        seen = exchange(w, c, s, lambda: w.call(c, "exchange_key"), out)
        return judged(w, c, s, seen, out)

    def by_server(w):
        c, s = pool_pair(w)
        out = [("exchange", "key before", None if key_of(w, c) is None else "the client has a key before any exchange")]
        seen = exchange(w, c, s, lambda: w.call(s, "request_key"), out)
        return judged(w, c, s, seen, out)

    def both(w):
        c, s = pool_pair(w)
        out = []
        seen = exchange(w, c, s, lambda: (w.call(c, "exchange_key"), w.call(s, "request_key")), out)
        return judged(w, c, s, seen, out)

    def again(w):
        c, s = pool_pair(w)
        out = []
        seen = exchange(w, c, s, lambda: w.call(c, "exchange_key"), out)
        seen += exchange(w, c, s, lambda: (w.call(c, "exchange_key"), w.call(s, "request_key")), out, " again")
        return judged(w, c, s, seen, out)

    for name, b in (("started by the client", by_client), ("asked for by the server", by_server), ("started by both", both), ("repeated", again)):
        settle("exchange", f"exchange {name}", b)

    def two(w):
        c1, s1 = pair(w)
        c2, s2 = pair(w)
        w.built = True
        out = []
        seen = exchange(w, c1, s1, lambda: w.call(c1, "exchange_key"), out)
        out.append(("exchange", "the other client", None if key_of(w, c2) is None else "has a key without an exchange"))
        exchange(w, c2, s2, lambda: w.call(c2, "exchange_key"), out)
        a, b = key_of(w, s1), key_of(w, s2)
        out.append(("fresh", "keys of two servers", None if a != b else "are the same"))
        out.append(("exchange", "first pair", None if key_of(w, c1) == a else "has different keys"))
        out.append(("exchange", "second pair", None if key_of(w, c2) == b else "has different keys"))
        if len(w.keys) == 2:
            out.append(("fresh", "private keys", None if w.keys[0][2] is not w.keys[1][2] else "are the same"))
        else:
            out.append(("fresh", "private keys", f"{len(w.keys)} keys are generated for two exchanges"))
        return out

    settle("exchange", "two pairs", two)

    def unfinished(w):
        c, s = pool_pair(w)
        w.call(c, "exchange_key")
        drain(w, c)
        out = [("exchange", "client key before the answer", None if key_of(w, c) is None else "is registered")]
        return out

    settle("exchange", "unfinished exchange", unfinished)

    def failing(w):
        """The client cannot decrypt what it is sent."""
        c, s = pool_pair(w)
        w.call(c, "exchange_key")
        pls, _ = drain(w, c)
        deliver(w, pls, s)
        events(w, s)
        pls, ms = drain(w, s)
        deliver(w, pls, c)
        w.fail = True
        step(w, c)
        return [("exchange", "key after a failure", None if key_of(w, c) is None else "is registered although the session key cannot be decrypted")]

    def h_fail(it, f, args, kw, node):
        if getattr(it.world, "fail", False):
            it.world.failed = True
            raise PyRaise(Sym("exc", "ValueError"), ExtV("ValueError"), node)
        return None

    base_cfg = cfg

    def settle_fail():
        def decide():
            def go(w):
                start(w)
                w.keys, w.randoms = [], 0
                return failing(w)
            c = base_cfg()
            c.hooks["PrivateKeyStandIn.decrypt"] = h_fail
            ps = chk.seen(run(prog, go, c))
            for p in ps:
                if p.kind == "return" and getattr(p.world, "failed", False):
                    for r, label, b in p.value:
                        chk.need(b is None, r, f"failing exchange: {label}", b, path=p)
                elif p.kind == "return":
                    raise Unsupported("nothing is decrypted")
                elif getattr(p.world, "built", False):
                    chk.bad("exchange", "failing exchange", f"raises {p.exc_name()}", path=p)
        chk.attempt("exchange", "failing exchange", decide)

    settle_fail()

    def unasked(w):
        """A session key nobody asked for."""
        c, s = pool_pair(w)
        m = w.new("EncryptedSessionKey", EncryptedSessionKey=S("unasked", "str"))
        w.call(s, "prepare_message", m)
        pls, _ = drain(w, s)
        deliver(w, pls, c)
        step(w, c)
        return [("exchange", "key nobody asked for", None if key_of(w, c) is None else "is registered")]

    settle("exchange", "session key without an exchange", unasked)
