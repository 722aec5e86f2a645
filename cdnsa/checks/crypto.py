"""What a signature is over, and whom a TLS client trusts."""
from . import check
from .common import *
from .auth import SIGN, VERIFY, SER, own_key, marshal_namespaces

SCHEME = "cdn_proto::crypto::signature::SignatureScheme::"
SERIAL = "cdn_proto::crypto::signature::Serializable::"


def params(prog, path):
    b = prog.bodies[path]
    return [T("param", b.names.get(i, str(i)), b.locals[i][0]) for i in range(1, b.argc + 1)]


def impls(prog, item):
    return [(h, p) for h, p in prog.impl_methods.get(item, ()) if p in prog.bodies and prod([p])]


# ---------------------------------------------------------------- byte strings
def cat(*ts):
    out = []
    for t in ts:
        out += parts(t)
    return T("cat", tuple(out))


def parts(t):
    t = plain(t)
    if t.op == "cat":
        return list(t.args[0])
    if t.op == "lcoll" and not t.args[1]:
        return []
    if t.op == "arr":
        return [y for x in t.args[0] for y in parts(x)] if not all(x.op == "int" for x in t.args[0]) else [t]
    return [t]


def plain(t):
    while True:
        u = V(t)
        if u.op in ("clone", "deref"):
            u = u.args[0]
        if u is t:
            return t
        t = u


class Bytes(Rule):
    """Byte strings are followed as the sequence of the pieces they were put together from."""

    opaque = ()

    def on_call(self, eng, c):
        n = c.path.split("::")[-1]
        if not c.args:
            return None
        vec = c.argtys and ("Vec<u8" in c.argtys[0] or "String" in c.argtys[0] or "BytesMut" in c.argtys[0])
        if vec and n in ("extend_from_slice", "extend", "append", "push_str", "push", "put_slice", "put") and len(c.args) == 2:
            p = self.last(eng, c)
            old = eng.deref(c.st, p)
            new = self.src(eng, c.st, c.args[1])
            eng.write_ptr(c.st, p, cat(old, *new), c.frame, c.block)
            if n == "append":
                eng.write_ptr(c.st, c.args[1], cat(), c.frame, c.block)
            return [(UNIT, c.st)]
        if n in ("concat", "join") and ("slice" in c.path or c.path.startswith(("[", "<["))) and (n == "concat" or plain(eng.strip_ptr(c.st, c.args[1])).op in ("str", "arr")):
            v = plain(eng.strip_ptr(c.st, c.args[0]))
            if v.op in ("arr", "tup"):
                xs = [plain(eng.strip_ptr(c.st, x)) for x in v.args[0]]
                if n == "join":
                    sep = plain(eng.strip_ptr(c.st, c.args[1]))
                    xs = [y for x in xs for y in (sep, x)][1:]
                return [(cat(*xs), c.st)]
        if n in ("chain", "collect") and "iterator::Iterator::" in c.decl:
            its = [self.it(eng, c.st, a) for a in c.args]
            if all(x is not None for x in its) and "u8" in "".join(c.argtys) + c.destty:
                return [(T("iter", cat(*its), (), "val") if n == "chain" else cat(*its), c.st)]
        if n in ("write_all", "write") and vec and len(c.args) == 2:
            p = self.last(eng, c)
            eng.write_ptr(c.st, p, cat(eng.deref(c.st, p), eng.strip_ptr(c.st, c.args[1])), c.frame, c.block)
            return [(T("agg", RESULT, "Ok", 0, (UNIT,)), c.st)]
        return None

    def last(self, eng, c):
        from ..models import _last_ptr

        return _last_ptr(eng, c.st, c.args[0])

    def it(self, eng, st, a):
        """The bytes an iterator yields, when it yields all of them."""
        from ..models import to_iter

        i = to_iter(eng, st, a)
        if i.op == "iter" and all(k[0] == "cloned" for k in i.args[1]):
            return self.whole(eng.strip_ptr(st, i.args[0]))
        return None

    def whole(self, v):
        v = plain(v)
        return plain(v.args[1][0]) if v.op in ("call", "pure") and v.args[0].endswith("str::bytes") else v

    def src(self, eng, st, a):
        v = plain(eng.strip_ptr(st, a))
        if v.op == "iter":
            v = self.it(eng, st, v) or v
        return [self.whole(v)]


def anon(t, subst):
    """A term without the places it was computed at, and with parameters named by their role."""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(anon(x, subst) for x in t)
        return t
    t = plain(t)
    if t in subst:
        return subst[t]
    if t.op == "call":
        return ("call", t.args[0], anon(t.args[1], subst))
    if t.op == "upd":
        return ("upd", anon(t.args[0], subst))
    return (t.op,) + tuple(anon(x, subst) for x in t.args)


def has_sub(x, what):
    if x == what:
        return True
    return isinstance(x, tuple) and any(has_sub(y, what) for y in x)


class Lib(Bytes):
    """Collects the calls of the underlying scheme."""

    def __init__(self, ctx, prog, name, variant="default"):
        super().__init__(ctx, variant)
        self.name = name
        self.seen = []

    def on_call(self, eng, c):
        if c.path not in eng.prog.bodies and c.path.split("::")[-1] == self.name and len(c.args) >= 3:
            a = [plain(eng.strip_ptr(c.st, x)) for x in c.args]
            t = T("call", c.path, tuple(a), (c.frame.id, c.block))
            self.seen.append(t)
            return [(t, c.st)]
        return super().on_call(eng, c)


def lib_call(t, name):
    t = plain(t)
    return t.op == "call" and t.args[0].split("::")[-1] == name and len(t.args[1]) >= 3


def named(ps, kind):
    return next((p for p in ps if kind(p.args[1])), None)


NAMES = ("namespace", "message")


def roles(prog, path, item):
    """The parameters of sign/verify by position, with the values they stand for."""
    ps = params(prog, path)
    vals = ps + [T("deref", p) for p in ps]
    out = {}
    for k, p in enumerate(ps):
        out[p] = out[T("deref", p)] = ("role", item[k])
    return ps, out


SIGN_ROLES = ("private_key", "namespace", "message")
VERIFY_ROLES = ("public_key", "namespace", "message", "signature")


def scheme(ctx, prog):
    signs, verifies = dict(impls(prog, SCHEME + "sign")), dict(impls(prog, SCHEME + "verify"))
    ctx.need(signs and set(signs) == set(verifies), "an implementation of the signature scheme")
    layouts = []
    for h in sorted(signs):
        if h not in verifies:
            continue
        # signing
        ps, sub = roles(prog, signs[h], SIGN_ROLES)
        ck = Lib(ctx, prog, "sign")
        outs = ctx.run(signs[h], ck)
        w = signs[h]
        forms = set()
        sers = set()
        for v, st in outs:
            r = variant_of(st, V(v))
            if r == frozenset(["Err"]):
                continue
            cs = [c for c in ck.seen if variant_of(st, c) == frozenset(["Ok"]) or has_term(v, c) or any(has_term(k, c) for k in st.facts)]
            ctx.ob("signed-by-the-scheme", len(set(cs)) == 1, w, "a signature is returned that the scheme did not make")
            for c in cs:
                pa = [x for x in c.args[1]]
                ctx.ob("signed-with-the-key-given", any(sub.get(x) == ("role", "private_key") for x in pa), w, "a message is signed with a key other than the one given")
        for c in ck.seen:
            m = message_arg(c.args[1], sub)
            ctx.ob("namespace-and-message-are-signed", m is not None, w, "what is signed does not contain both the namespace and the message")
            if m is not None:
                forms.add(m)
        ctx.ob("one-layout", len(forms) == 1, w, "what is signed depends on more than the namespace and the message")
        # verifying
        w = verifies[h]
        ps, vsub = roles(prog, verifies[h], VERIFY_ROLES)
        ck2 = Lib(ctx, prog, "verify")
        outs = ctx.run(verifies[h], ck2)
        eng = ctx.last
        ctx.need(ck2.seen, "the verification of a signature")
        for c in ck2.seen:
            m = message_arg(c.args[1], vsub)
            ctx.ob("verified-as-signed", m is not None and m in forms, w, "a signature is verified over something other than what is signed")
            ctx.ob("verified-with-the-key-given", any(vsub.get(x) == ("role", "public_key") for x in c.args[1]), w, "a signature is verified with a key other than the one given")
            ctx.ob("the-signature-given-is-verified", any(has_sub(anon(x, vsub), ("role", "signature")) and not has_sub(anon(x, vsub), ("role", "message")) for x in c.args[1]), w, "what is verified is not the signature given")
        n = 0
        for v, st in outs:
            v = V(v)
            s = st.copy()
            if eng.assume(s, v, True):
                n += 1
                good = [k for k, f in s.facts.items() if f == ("V", frozenset(["Ok"])) and lib_call(k, "verify")]
                ctx.ob("accepted-only-if-verified", good, w, "a signature is accepted that did not verify")
            s = st.copy()
            if eng.assume(s, v, False):
                bad = [k for k, f in s.facts.items() if f == ("V", frozenset(["Err"]))]
                ctx.ob("refused-only-if-it-fails", bad, w, "a signature is refused that verified")
        ctx.need(n, "a way to accept a signature")
        layouts += forms
    return layouts


def has_term(t, c):
    return isinstance(t, T) and any(x is c for x in walk(t))


def message_arg(args, sub):
    """The layout of the argument that holds the message."""
    for x in args:
        f = tuple(anon(p, sub) for p in parts(x))
        if ("role", "message") in f and ("role", "namespace") in f:
            return f
    return None


def domains(ctx, prog, layouts):
    """The namespaces can't be confused with each other, whatever message follows."""
    ns = set()
    n = 0
    for p in prod(sorted(prog.bodies)):
        b = prog.bodies[p]
        if b.raw.get("argc", b.argc) == 1 and b.locals[0][0] in ("&str", "&'static str") and "signature::Namespace" in b.locals[1][0]:
            for v, st in ctx.run(p, Bytes(ctx)):
                s = const_str(v)
                n += 1
                ctx.ob("a-namespace-is-a-constant", s is not None, p, "a namespace is not a constant")
                ns.add(s)
    uses = set()
    g = ctx.graph()
    for r in roots_of(g, SIGN, VERIFY):
        class Site(Rule):
            events = (SIGN, VERIFY)

            def on_call(self, eng, c):
                if c.matches(SIGN, VERIFY):
                    s = const_str(plain(eng.strip_ptr(c.st, c.args[1])))
                    ctx.ob("a-namespace-is-a-constant", s is not None, c.where(), "a namespace is not a constant")
                    uses.add(s)
                return None

        ctx.run(r, Site(ctx))
    ctx.need(len(uses) >= 2, "the uses of the namespaces")
    allns = sorted(x for x in ns | uses if x is not None)
    ctx.ob("namespaces-are-distinct", n == 0 or n == len(ns), "signature domains", "two kinds of login share a namespace")
    for f in layouts:
        pos = [k for k, x in enumerate(f) if x == ("role", "namespace")]
        msg = [k for k, x in enumerate(f) if has_sub(x, ("role", "message"))]
        if len(pos) != 1 or len(msg) != 1:
            continue
        if len(f) > 2:
            continue
        front = pos[0] < msg[0]
        for a in allns:
            for b in allns:
                if a != b:
                    clash = b.startswith(a) if front else b.endswith(a)
                    ctx.ob("namespaces-can't-be-confused", not clash, "signature domains", f"a message signed for {a!r} can be one signed for {b!r}")


def encodings(ctx, prog):
    """What is sent of keys and signatures is read back the same way, and is validated."""
    pairs = []
    for h, p in impls(prog, SERIAL + "serialize"):
        q = dict(impls(prog, SERIAL + "deserialize")).get(h)
        ctx.need(q, "the decoding of " + h)
        if q:
            pairs.append((p, q, "a key"))
    s, v = dict(impls(prog, SCHEME + "sign")), dict(impls(prog, SCHEME + "verify"))
    for h in s:
        if h in v:
            pairs.append((s[h], v[h], "a signature"))
    for p, q, what in pairs:
        a, b = ark(ctx, p), ark(ctx, q)
        ctx.need(a and b, f"the encoding and decoding of {what}")
        ctx.ob("validated", all(x[1] for x in b), q, f"{what} is decoded without being checked")
        ctx.ob("read-as-written", len({x[0] for x in a | b}) == 1, q, f"{what} is written and read in different forms")
    for b, i, f, t in ctx.graph().calls("CanonicalDeserialize::deserialize_uncompressed_unchecked", "CanonicalDeserialize::deserialize_compressed_unchecked"):
        if prod([b.path]):
            ctx.ob("validated", False, b.path, "a key or a signature is decoded without being checked")


def ark(ctx, root):
    """{(form, checked)} of the encodings and decodings a function uses."""
    out = set()

    class Codec(Bytes):
        def on_call(self, eng, c):
            if c.matches("CanonicalDeserialize::deserialize_with_mode", "CanonicalSerialize::serialize_with_mode"):
                m = [V(eng.strip_ptr(c.st, x)) for x in c.args[1:]]
                m = [x.args[1] for x in m if x.op == "agg"]
                out.add(("uncompressed" if "No" in m[:1] or m[-2:-1] == ["No"] else "compressed", "deserialize" not in c.path or m[-1:] == ["Yes"]))
            else:
                n = c.decl.split("::")[-1]
                for k in ("serialize_", "deserialize_"):
                    if n.startswith(k) and ("CanonicalSerialize::" in c.decl or "CanonicalDeserialize::" in c.decl):
                        n = n[len(k):]
                        out.add((n.replace("_unchecked", ""), not n.endswith("_unchecked")))
            return super().on_call(eng, c)

    ctx.run(root, Codec(ctx))
    return out


class UserLogin(Rule):
    """What the client sends to the marshal to prove who it is."""

    events = ("Connection::send_message", SIGN)

    def __init__(self, ctx, variant="default"):
        super().__init__(ctx, variant)
        self.n = 0
        self.ns = set()

    def on_await(self, eng, st, fut, frame, block):
        s = sent(fut)
        key = key_msg(s[1], "AuthenticateWithKey") if s else None
        if key is None:
            return None
        self.n += 1
        w = site(frame, block)
        sg, ts, pk = (agg_field(self.prog, key, k) for k in ("signature", "timestamp", "public_key"))
        c, vs = okval(sg)
        good = is_call(c, SIGN) and vs == ["Ok"]
        self.ctx.ob("the-login-is-signed", good, w, "the client's login carries something other than a signature: " + show(sg)[:80])
        if good:
            a = [V(x) for x in c.args[1]]
            m = a[2]
            self.ns.add(const_str(a[1]))
            self.ctx.ob("signed-with-its-key", own_key(a[0], "private_key"), w, "the client does not sign its login with its own key")
            self.ctx.ob("signs-the-timestamp-it-sends", m.op == "pure" and m.args[0].endswith("u64::to_le_bytes") and V(m.args[1][0]) is V(ts), w, "the client signs something other than the timestamp it sends")
        self.ctx.ob("sends-the-current-time", now_secs(ts), w, "the client's login does not carry the current time: " + show(ts)[:80])
        k, kv = okval(pk)
        self.ctx.ob("sends-its-key", is_call(k, SER) and own_key(V(k.args[1][0]), "public_key"), w, "the client's login does not carry its own public key")


def client_login(ctx):
    g = ctx.graph()
    roots = [r for r in roots_of(g, SIGN) if r.startswith("cdn_client::")]
    ctx.need(roots, "the client's login")
    n, ns = 0, set()
    for r in roots:
        ck = UserLogin(ctx)
        ctx.run(r, ck)
        n += ck.n
        ns |= ck.ns
    ctx.need(n, "the login message of the client")
    m = marshal_namespaces(ctx)
    ctx.ob("the-marshal-expects-it", ns == m and len(ns) == 1, "the client's login", f"the client signs for {sorted(map(str, ns))} and the marshal verifies for {sorted(map(str, m))}")


@check("C31", "dataflow over MIR: what the pieces of a signed byte string are, which library verdict decides, which encodings are used")
def c31(ctx):
    prog = ctx.prog()
    layouts = scheme(ctx, prog)
    domains(ctx, prog, layouts)
    encodings(ctx, prog)
    client_login(ctx)


# ---------------------------------------------------------------- TLS
PROTOCOL = "cdn_proto::connection::protocols::Protocol::"
FINAL = "cdn_proto::connection::protocols::UnfinalizedConnection::finalize"
ROOTS = ("ConfigBuilder::with_root_certificates", "ClientConfig::with_root_certificates")
HANDSHAKE = ("TlsConnector::connect", "Endpoint::connect", "Endpoint::connect_with", "TlsConnector::connect_with")
SERVER = ("TlsAcceptor::accept", "TlsAcceptor::accept_with", "LazyConfigAcceptor::new")
BYPASS = ("ClientConfig::dangerous", "DangerousClientConfig::set_certificate_verifier", "DangerousClientConfigBuilder::with_custom_certificate_verifier", "ConfigBuilder::dangerous", "ClientConfig::with_platform_verifier", "Connecting::into_0rtt")


def statics(t):
    return {x.args[0] for x in walk(t) if x.op == "static"}


def strings(t):
    return {x.args[0] for x in walk(t) if x.op == "str"}


class Trust(Rule):
    """Marks: ("root", store, certificate), ("default", configuration)."""

    opaque = ("Connection::from_streams",)
    aut_live = True

    def __init__(self, ctx, flag, variant="default"):
        super().__init__(ctx, variant)
        self.flag = flag
        self.trust = {}  # flag -> statics
        self.names = set()
        self.n = {}

    def count(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def add(self, st, *m):
        st.aut = (st.aut or ()) + (m,)

    def stem(self, t):
        """A value without the changes made to it."""
        t = plain(t)
        while t.op in ("upd", "mod"):
            t = plain(t.args[0])
        return t

    def on_call(self, eng, c):
        ob = self.ctx.ob
        val = lambda k: plain(eng.strip_ptr(c.st, c.args[k]))
        n = c.path.split("::")[-1]
        if "RootCertStore::" in c.path and n in ("add", "add_parsable_certificates") or n == "extend" and c.argtys and "RootCertStore" in c.argtys[0]:
            self.add(c.st, "root", self.stem(val(0)), val(1))
            if n == "add":
                return [(ok_(UNIT), c.st), (T("agg", RESULT, "Err", 1, (T("sym", "add", c.frame.id),)), c.st.copy())]
            return [(T("tup", (T("sym", "added"), T("sym", "ignored"))) if n != "extend" else UNIT, c.st)]
        if c.matches(*ROOTS):
            self.count("roots")
            store = self.stem(val(len(c.args) - 1))
            w = c.where()
            ob("trusts-an-own-store", is_call(store, "RootCertStore::empty"), w, "a client trusts certificates other than the ones added to an empty store: " + show(store)[:100])
            added = [m for m in c.st.aut or () if m[0] == "root" and m[1] is store]
            ob("trusts-one-authority", len(added) == 1 and len(statics(added[0][2])) == 1, w, f"a client trusts {len(added)} authorities")
            f = True if holds(c.st, self.flag, True) else False if holds(c.st, self.flag, False) else None
            for m in added:
                self.trust.setdefault(f, set()).update(statics(m[2]))
        if n == "set_default_client_config":
            c.st.aut = tuple(m for m in c.st.aut or () if m[0] != "default")
            self.add(c.st, "default", val(1))
            return [(UNIT, c.st)]
        if c.path not in eng.prog.bodies and c.matches(*HANDSHAKE):
            self.count("handshake")
            w = c.where()
            if "Endpoint" in c.path and n == "connect":
                cfg = next((m[1] for m in c.st.aut or () if m[0] == "default"), None)
                name = val(2)
            elif "Endpoint" in c.path:
                cfg, name = val(1), val(3)
            else:
                cfg, name = val(0), val(1)
            good = cfg is not None and any(is_call(x, *ROOTS) for x in walk(cfg))
            ob("uses-its-trust", good, w, "a handshake does not use the configuration with the authority that was selected")
            ns = strings(name)
            ob("expects-a-fixed-name", len(ns) == 1 and not any(x.op == "param" for x in walk(name)), w, "the name expected of the server is not fixed: " + show(name)[:80])
            self.names |= ns
        if c.matches("Connection::from_streams"):
            self.count("streams")
            for k in (0, 1):
                v = val(k)
                t = any(x.op == "call" and (any(path_is(x.args[0], h) for h in HANDSHAKE + SERVER) or "Incoming" in repr(x.args[0])) or x.op == "out" for x in walk(v))
                ob("talks-through-tls", t, c.where(), "a connection is made of a stream that the handshake was not done on")
        return None


def tls(ctx, prog):
    g = ctx.graph()
    for b, i, f, t in g.calls(*BYPASS):
        if prod([b.path]):
            ctx.ob("verification-is-not-bypassed", False, b.path, "the verification of server certificates is replaced")
    for i in prog.impls:
        if i["trait"] and "ServerCertVerifier" in i["trait"]:
            ctx.ob("verification-is-not-bypassed", False, i["self_head"], "the verification of server certificates is replaced")
    ctx.ob("verification-is-not-bypassed", True, "workspace", "")
    names = set()
    trust = {}
    secure = []
    for h, p in impls(prog, PROTOCOL + "connect"):
        if not any(b in g.reach([p]) for b in {b.path for b, _, _, _ in g.calls(*ROOTS, *HANDSHAKE)}):
            continue
        ps = params(prog, p)
        flag = named(ps, lambda t: t == "bool")
        ctx.need(flag is not None, "the choice of the authority of " + h)
        ck = Trust(ctx, flag)
        ctx.run(p, ck)
        for k in ("roots", "handshake", "streams"):
            ctx.need(ck.n.get(k), f"{k} of {h}")
        names |= ck.names
        secure.append(h)
        for k, v in ck.trust.items():
            trust.setdefault(k, set()).update(v)
            ctx.ob("the-flag-selects-the-authority", k is not None and len(v) == 1, p, f"the authority is not selected by the flag: {sorted(v)}")
        ctx.ob("the-flag-selects-the-authority", set(ck.trust) == {True, False} and ck.trust[True] != ck.trust[False], p, "the flag makes no difference to who is trusted")
    ctx.need(len(secure) >= 2, "the transports over TLS")
    for h, p in impls(prog, FINAL):
        if "tls" in p:
            ck = Trust(ctx, None)
            ctx.run(p, ck)
            ctx.need(ck.n.get("streams"), "the server's side of " + h)
    return names, trust, secure


def certificates(ctx, prog, names, trust):
    """The certificates that servers make."""
    g = ctx.graph()
    made = {b.path for b, i, f, t in g.calls("CertificateParams::self_signed", "CertificateParams::signed_by") if prod([b.path])}
    gen = [p for p in sorted(g.callers(made)) if p in prog.bodies and prog.bodies[p].argc == 2 and prog.bodies[p].kind != "Closure" and "CertificateDer" in prog.bodies[p].locals[0][0]]
    ctx.need(gen, "the making of certificates")
    for p in gen:
        ps = params(prog, p)
        own = lambda v, q: any(x is q for x in walk(v))
        n = 0
        for v, st in ctx.run(p, Bytes(ctx)):
            v = V(v)
            if v.op != "agg" or v.args[1] != "Ok":
                continue
            n += 1
            r = V(v.args[3][0])
            cert, key = r.args[0] if r.op == "tup" else (None, None)
            call = next((x for x in walk(cert) if x.op == "call" and x.args[0].split("::")[-1] in ("self_signed", "signed_by")), None)
            ctx.ob("signed-with-the-authority", call is not None and any(own(a, ps[1]) for a in call.args[1][1:]), p, "a certificate is not signed with the key of the authority")
            if call is None:
                continue
            pr = call.args[1][0]
            ctx.ob("for-the-expected-name", strings(pr) & names == names and len(names) == 1, p, f"certificates are for {sorted(strings(pr))} while clients expect {sorted(names)}")
            ctx.ob("not-an-authority", any(x.op == "agg" and x.args[1] in ("ExplicitNoCa", "NoCa") for x in walk(pr)), p, "a server's certificate could be used as an authority")
            kp = [x for x in walk(key) if x.op == "call" and own(x, ps[1])]
            ctx.ob("with-its-own-key", kp, p, "a certificate comes with a key that is not its own")
        ctx.need(n, "a certificate")
    # what the authority is
    load = [p for p in prod(sorted(prog.bodies)) if path_is(p, "tls::load_ca")] or [p for p in prod(sorted(prog.bodies)) if prog.bodies[p].argc == 2 and "Result<(alloc::string::String, alloc::string::String)" in prog.bodies[p].locals[0][0]]
    ctx.need(load, "the loading of the authority")
    for p in load:
        ps = params(prog, p)
        n = 0
        for v, st in ctx.run(p, Bytes(ctx)):
            v = V(v)
            if v.op != "agg" or v.args[1] != "Ok":
                continue
            n += 1
            c, k = V(v.args[3][0]).args[0]
            if any(x is ps[0] for x in walk(c)) or any(x is ps[1] for x in walk(k)):
                good = any(x is ps[0] for x in walk(c)) and any(x is ps[1] for x in walk(k)) and not any(x is ps[1] for x in walk(c)) and not any(x is ps[0] for x in walk(k))
                ctx.ob("certificate-and-key-belong-together", good, p, "the certificate of one authority is used with the key of another")
            else:
                none = any(variant_of(st, q) == frozenset(["None"]) for q in ps)
                ctx.ob("the-authority-given-is-used", none, p, "the authority that was given is not used")
                ctx.ob("local-means-local", statics(c) == trust.get(True), p, "servers without an authority of their own do not use the one that clients trust then")
        ctx.need(n >= 2, "both authorities")


class Dial(Rule):
    events = ("Protocol::connect",)

    def __init__(self, ctx, field, variant="default"):
        super().__init__(ctx, variant)
        self.field = field
        self.n = 0

    def _inline(self, path):
        return False if path_is(path, "Protocol::connect") else super()._inline(path)

    def on_call(self, eng, c):
        if c.matches("Protocol::connect"):
            self.n += 1
            for a, ty in zip(c.args, c.argtys):
                if ty == "bool":
                    v = plain(eng.strip_ptr(c.st, a))
                    r, fs = fields(v)
                    self.ctx.ob("dials-as-configured", fs and fs[-1][1] == self.field, c.where(), "the client does not trust whom it was configured to trust: " + show(v)[:80])
        return None


def configured(ctx, prog):
    from .client import Anatomy

    a = Anatomy(ctx)
    if not a.state:
        return
    bools = [f[0] for f in a.fs if f[1] == "bool"]
    ctx.need(len(bools) == 1, "the client's choice of the authority")
    if not bools:
        return
    n = 0
    for r in roots_of(a.g, "Protocol::connect"):
        if r.startswith("cdn_client::"):
            ck = Dial(ctx, bools[0])
            ctx.run(r, ck)
            n += ck.n
    ctx.need(n >= 2, "the client's dials")
    # and the state takes it from the configuration
    made = 0
    for p in a.fns:
        for v, st in ctx.run(p, Rule(ctx)) if "Config" in str([l[0] for l in prog.bodies[p].locals[1:1 + prog.bodies[p].argc]]) else ():
            for x in walk(v):
                if x.op == "agg" and x.args[0] == a.state:
                    made += 1
                    f = agg_field(prog, x, bools[0])
                    r, fs = fields(f)
                    ctx.ob("keeps-what-was-configured", r.op == "param" and fs and fs[-1][1] == bools[0], p, "the client is not set up with the authority that was configured: " + show(f)[:80])
    ctx.need(made, "the making of the client's state")


def ok_(t):
    return T("agg", RESULT, "Ok", 0, (t,))


@check("C25", "dataflow over MIR: which roots of trust, server name and stream reach each TLS handshake; which keys and names reach each certificate")
def c25(ctx):
    prog = ctx.prog()
    names, trust, secure = tls(ctx, prog)
    ctx.ob("one-name", len(names) == 1, "workspace", f"the transports expect different names: {sorted(names)}")
    certificates(ctx, prog, names, trust)
    configured(ctx, prog)
    production(ctx, prog, secure)


def production(ctx, prog, secure):
    """What the run definition of the binaries makes users connect over."""
    types = {(i["self"], i["trait"]): dict(i.get("types", ())) for i in prog.impls if i["trait"]}
    runs = [(s, t) for (s, tr), t in types.items() if tr.endswith("def::RunDef") and "param:" not in s]
    ctx.need(runs, "the run definition of the binaries")
    users = set()
    for s, t in runs:
        c = next((x for (s2, tr), x in types.items() if s2 == t.get("User") and tr.endswith("def::ConnectionDef")), {})
        users.add(c.get("Protocol"))
        ctx.ob("users-connect-over-tls", c.get("Protocol") in secure, s, f"users connect over {c.get('Protocol')}, where nobody proves who the server is")
    # a definition for clients speaks the protocol of a run definition
    for (s, tr), t in types.items():
        if tr.endswith("def::ConnectionDef") and "Client" in s and "param:" not in s:
            ctx.ob("clients-speak-what-servers-do", t.get("Protocol") in users, s, "clients use a transport that no server listens on")
