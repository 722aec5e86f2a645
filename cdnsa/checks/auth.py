"""Authentication: marshal admission, permits, broker admission, mutual broker authentication, response codes, deadlines."""
from . import check
from .common import *

ISSUE = "DiscoveryClient::issue_permit"
VALIDATE = "DiscoveryClient::validate_permit"
WHITELIST = "DiscoveryClient::check_whitelist"
LEAST = "DiscoveryClient::get_with_least_connections"
VERIFY = "SignatureScheme::verify"
SIGN = "SignatureScheme::sign"
DESER = "Serializable::deserialize"
SER = "Serializable::serialize"
AUTH_EVENTS = CONN_API + (ISSUE, VALIDATE, WHITELIST, LEAST, VERIFY, SIGN, DESER, SER, "SystemTime::now")


def key_of(t):
    """(connection, message recv) when t is the verified-key term: deserialize(msg.public_key)<Ok>."""
    c, vs = okval(t)
    if is_call(c, DESER) and vs == ["Ok"]:
        r = received(c.args[1][0])
        if r and r[1] == "AuthenticateWithKey" and r[2] == ("public_key",):
            return r[0]
    return None


def verified(st, recv, pk):
    """Namespaces under which pk's signature of recv's own timestamp, carried by recv itself, verified on this path."""
    out = []
    for c in true_calls(st, VERIFY):
        a = [V(x) for x in c.args[1]]
        if a[0] is not pk:
            continue
        m = a[2]
        if not (m.op == "pure" and m.args[0].endswith("u64::to_le_bytes")):
            continue
        ts, sg = received(m.args[1][0]), received(a[3])
        if ts and sg and ts[0] is recv and sg[0] is recv and ts[1:] == ("AuthenticateWithKey", ("timestamp",)) and sg[1:] == ("AuthenticateWithKey", ("signature",)):
            out.append((const_str(a[1]), V(m.args[1][0])))
    return out


def signed_namespaces(ctx, g, rule_ctx=None):
    return g.calls(SIGN)


class MarshalRule(Rule):
    """Marks: what this session already did."""

    events = AUTH_EVENTS

    def __init__(self, ctx, what, variant):
        super().__init__(ctx, variant)
        self.what = what
        self.ns = set()

    def mark(self, st, x):
        st.aut = (st.aut or ()) + (x,) if x not in (st.aut or ()) else st.aut

    def on_call(self, eng, c):
        if c.matches("SystemTime::now"):
            # a clock that was read before the message arrived proves nothing about its age
            late = "recv" in (c.st.aut or ())
            t = T("call", c.path, (mkbool(late),), (c.frame.id, c.block))
            eng.make_stale(c.st, t)
            return [(t, c.st)]
        return None

    def on_await(self, eng, st, fut, frame, block):
        w = site(frame, block)
        a = st.aut or ()
        if is_call(fut, *RECV):
            if "recv" in a:
                self.mark(st, "recv2")
            self.mark(st, "recv")
            return None
        if is_call(fut, ISSUE):
            self.issue(eng, st, fut, w)
            if "issued" in a:
                self.mark(st, "issued2")
            self.mark(st, "issued")
        s = sent(fut)
        if s:
            self.reply(eng, st, s, w, fut)
        return None

    def issue(self, eng, st, fut, w):
        ctx, what = self.ctx, self.what
        args = [V(x) for x in fut.args[1]]
        key = args[-1]
        exp = args[-2]
        broker = args[1] if len(args) == 4 else None
        c, vs = okval(key)
        pk = V(c.args[1][0]) if is_call(c, SER) and vs == ["Ok"] else None
        recv = key_of(pk) if pk is not None else None
        if "C02" == what:
            ctx.ob("permit-bound-to-verified-key", recv is not None, w, "the permit is not issued for the canonical form of the key the client authenticated with: " + show(key))
            if broker is not None:
                b, bv = okval(broker)
                ctx.ob("permit-for-selected-broker", is_call(b, LEAST) and bv == ["Ok"], w, "the permit is not issued for the selected broker: " + show(broker))
            ctx.ob("permit-expiry", exp.op == "dur" and 0 < exp.args[0] <= 30000, w, "the permit does not expire within 30 seconds: " + show(exp))
            ctx.ob("one-permit-per-login", "issued" not in (st.aut or ()), w, "more than one permit can be issued for one login")
            return
        # C01: judged from the message the key came from; without one nothing is established
        if recv is None:
            cand = [k for k in st.facts if key_of(k) is not None]
            recv = key_of(cand[0]) if cand else None
            if pk is None and cand:
                pk = cand[0]
        vs = []
        for k in list(st.facts):
            if is_call(k, VERIFY) and st.facts[k] == ("B", True):
                p = V(k.args[1][0])
                r = key_of(p)
                if r is not None:
                    for n, ts in verified(st, r, p):
                        vs.append((n, ts, r, p))
        good = [x for x in vs if pk is None or x[3] is pk]
        ctx.ob("signature-verified", bool(good), w, "a permit can be issued although no signature by the presented key over its own timestamp was verified")
        for n, ts, r, p in good:
            self.ns.add(n)
            b, f = fresh_facts(st, ts, 5)
            ctx.ob("timestamp-recent", b, w, "a permit can be issued for a timestamp older than five seconds")
            ctx.ob("timestamp-not-in-the-future", f, w, "a permit can be issued for a timestamp in the future")
            reads = [x for k in st.facts for x in now_reads(k)] + [x for k in st.rel for y in k for x in now_reads(y)]
            ctx.ob("clock-read-after-message", all(x.args[1] and x.args[1][0] is TRUE or is_call(x, "SystemTime::elapsed") for x in reads), w, "the age is judged by a clock that was read before the message arrived")
        wl = [c for c in true_calls(st, WHITELIST)]
        ctx.ob("whitelisted", any(V(c.args[1][1]) is key for c in wl), w, "a permit can be issued for a key whose whitelist status was not positively checked: " + show(key))

    def reply(self, eng, st, s, w, fut):
        ctx = self.ctx
        conn, m = s
        r = resp(m)
        if r is None:
            if self.what == "C06":
                x = message(m)
                ctx.ob("marshal-sends-only-responses", x is not None and x[0] == "AuthenticateResponse", w, "the marshal sends something other than a response: " + show(m))
            return
        permit, context = r
        p, pv = okval(permit)
        is_issued = is_call(p, ISSUE) and pv == ["Ok"]
        lo, hi = int_bounds(st, permit)
        if self.what == "C01":
            ctx.ob("no-permit-without-admission", is_issued or hi == 0, w, "a response may carry a permit that was not issued to this client: " + show(permit))
        if self.what == "C02" and is_issued:
            b = V(p.args[1][1]) if len(p.args[1]) == 4 else None
            rt, fs = fields(context)
            if b is not None:
                ctx.ob("endpoint-of-permit-broker", context.op == "fld" and V(context.args[0]) is b and fs[-1][1] == "public_advertise_endpoint", w, "the response does not name the public endpoint of the broker the permit is for: " + show(context))
            else:
                base, bv = okval(V(context.args[0])) if context.op == "fld" else (context, [])
                ctx.ob("endpoint-of-selected-broker", is_call(base, LEAST) and fs[-1][1] == "public_advertise_endpoint", w, "the response does not name the selected broker's public endpoint: " + show(context))
            k, kv = okval(p.args[1][-1])
            rc = key_of(V(k.args[1][0])) if is_call(k, SER) else None
            ctx.ob("permit-to-its-owner", rc is not None and recv_conn(rc) is conn, w, "the permit is sent to a connection other than the one that authenticated")
        if self.what == "C06":
            if is_issued:
                self.mark(st, "granted")
            else:
                ctx.ob("marshal-rejection-code", hi == 0, w, "a rejection carries a code other than 0: " + show(permit))
                self.mark(st, "rejected")

    def exits(self, outs, root):
        if self.what != "C06":
            return
        for v, st in outs:
            a = st.aut or ()
            if "recv2" in a:
                continue
            ok_ = "granted" in a or "rejected" in a
            self.ctx.ob("marshal-answers", ok_ or "recv" not in a or self.recv_failed(st), "end of " + root, "a client that sent a login can be left without any response")
            self.ctx.ob("marshal-one-answer", not ("granted" in a and "rejected" in a), "end of " + root, "a client can be both granted a permit and rejected")

    def recv_failed(self, st):
        for k, f in st.facts.items():
            if is_call(k, *RECV) and f[0] == "V" and f[1] == frozenset(["Err"]):
                return True
        return False


def marshal(ctx, what, variants=("default",)):
    ns = set()
    for v in variants:
        g = ctx.graph(v)
        roots = roots_of(g, ISSUE)
        ctx.need(roots, f"a task that issues permits ({v})")
        for r in roots:
            ck = MarshalRule(ctx, what, v)
            outs = ctx.run(r, ck, v)
            ck.exits(outs, r)
            ns |= ck.ns
    return ns


@check("C01", "path-sensitive typestate dataflow over MIR: every path to the permit-issuing call must have established verification, freshness and whitelisting of the same key")
def c01(ctx):
    vs = ("default", "global-permits")
    marshal(ctx, "C01", vs)


@check("C02", "provenance dataflow over MIR: the operands of the permit-issuing call and of the granted response")
def c02(ctx):
    marshal(ctx, "C02", ("default", "global-permits"))


# ---------------------------------------------------------------- broker: users
def inserts(g, which, how=MAP_INSERT):
    """Bodies that put a session into a session table (or take one out of it)."""
    out = []
    for b, i, f, t in g.calls(*how):
        if session_map(g.prog, t[7][0] if t[7] else "") == which:
            out.append(b.path)
    return prod(out)


def own_identity(t):
    """The broker's own identifier: a field of its long-lived state, not something a peer sent."""
    t = V(t)
    root, fs = fields(t)
    return t.op == "fld" and str(t.args[3]) == "identity" and root.op in ("param", "deref") and received(t) is None


class UserAdmit(Rule):
    events = AUTH_EVENTS

    def __init__(self, ctx, what, variant):
        self.which = "user"
        super().__init__(ctx, variant)
        self.what = what
        self.variant = variant

    def extra_sinks(self, g):
        return inserts(g, self.which)

    def mark(self, st, x):
        a = st.aut or ()
        if x not in a:
            st.aut = a + (x,)

    def on_call(self, eng, c):
        if c.matches(*MAP_INSERT) and session_map(eng.prog, c.argtys[0]) == "user":
            self.insert(eng, c)
            return []
        if c.matches(*MAP_ENTRY) and session_map(eng.prog, c.argtys[0]) == "user":
            self.ctx.violate("session-entry", "a session table is changed in a way the rule does not follow", c.where())
        return None

    def insert(self, eng, c):
        if self.what != "C03":
            return
        ctx, st, w = self.ctx, c.st, c.where()
        key = V(c.args[1])
        k, vs = okval(key)
        good = is_call(k, VALIDATE) and vs == ["Some", "Ok"]
        ctx.ob("session-needs-permit", good, w, "a user session can be registered under a key that no validated permit returned: " + show(key))
        if not good:
            return
        a = [V(x) for x in k.args[1]]
        r = received(a[-1])
        okp = r is not None and r[1] == "AuthenticateWithPermit" and r[2] == ("permit",)
        ctx.ob("permit-from-peer", okp, w, "the validated permit is not the one the client presented: " + show(a[-1]))
        if self.variant == "default":
            ctx.ob("permit-for-this-broker", len(a) == 3 and own_identity(a[1]), w, "the permit is not validated for this broker's own identity: " + show(a[1]))
        if not okp:
            return
        conn = recv_conn(r[0])
        cs = conn_in(c.args[2])
        ctx.ob("session-on-authenticated-connection", conn in cs, w, "the registered connection is not the one that presented the permit: " + show(V(c.args[2])))
        ctx.ob("key-well-formed", self.deser_ok(st, key), w, "the key of a registered session may be malformed")
        sub = False
        for t, f in st.facts.items():
            if f[0] == "V" and f[1] == frozenset(["Subscribe"]):
                x = received(t)
                if x and recv_conn(x[0]) is conn and x[0] is not r[0]:
                    sub = True
        ctx.ob("subscriptions-announced", sub, w, "a session can be registered without the client's initial subscriptions")
        ctx.ob("success-reported-first", ("ok", conn) in (st.aut or ()), w, "a session can be registered without telling the client that it was admitted")

    def deser_ok(self, st, key):
        for t, f in st.facts.items():
            if is_call(t, DESER) and f == ("V", frozenset(["Ok"])) and V(t.args[1][0]) is key:
                return True
        return False

    def on_await(self, eng, st, fut, frame, block):
        s = sent(fut)
        if s:
            self.reply(eng, st, s, site(frame, block))

    def reply(self, eng, st, s, w):
        conn, m = s
        r = resp(m)
        if r is None:
            return
        permit, context = r
        lo, hi = int_bounds(st, permit)
        if hi == 0:
            if self.what == "C06":
                self.ctx.ob("broker-rejection-code", True, w)
            return
        if self.what == "C06":
            self.ctx.ob("broker-success-code", (lo, hi) == (1, 1), w, "a broker's response carries a code other than 0 or 1: " + show(permit))
        v = self.validated(st, conn)
        if self.what == "C03":
            self.ctx.ob("success-needs-permit", v, w, "a client can be told it was admitted without a validated permit")
        self.mark(st, ("ok", conn))

    def validated(self, st, conn):
        for t, f in st.facts.items():
            if f == ("V", frozenset(["Some"])):
                k, vs = okval(t)
                if is_call(k, VALIDATE) and vs == ["Ok"]:
                    r = received(k.args[1][-1])
                    if r and recv_conn(r[0]) is conn:
                        return True
        return False


@check("C03", "path-sensitive typestate dataflow over MIR: every path to the insertion into the user session table must have consumed the peer's own permit")
def c03(ctx):
    for v in ("default", "global-permits"):
        g = ctx.graph(v)
        ins = inserts(g, "user")
        ctx.need(ins, "the user session table")
        roots = prod(g.roots(ins))
        ctx.need(roots, "a task that admits users")
        for r in roots:
            ctx.run(r, UserAdmit(ctx, "C03", v), v)


# ---------------------------------------------------------------- broker: brokers
def eq_fact(st, a, b):
    for (x, y), r in st.rel.items():
        if r == frozenset("=") and ((V(x) is a and V(y) is b) or (V(x) is b and V(y) is a)):
            return True
    for t, f in st.facts.items():
        if f == ("B", True) and t.op == "cmp" and t.args[0] == "Eq":
            x, y = V(t.args[1]), V(t.args[2])
            if (x is a and y is b) or (x is b and y is a):
                return True
    return False


def eq_partners(st, a):
    out = []
    for (x, y), r in st.rel.items():
        if r == frozenset("="):
            x, y = V(x), V(y)
            if x is a:
                out.append(y)
            elif y is a:
                out.append(x)
    for t, f in st.facts.items():
        if f == ("B", True) and t.op == "cmp" and t.args[0] == "Eq":
            x, y = V(t.args[1]), V(t.args[2])
            if x is a:
                out.append(y)
            elif y is a:
                out.append(x)
    return out


def own_key(t, part):
    root, fs = fields(t)
    return root.op in ("param", "deref") and [n for _, n in fs][-2:] == ["keypair", part]


class BrokerAdmit(Rule):
    events = AUTH_EVENTS

    def __init__(self, ctx, what, variant, outbound):
        super().__init__(ctx, variant)
        self.what = what
        self.outbound = outbound
        self.seen_insert = False
        self.signs = set()
        self.verifies = set()

    def extra_sinks(self, g):
        return inserts(g, "broker")

    def mark(self, st, x):
        a = st.aut or ()
        if x not in a:
            st.aut = a + (x,)

    def on_call(self, eng, c):
        if c.matches("SystemTime::now"):
            n = sum(1 for x in (c.st.aut or ()) if x[0] == "recv")
            t = T("call", c.path, (mkint(n),), (c.frame.id, c.block))
            eng.make_stale(c.st, t)
            return [(t, c.st)]
        if c.matches(*MAP_INSERT) and session_map(eng.prog, c.argtys[0]) == "broker":
            self.seen_insert = True
            self.insert(eng, c)
            return []
        if c.matches(*MAP_ENTRY) and session_map(eng.prog, c.argtys[0]) == "broker":
            self.ctx.violate("session-entry", "a session table is changed in a way the rule does not follow", c.where())
        return None

    def on_await(self, eng, st, fut, frame, block):
        if is_call(fut, *RECV):
            self.mark(st, ("recv", fut))
        s = sent(fut)
        if s:
            self.reply(eng, st, s, site(frame, block))

    def peer_verified(self, st, conn, w=None):
        """Everything the peer has to prove, on this connection."""
        best = None
        for k in list(st.facts):
            if is_call(k, VERIFY) and st.facts[k] == ("B", True):
                pk = V(k.args[1][0])
                r = key_of(pk)
                if r is None or recv_conn(r) is not conn:
                    continue
                for ns, ts in verified(st, r, pk):
                    b, f = fresh_facts(st, ts, 5)
                    own = any(own_key(x, "public_key") for x in eq_partners(st, pk))
                    best = (ns, b, f, own)
                    if b and f and own:
                        return best
        return best

    def reply(self, eng, st, s, w):
        ctx = self.ctx
        conn, m = s
        key = key_msg(m, "AuthenticateWithKey")
        if key is not None:
            sg = agg_field(self.prog, key, "signature")
            ts = agg_field(self.prog, key, "timestamp")
            pk = agg_field(self.prog, key, "public_key")
            c, vs = okval(sg)
            good = is_call(c, SIGN)
            if good:
                a = [V(x) for x in c.args[1]]
                m2 = a[2]
                good = own_key(a[0], "private_key") and m2.op == "pure" and m2.args[0].endswith("u64::to_le_bytes") and V(m2.args[1][0]) is V(ts)
                self.signs.add(const_str(a[1]))
            k, kv = okval(pk)
            if self.what == "C04":
                ctx.ob("own-proof-well-formed", good and now_secs(ts) and is_call(k, SER) and own_key(V(k.args[1][0]), "public_key"), w, "the broker's own login is not its public key with a current timestamp signed by its private key")
                if not self.outbound:
                    v = self.peer_verified(st, conn)
                    ctx.ob("inbound-peer-proves-first", v is not None and all(v[1:]), w, "a peer that connected to us can obtain a signature of the broker key before it proved that it holds that key")
            self.mark(st, ("proof", conn))
            return
        r = resp(m)
        if r is None:
            return
        permit, context = r
        lo, hi = int_bounds(st, permit)
        if self.what == "C06":
            ctx.ob("broker-peer-code", (lo, hi) in ((0, 0), (1, 1)), w, "a response to a broker carries a code other than 0 or 1: " + show(permit))
        if hi == 0:
            return
        v = self.peer_verified(st, conn)
        if self.what == "C04":
            self.judge(v, w, "the success response")
            idn = [x for x in walk(context) if x.op == "fld" and own_identity(x)]
            ctx.ob("own-identifier-reported", bool(idn) and not any(received(x) for x in walk(context) if x.op == "fld"), w, "the success response does not carry this broker's own identifier: " + show(context))
        self.mark(st, ("accepted", conn))

    def judge(self, v, w, what):
        ctx = self.ctx
        ctx.ob("peer-signature-verified", v is not None, w, what + " is reachable although the peer's signature over its own timestamp was not verified")
        if v is None:
            return
        self.verifies.add(v[0])
        ctx.ob("peer-timestamp-recent", v[1], w, what + " is reachable with a timestamp older than five seconds")
        ctx.ob("peer-timestamp-not-in-the-future", v[2], w, what + " is reachable with a timestamp in the future")
        ctx.ob("peer-holds-our-key", v[3], w, what + " is reachable for a peer whose key is not the broker key")

    def insert(self, eng, c):
        if self.what != "C04":
            return
        ctx, st, w = self.ctx, c.st, c.where()
        cs = conn_in(c.args[2])
        key = c.args[1]
        # the response that names the peer
        rs = {}
        for x in walk(key):
            if x.op == "fld":
                r = received(x)
                if r and r[2]:
                    rs.setdefault(r[0], set()).add((r[1], r[2]))
        named = [r for r, fs in rs.items() if fs == {("AuthenticateResponse", ("context",))}]
        ctx.ob("peer-named-by-its-response", len(rs) == 1 and bool(named), w, "the identifier a broker session is registered under is not taken from the peer's response: " + show(V(key)))
        conn = recv_conn(named[0]) if named else None
        if conn is None:
            return
        ctx.ob("peer-session-on-authenticated-connection", conn in cs, w, "the registered connection is not the one that was authenticated")
        okp = False
        for t, f in st.facts.items():
            if f[0] == "I" and f[1] == 1 and f[2] == 1:
                r = received(t)
                if r and r[0] is named[0] and r[2] == ("permit",):
                    okp = True
        ctx.ob("peer-accepted-us", okp, w, "a broker session can be registered although the peer did not answer with success")
        ctx.ob("we-proved-ourselves", ("proof", conn) in (st.aut or ()), w, "a broker session can be registered without having authenticated to the peer")
        v = self.peer_verified(st, conn)
        self.judge(v, w, "the registration of a broker session")
        ctx.ob("peer-told-success", ("accepted", conn) in (st.aut or ()), w, "a broker session can be registered without telling the peer that it was accepted")


def is_outbound(ctx, g, root):
    """A root that connects (rather than one that was handed an accepted connection)."""
    return any(path_is(n, "Protocol::connect") for p in g.reach([root]) if p in g.prog.bodies for n in callee_names(g.prog.bodies[p]))


def callee_names(b):
    for st, t, sp, cl in b.blocks:
        if t[0] == "call":
            k = t[1].get("k")
            if k and "fn" in k:
                yield k["fn"].get("r") or k["fn"]["p"]
                yield k["fn"]["p"]


def broker_roots(ctx, g):
    ins = inserts(g, "broker")
    ctx.need(ins, "the broker session table")
    out = []
    for r in prod(g.roots(ins)):
        # only the part of the graph on the way to the insertion matters
        own = {r} | (g.callers(ins) & g.reach([r]))
        outb = any(path_is(n, "Protocol::connect") for p in own if p in g.prog.bodies for n in callee_names(g.prog.bodies[p]))
        out.append((r, outb))
    ctx.need(any(o for _, o in out), "a task that connects to brokers")
    ctx.need(any(not o for _, o in out), "a task that accepts brokers")
    return out


@check("C04", "path-sensitive typestate dataflow over MIR: every path to the insertion into the broker session table must have completed both directions of the authentication")
def c04(ctx):
    g = ctx.graph()
    signs, vers = set(), set()
    for r, outb in broker_roots(ctx, g):
        ck = BrokerAdmit(ctx, "C04", "default", outb)
        ctx.run(r, ck)
        ctx.need(ck.seen_insert, "the registration of brokers from " + r)
        signs |= ck.signs
        vers |= ck.verifies
    user = marshal_namespaces(ctx)
    ctx.ob("one-broker-domain", len(signs) == 1 and signs == vers, "broker authentication", f"brokers sign for {sorted(map(str, signs))} and verify for {sorted(map(str, vers))}")
    ctx.ob("domains-separated", not (vers & user) and bool(user), "signature domains", f"the broker and user logins share a signature domain: {sorted(map(str, vers & user))}")


def marshal_namespaces(ctx):
    class Quiet:
        """Collects the domains without recording obligations."""

        def __init__(self, c):
            self.c = c

        def __getattr__(self, n):
            return getattr(self.c, n)

        def ob(self, *a, **k):
            return True

        def violate(self, *a, **k):
            pass

    g = ctx.graph()
    ns = set()
    for r in roots_of(g, ISSUE):
        ck = MarshalRule(Quiet(ctx), "C01", "default")
        ctx.run(r, ck)
        ns |= ck.ns
    return ns


# ---------------------------------------------------------------- response codes, as the client reads them
class ClientLogin(Rule):
    loop_marks = True
    """Marks: ("subscribed", connection)."""

    events = ("Connection::send_message", "Connection::recv_message", "Protocol::connect")

    def __init__(self, ctx, variant="default"):
        super().__init__(ctx, variant)
        self.stored = False
        self.presented = False

    def on_await(self, eng, st, fut, frame, block):
        s = sent(fut)
        if not s:
            return None
        w = site(frame, block)
        conn, m = s
        x = message(m)
        if x and x[0] == "AuthenticateWithPermit":
            self.presented = True
            self.permit(st, conn, x, w)
        if x and x[0] == "Subscribe":
            self.ctx.ob("subscribes-after-acceptance", self.accepted(st, conn), w, "the client goes on after a broker response that is not 1")
            st.aut = (st.aut or ()) + (("sub", conn),)
        return None

    def permit(self, st, conn, x, w):
        ctx = self.ctx
        p = V(x[1][0])
        if p.op == "agg":
            p = V(p.args[3][0])
        r = received(p)
        good = r is not None and r[1:] == ("AuthenticateResponse", ("permit",))
        ctx.ob("permit-from-marshal", good, w, "the client does not present the permit it was given: " + show(p))
        if not good:
            return
        lo, hi = int_bounds(st, p)
        ctx.ob("codes-are-not-permits", lo >= 2, w, f"the client takes the response code {lo} for a permit")
        ctx.ob("permit-to-a-broker", recv_conn(r[0]) is not conn, w, "the permit goes back to the marshal")
        c, vs = okval(conn)
        ok_ = is_call(c, "Protocol::connect") and vs == ["Ok"]
        e = received(c.args[1][0]) if ok_ else None
        ctx.ob("permit-to-its-broker", e is not None and e[0] is r[0] and e[1:] == ("AuthenticateResponse", ("context",)), w, "the permit is presented to an endpoint other than the one the marshal named: " + show(conn))

    def accepted(self, st, conn):
        for t, f in st.facts.items():
            if f[0] == "I" and f[1] == 1 and f[2] == 1:
                r = received(t)
                if r and recv_conn(r[0]) is conn and r[1:] == ("AuthenticateResponse", ("permit",)):
                    return True
        return False

    def on_store(self, eng, st, place, val, frame, block):
        v = V(val)
        if v.op == "agg" and v.args[1] == "Some":
            c = V(v.args[3][0])
            k, vs = okval(c)
            if is_call(k, "Protocol::connect"):
                self.stored = True
                w = site(frame, block)
                self.ctx.ob("connected-only-if-accepted", self.accepted(st, c), w, "the client keeps a connection on which the broker did not answer with 1")
                self.ctx.ob("connected-only-if-subscribed", ("sub", c) in (st.aut or ()), w, "the client keeps a connection on which it did not send its subscriptions, which the broker waits for")


@check("C06", "value-range and typestate dataflow over MIR: the code every response can carry on each side, and what every reader concludes from it")
def c06(ctx):
    marshal(ctx, "C06", ("default", "global-permits"))
    for v in ("default", "global-permits"):
        g = ctx.graph(v)
        for r in prod(g.roots(inserts(g, "user"))):
            ctx.run(r, UserAdmit(ctx, "C06", v), v)
    g = ctx.graph()
    for r, outb in broker_roots(ctx, g):
        ctx.run(r, BrokerAdmit(ctx, "C06", "default", outb))
    roots = prod(g.roots(builders(g, "AuthenticateWithPermit")))
    ctx.need(roots, "a task that logs clients in")
    st = pr = False
    for r in roots:
        ck = ClientLogin(ctx)
        ctx.run(r, ck)
        st |= ck.stored
        pr |= ck.presented
    ctx.need(st, "the place where the client keeps its connection")
    ctx.need(pr, "the presentation of the permit")
