"""Routing: direct messages, broadcasts, what a session may make the broker do."""
from . import check
from .common import *
from .disc import unstale
from .topics import recognised
from .places import Places, SETS, head, unwrap
from ..mir import targs

HOOK = "MessageHookDef::on_message_received"
PRUNE = "Topic::prune"
GET = ("HashMap::get", "BTreeMap::get", "HashMap::get_mut", "BTreeMap::get_mut", "HashMap::get_key_value")
LOOKUP = GET + ("HashMap::contains_key",)


def origin(t):
    """(recv call, variant, field names) when t is (part of) a received and decoded message, whether or not a hook
    or a pruning was given access to it since."""
    fs = []
    n = 0
    while n < 60:
        n += 1
        t = V(t)
        if t.op == "fld":
            fs.append((t.args[1], str(t.args[3])))
            t = t.args[0]
        elif t.op in ("upd", "mod"):
            t = t.args[0]
        elif t.op == "lcoll" and len(t.args[1]) == 1 and next(iter(t.args[1])).op == "spread":
            t = next(iter(t.args[1])).args[0]
        else:
            break
    fs = fs[::-1]
    if not is_call(t, "Message::deserialize", "Connection::recv_message") or not fs or fs[0][0] != "Ok":
        return None
    fs = fs[1:]
    if is_call(t, "Message::deserialize"):
        r, f2 = fields(V(t.args[1][0]))
        if not is_call(r, "Connection::recv_message_raw"):
            return None
        t = r
    if not fs:
        return t, None, ()
    if len(fs) > 1 and fs[1][1] == "0" and False:
        return t, fs[0][0], tuple(x for _, x in fs[1:])
    return t, fs[0][0], tuple(x for _, x in fs[1:])


def current(st):
    """(term, recv, possible variants) of the message being handled."""
    best = None
    for k, f in st.facts.items():
        if f[0] == "V":
            o = origin(k)
            if o and o[1] is None and k.op != "call":
                c = (k, o[0], f[1])
                if best is None or (best[0].op != "upd" and k.op == "upd"):
                    best = c
    return best


def raw_of(t):
    """The recv call when t is exactly the bytes a receive returned."""
    c, vs = okval(t)
    n = 4
    while n and c.op == "fld":
        c = V(c.args[0])
        n -= 1
    if is_call(c, "Connection::recv_message_raw") and (vs == ["Ok"]):
        return c
    return None


def lookup(P, t):
    """(table, key, call) when t is part of an entry that was looked up."""
    fs = []
    n = 0
    t = V(t)
    while n < 20 and t.op in ("fld", "deref", "upd", "mod", "as"):
        t = V(t.args[0])
        n += 1
    if is_call(t, *GET):
        return P.table(t.args[1][0]), V(t.args[1][1]), t
    return None


def root_kind(g, root):
    sp = {b.path for b, _ in g.spawned.get(root, ())} or {root}
    r = g.reach(sp)
    from .auth import inserts

    ks = {k for k in ("user", "broker") if set(inserts(g, k)) & r}
    return next(iter(ks)) if len(ks) == 1 else None


def session_roots(ctx, g):
    """(root, kind) of the tasks that decode what a session sends."""
    out = []
    for r in roots_of(g, "Message::deserialize"):
        if not r.startswith("cdn_broker"):
            continue
        k = root_kind(g, r)
        # only loops over a session, not the login
        if k and g.spawned.get(r) and not (set(g.reach([r])) & {p for p in g.prog.bodies if path_is(p, "BrokerAuth::verify_user") or path_is(p, "BrokerAuth::verify_broker")}):
            out.append((r, k))
    ctx.need(any(k == "user" for _, k in out), "the receive loop of users")
    ctx.need(any(k == "broker" for _, k in out), "the receive loop of brokers")
    return out


def under(t):
    """The value, whichever round of a loop it stems from."""
    if isinstance(t, Pin):
        return t.t
    t = V(deep(V(t)))
    while t.op == "deref":
        t = V(t.args[0])
    return t


class Route(Rule):
    opaque = CONN_API + CODEC
    events = CONN_API + ("Message::deserialize",)
    aut_live = True

    def __init__(self, ctx, what, kind, variant="default"):
        super().__init__(ctx, variant)
        self.what = what
        self.kind = kind
        self.P = Places(self.prog)
        self.n = {}

    def keep(self, t):
        return self.what == "C11" or origin(t) is not None

    def count(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    # ---- marks
    def add(self, st, *m):
        a = st.aut or ()
        m = tuple(Pin(under(x)) if isinstance(x, T) else x for x in m)
        if m not in a:
            st.aut = a + (m,)

    def drop(self, st, f):
        if st.aut:
            st.aut = tuple(m for m in st.aut if not f(m))

    # ---- events
    def on_await(self, eng, st, fut, frame, block):
        s = sent(fut)
        if s:
            self.forward(eng, st, s, site(frame, block))
        return None

    def forward(self, eng, st, s, w):
        conn, m = s
        cur = current(st)
        r = raw_of(m)
        if self.what == "C11":
            v = cur[2] if cur else frozenset()
            if v == frozenset(["Direct"]):
                self.ctx.ob("forwards-the-received-bytes", r is not None and r is cur[1], w, "a direct message is not forwarded exactly as it was received: " + show(m))
                self.direct(eng, st, conn, cur, w)
        if self.what == "C13":
            self.effect(eng, st, cur, w, "send")

    # ---- direct messages
    def recipient(self, t, cur):
        o = origin(t)
        return o is not None and o[0] is cur[1] and o[1] == "Direct" and o[2][-1:] == ("recipient",)

    def located(self, t, cur):
        """Is t the broker the location table names for the message's recipient?"""
        l = lookup(self.P, t)
        return bool(l) and l[0] == "location" and self.recipient(l[1], cur)

    def here(self, st, cur):
        """Does the location table place the recipient at this broker? None: not established."""
        for (a, b), rr in st.rel.items():
            for x, y in ((a, b), (b, a)):
                if own_id(y) and self.located(x, cur):
                    if rr == frozenset("="):
                        return True
                    if "=" not in rr:
                        return False
        for k, f in st.facts.items():
            if f[0] == "B" and k.op == "cmp" and k.args[0] == "Eq":
                for x, y in ((k.args[1], k.args[2]), (k.args[2], k.args[1])):
                    if own_id(y) and self.located(x, cur):
                        return f[1]
        return None

    def direct(self, eng, st, conn, cur, w):
        ctx = self.ctx
        l = lookup(self.P, conn)
        if not ctx.ob("direct-to-a-session", l is not None and l[0] in ("user", "broker"), w, "a direct message is sent to something other than a registered session: " + show(conn)):
            return
        table, key, _ = l
        self.count("direct-" + table)
        if table == "user":
            ctx.ob("direct-only-to-its-recipient", self.recipient(key, cur), w, "a direct message is sent to a user other than its recipient: " + show(key))
            ctx.ob("direct-only-when-located-here", self.here(st, cur) is True, w, "a direct message is delivered although the recipient is not located at this broker")
        else:
            ctx.ob("direct-only-one-hop", self.kind == "user", w, "a direct message that came from a broker is forwarded to a broker")
            ctx.ob("direct-to-the-recipient-s-broker", self.located(key, cur), w, "a direct message is forwarded to a broker other than the one the recipient is located at: " + show(key))
        ctx.ob("direct-once", not any(m[0] == "sent" for m in st.aut or ()), w, "a direct message can be sent more than once")
        self.add(st, "sent", key)

    def direct_done(self, eng, st, cur, w):
        """A round that handled a direct message ends: was everything done that had to be?"""
        if any(m[0] == "sent" for m in st.aut or ()):
            self.ctx.ob("direct-delivered", True, w)
            return
        reason = None
        for k, f in st.facts.items():
            if f != ("V", frozenset(["None"])):
                continue
            l = lookup(self.P, k)
            if not l:
                continue
            table, key, call = l
            if table == "location" and self.recipient(key, cur):
                reason = "nowhere"
            elif table == "user" and k is call and self.recipient(key, cur) and self.here(st, cur) is True:
                reason = "gone"
            elif table == "broker" and k is call and self.located(key, cur):
                reason = "broker gone"
        for k, f in st.facts.items():
            if f == ("B", False) and k.op == "contains":
                tb = self.P.table(k.args[0])
                if tb == "location" and self.recipient(k.args[1], cur):
                    reason = "nowhere"
                elif tb == "user" and self.recipient(k.args[1], cur) and self.here(st, cur) is True:
                    reason = "gone"
                elif tb == "broker" and self.located(k.args[1], cur):
                    reason = "broker gone"
        if reason is None and self.kind == "broker" and self.here(st, cur) is False:
            reason = "not ours"
        self.ctx.ob("direct-delivered", reason is not None, w, "a direct message can be dropped although its recipient could be reached")

    # ---- rounds
    def on_loop(self, eng, st, frame, loop, head_):
        cur = current(st)
        if cur and any(eng.in_loop(s, frame, loop) for s in [cur[1]]):
            self.done(eng, st, cur, site(frame, head_))

    def done(self, eng, st, cur, w):
        v = cur[2]
        if self.what == "C11" and v == frozenset(["Direct"]):
            self.direct_done(eng, st, cur, w)
            self.count("direct-rounds")
        if self.what == "C13":
            self.round(eng, st, cur, w)
        st.aut = None


def origin_item(t):
    """Origin of the collection an element was taken from."""
    t = under(t)
    if t.op == "item":
        src = t.args[1][0]
        return origin(src)
    return None


def own_id(t):
    t = V(t)
    root, fs = fields(t)
    return t.op == "fld" and root.op in ("param", "deref", "locked") and not any(x.op == "call" for x in walk(t))


@check("C11", "provenance dataflow over MIR: the connection, the bytes and the reason of every forwarding of a direct message, and the reason of every one that is dropped")
def c11(ctx):
    g = ctx.graph()
    for r, k in session_roots(ctx, g):
        ck = Route(ctx, "C11", k)
        outs = ctx.run(r, ck)
        ctx.need(ck.n.get("direct-user"), f"delivery of direct messages to users ({k} sessions)")
        ctx.need(ck.n.get("direct-rounds"), f"rounds that handle direct messages ({k} sessions)")
        if k == "user":
            ctx.need(ck.n.get("direct-broker"), "forwarding of direct messages to brokers")
        for v, st in outs:
            cur = current(st)
            if cur and cur[2] == frozenset(["Direct"]):
                ctx.ob("direct-never-ends-the-session", False, r, "a direct message that was accepted for routing ends the session of its sender")


TOPIC = T("wit", "topic")
PARTY = T("wit", "party")


class Bcast(Route):
    """Follows one arbitrary party that is interested in one arbitrary topic of the broadcast."""

    witness = True

    def __init__(self, ctx, kind, party):
        super().__init__(ctx, "C12", kind)
        self.party = party
        self.anonymous = party is not None

    def bcast(self, st):
        cur = current(st)
        return cur if cur and cur[2] == frozenset(["Broadcast"]) else None

    def keep(self, t):
        return origin(t) is not None

    # ---- where the witness is
    def topics_of(self, t, cur):
        o = origin(under(t))
        return o is not None and o[0] is cur[1] and o[1] == "Broadcast" and o[2][-1:] == ("topics",)

    def a_topic(self, t, cur):
        t = under(t)
        return t is TOPIC or (t.op == "item" and self.topics_of(t.args[1][0], cur))

    def parties_of(self, t, cur):
        """(kind, topic) when t is the set of parties interested in a topic of the message."""
        l = lookup(self.P, under(t))
        if l and l[0] in ("interest-user", "interest-broker") and self.a_topic(l[1], cur):
            return l[0][9:], under(l[1])
        return None

    def wit_in(self, eng, st, coll):
        cur = self.bcast(st)
        if not cur:
            return False
        if self.party is None:
            return False
        if self.topics_of(coll, cur):
            return True
        p = self.parties_of(coll, cur)
        if p and p[0] == self.party:
            return True if p[1] is TOPIC else None
        return False

    def wit_single(self, eng, st, coll):
        cur = self.bcast(st)
        return not (cur and self.topics_of(coll, cur)) and head(unwrap(self.P.ty(under(coll)))) in SETS

    def wit_of(self, eng, st, coll):
        return TOPIC if self.topics_of(coll, self.bcast(st)) else PARTY

    # ---- what happens
    def on_call(self, eng, c):
        if c.matches(*LOOKUP) and len(c.args) > 1:
            cur = self.bcast(c.st)
            if not cur:
                return None
            tb = self.P.table(eng.strip_ptr(c.st, c.args[0]))
            key = under(eng.strip_ptr(c.st, c.args[1]))
            if self.party and tb == "interest-" + self.party and key is TOPIC:
                # the witness is interested in it
                if c.matches("HashMap::contains_key"):
                    return [(TRUE, c.st)]
                out = eng.opaque(c)
                return [(t, s) for t, s in out if eng.set_variant(s, t, OPTION, ["Some"])]
        return None

    def on_assume(self, eng, st, term, val, frame, block):
        cur = self.bcast(st)
        if not cur:
            return
        t = norm_lookup(term, val)
        if t is not None:
            call, found = t
            l = lookup(self.P, call) if call.op == "call" else (self.P.table(call.args[0]), V(call.args[1]))
            if l and l[0] == self.party and under(l[1]) is PARTY and not found:
                self.mark(st, "gone")

    def interested(self, k, cur):
        k = under(k)
        if k.op == "item":
            p = self.parties_of(k.args[1][0], cur)
            return p[0] if p else None
        return None

    def forward(self, eng, st, s, w):
        conn, m = s
        cur = self.bcast(st)
        if not cur:
            return
        ctx = self.ctx
        r = raw_of(m)
        ctx.ob("forwards-the-received-bytes", r is not None and r is cur[1], w, "a broadcast is not forwarded exactly as it was received: " + show(m))
        l = lookup(self.P, conn)
        if not ctx.ob("broadcast-to-a-session", l is not None and l[0] in ("user", "broker"), w, "a broadcast is sent to something other than a registered session: " + show(conn)):
            return
        table, key, _ = l
        self.count("broadcast-" + table)
        if self.party is None:
            ctx.ob("broadcast-only-to-interested", self.interested(key, cur) == table, w, f"a broadcast is sent to a {table} that is not interested in any of its topics: " + show(key))
        if table == "broker":
            ctx.ob("broadcast-only-one-hop", self.kind == "user", w, "a broadcast that came from a broker is forwarded to a broker")
        if under(key) is PARTY and table == self.party:
            ctx.ob("broadcast-once-per-party", not self.marked(st, "sent"), w, f"a {table} can be sent the same broadcast more than once")
            self.mark(st, "sent")

    def done(self, eng, st, cur, w):
        if cur[2] == frozenset(["Broadcast"]) and self.party:
            self.count("broadcast-rounds")
            self.ctx.ob("every-interested-party-served", self.marked(st, "sent") or self.marked(st, "gone"), w, f"a {self.party} that is interested in one of a broadcast's topics and connected can be left out")
        st.aut = None


def norm_lookup(term, val):
    """(lookup, found) when the condition tells whether a lookup found something."""
    if term.op == "isvar":
        x = V(term.args[0])
        if is_call(x, *GET) and term.args[1] in ("Some", "None"):
            return x, (term.args[1] == "Some") == val
    if term.op == "contains":
        return term, val
    if is_call(term, "Option::is_some"):
        return V(term.args[1][0]), val
    return None


@check("C12", "dataflow over MIR that follows one arbitrary interested party through every collection: it is sent the broadcast exactly once, and nobody else is")
def c12(ctx):
    g = ctx.graph()
    recognised(ctx)
    for r, k in session_roots(ctx, g):
        # without a witness: who else could be sent it
        ctx.run(r, Bcast(ctx, k, None))
        for party in ("user", "broker") if k == "user" else ("user",):
            ck = Bcast(ctx, k, party)
            outs = ctx.run(r, ck)
            ctx.need(ck.n.get("broadcast-" + party), f"delivery of broadcasts to {party}s ({k} sessions)")
            ctx.need(ck.n.get("broadcast-rounds"), f"rounds that handle broadcasts ({k} sessions)")
            for v, st in outs:
                cur = ck.bcast(st)
                if cur and (ck.marked(st, "sent") or ck.marked(st, "gone")):
                    ctx.ob("broadcast-never-ends-the-session", False, r, "a broadcast that was accepted for routing ends the session of its sender")
