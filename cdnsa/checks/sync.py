"""Brokers telling each other what they know."""
from . import check
from .common import *
from .places import Places, USER_KEY, head, unwrap
from .route import GET, LOOKUP, norm_lookup, lookup, under
from .tasks import SLEEP
from .auth import inserts
from ..mir import targs

PEER = T("wit", "peer")
VM = "versioned_map::VersionedMap"
KINDS = {"user": "UserSync", "topic": "TopicSync"}


def vm_kind(P, t):
    """'user' (who is where) | 'topic' (what we are interested in) when t is a versioned table of the broker."""
    ty = unwrap(P.ty(V(t)))
    if not head(ty).endswith(VM):
        return None
    k = targs(ty)[0]
    return "user" if k.startswith(USER_KEY) else "topic" if k == "u8" else None


def table_kind(P, t):
    """The same when t is such a table or its contents."""
    t = V(t)
    return vm_kind(P, t) or (vm_kind(P, t.args[0]) if t.op == "fld" and t.args[3] == "underlying_map" else None)


def drains(prog):
    """Functions that hand out, and forget, what was changed."""
    return tuple(prod([b.path for b in prog.bodies.values() if b.raw["argc"] == 1 and VM + "<" in b.locals[0][0].split("<")[0] + "<" and b.locals[1][0].startswith("&mut ") and VM + "<" in b.locals[1][0]]))


TO_BYTES = ("util::to_bytes", "rkyv::to_bytes", "ser::to_bytes")


class Exchange(Rule):
    """Follows one arbitrary connected broker."""

    witness = True
    anonymous = True

    def __init__(self, ctx, joined=False, variant="default"):
        self.drains = drains(ctx.prog(variant))
        self.inserts = inserts(ctx.graph(variant), "broker", MAP_INSERT + MAP_REMOVE) if joined else ()
        self.opaque = CONN_API + CODEC + self.drains + ("BrokerAuth::verify_broker", "BrokerAuth::authenticate_with_broker", "BrokerAuth::verify_user")
        self.events = ("Connection::send_message_raw", "Connection::send_message") + self.drains
        super().__init__(ctx, variant)
        self.P = Places(self.prog)
        self.join = joined
        self.n = {}

    def extra_sinks(self, g):
        return self.inserts

    def keep(self, t):
        if is_call(t, *TO_BYTES, "Message::serialize"):
            return True
        if t.op == "len" or is_call(t, "HashMap::is_empty"):
            root, fs = fields(t.args[0] if t.op == "len" else t.args[1][0])
            return is_call(root, *self.drains) or root.op == "call" and root.args[0] == "map::full" or self.join
        return False

    def wit_in(self, eng, st, coll):
        return not self.join and self.P.table(coll) == "broker"

    def wit_single(self, eng, st, coll):
        return True

    def wit_of(self, eng, st, coll):
        return wit_entry(coll, PEER)

    def add(self, st, *m):
        if m not in (st.aut or ()):
            st.aut = (st.aut or ()) + (m,)

    def forget(self, st, f):
        st.aut = tuple(m for m in st.aut or () if not f(m))

    def has(self, st, *m):
        return any(x[: len(m)] == m for x in st.aut or ())

    # ---- events
    def on_call(self, eng, c):
        if c.path in self.drains:
            k = vm_kind(self.P, eng.strip_ptr(c.st, c.args[0]))
            if k:
                self.n["drain-" + k] = 1
                out = eng.opaque(c)
                for t, s in out:
                    self.forget(s, lambda m: m[0] in ("drained", "sent", "empty", "failed") and m[1] == k)
                    self.add(s, "drained", k, Pin(t))
                return out
        if c.args and c.matches("Clone::clone"):
            v = eng.strip_ptr(c.st, c.args[0])
            if table_kind(self.P, v):
                t = eng.fresh(c.st, "map::full" if self.has(c.st, "joined") else "map::early", (v,), c.frame, c.block)
                return [(t, c.st)]
        if c.args and c.matches(*TO_BYTES):
            v = eng.strip_ptr(c.st, c.args[0])
            if vm_kind(self.P, v) and not self.has(c.st, "joined"):
                self.add(c.st, "early", vm_kind(self.P, v))
        if c.args and c.matches("HashMap::keys", "HashMap::iter", "HashMap::get", "HashMap::contains_key"):
            tb = self.P.table(eng.strip_ptr(c.st, c.args[0]))
            if tb in ("interest-user", "topics-user"):
                self.add(c.st, "looked")
        if self.join and c.matches(*MAP_INSERT) and self.P.table(eng.strip_ptr(c.st, c.args[0])) == "broker":
            self.n["join"] = 1
            st = c.st
            out = eng.opaque(c)
            for t, s in out:
                self.add(s, "joined", Pin(under(c.args[1])))
            return out
        if self.join and c.matches(*MAP_REMOVE) and self.P.table(eng.strip_ptr(c.st, c.args[0])) == "broker":
            if self.peer(c.st, eng.strip_ptr(c.st, c.args[1])):
                self.forget(c.st, lambda m: m[0] == "joined")
        return None

    def peer(self, st, key):
        key = under(key)
        if not self.join:
            return key is PEER
        return any(m[0] == "joined" and m[1].t is key for m in st.aut or ())

    def on_assume(self, eng, st, term, val, frame, block):
        if any(x.op == "len" or is_call(x, "HashMap::is_empty") for x in walk(term)):
            for m in st.aut or ():
                if m[0] == "drained" and self.empty(st, m[1], m[2].t):
                    self.add(st, "empty", m[1])
            if self.has(st, "joined"):
                for k in KINDS:
                    if self.empty(st, k):
                        self.add(st, "empty", k)
        if term.op == "isvar":
            for k in KINDS:
                if self.failed(st, k, ""):
                    self.add(st, "failed", k)
        t = norm_lookup(term, val)
        if t is not None:
            call, found = t
            l = lookup(self.P, call) if call.op == "call" else (self.P.table(call.args[0]), V(call.args[1]))
            if l and l[0] == "broker" and self.peer(st, l[1]) and not found:
                self.add(st, "gone")
        if not val and is_call(term, *SAME_CONN):
            for x in term.args[1][:2]:
                l = lookup(self.P, x)
                if l and l[0] == "broker" and self.peer(st, l[1]):
                    self.add(st, "gone")

    def on_await(self, eng, st, fut, frame, block):
        w = site(frame, block)
        if is_call(fut, *SLEEP):
            self.add(st, "slept")
            return
        s = sent(fut)
        if not s:
            return
        conn, m = s
        x = message(m)
        ctx = self.ctx
        l = lookup(self.P, conn)
        if not x or x[0] not in ("UserSync", "TopicSync"):
            ctx.ob("only-tables-are-sent", False, w, "something other than a table is sent to a broker here: " + show(m))
            return
        want = "user" if x[0] == "UserSync" else "topic"
        self.n["send-" + want] = 1
        c, vs = okval(x[1][0])
        n = 6
        while n and c.op == "call" and not is_call(c, *TO_BYTES) and len(c.args[1]) == 1:
            c, vs = okval(c.args[1][0])
            n -= 1
        if not ctx.ob("tables-are-what-is-sent", is_call(c, *TO_BYTES), w, "what is sent to a broker as a table is not an encoded table: " + show(x[1][0])):
            return
        v = V(c.args[1][0])
        if v.op == "agg" and v.args[0].endswith(VM):
            v = agg_field(self.prog, v, "underlying_map")
        if is_call(v, *self.drains):
            k = vm_kind(self.P, v.args[1][0])
            what = "drained"
        elif v.op == "call" and v.args[0] in ("map::full", "map::early"):
            k = table_kind(self.P, v.args[1][0])
            what = "full" if v.args[0] == "map::full" else "early"
        else:
            k = vm_kind(self.P, v)
            what = "full" if not self.has(st, "early", k) else "early"
        ctx.ob("tables-are-what-is-sent", k == want, w, f"a {x[0]} message carries something other than the broker's table: " + show(v))
        if l and l[0] == "broker" and self.peer(st, l[1]):
            self.add(st, "sent", want, what)

    # ---- what has to have happened
    def failed(self, st, k, what):
        """Was it impossible to encode?"""
        for key, f in st.facts.items():
            if f == ("V", frozenset(["Err"])):
                if is_call(key, *TO_BYTES):
                    v = V(key.args[1][0])
                    if v.op == "agg" and v.args[0].endswith(VM):
                        v = agg_field(self.prog, v, "underlying_map")
                    p = v.args[1][0] if v.op == "call" else v
                    if table_kind(self.P, p) == k:
                        return True
                if is_call(key, "Message::serialize"):
                    x = message(V(key.args[1][0]))
                    if x and x[0] == KINDS[k]:
                        return True
        return False

    def empty(self, st, k, drained=None):
        for key, f in st.facts.items():
            if f[0] == "I" and f[2] == 0 and key.op == "len" or f == ("B", True) and is_call(key, "HashMap::is_empty"):
                x = V(key.args[0] if key.op == "len" else key.args[1][0])
                root, fs = fields(x)
                if drained is not None:
                    if root is drained:
                        return True
                elif x.op == "fld":
                    b = V(x.args[0])
                    if b.op == "call" and b.args[0] == "map::full":
                        b = V(b.args[1][0])
                    if vm_kind(self.P, b) == k:
                        return True
                elif x.op == "call" and x.args[0] == "map::full" and table_kind(self.P, x.args[1][0]) == k:
                    return True
        return False

    def drained_done(self, st, w):
        for m in st.aut or ():
            if m[0] == "drained":
                k, d = m[1], m[2].t
                good = self.has(st, "sent", k, "drained") or self.has(st, "gone") or self.has(st, "empty", k) or self.has(st, "failed", k)
                self.ctx.ob("changes-reach-every-broker", good, w, f"changes of the {k} table can be forgotten before they were sent to every connected broker", k)

    def on_loop(self, eng, st, frame, loop, head_):
        if not self.has(st, "slept"):
            return
        w = site(frame, head_)
        self.drained_done(st, w)
        self.n["round"] = 1
        self.ctx.ob("users-exchanged-every-round", self.has(st, "drained", "user"), w, "a round of the sync task can leave out changes of user locations")
        self.ctx.ob("topics-exchanged-every-round", self.has(st, "drained", "topic") or self.has(st, "looked"), w, "a round of the sync task can leave out changes of topic interest")
        st.aut = None

    def joined_done(self, st, w):
        if not self.has(st, "joined"):
            return
        self.n["joined"] = 1
        for k in KINDS:
            good = self.has(st, "sent", k, "full") or self.has(st, "gone") or self.has(st, "empty", k) or self.has(st, "failed", k)
            self.ctx.ob("a-joining-broker-is-told-everything", good, w, f"a broker can join without being sent the complete {k} table as it is after the broker joined", k)


@check("C19", "dataflow over MIR that follows one arbitrary connected (or joining) broker: drained changes reach it, it is sent complete tables when it joins, and nothing else passes for a table")
def c19(ctx):
    g = ctx.graph()
    dr = drains(ctx.prog())
    ctx.need(dr, "the function that hands out changes")
    roots = [r for r in prod(g.roots(prod({b.path for b, _, _, _ in g.calls(*dr)}))) if r.startswith("cdn_broker")]
    ctx.need(roots, "the task that hands out changes")
    seen = {}
    for r in roots:
        ck = Exchange(ctx)
        for v, st in ctx.run(r, ck):
            ck.drained_done(st, r)
            if ck.n.get("round"):
                ctx.ob("exchange-never-stops", False, r, "the task that sends changes to other brokers can end")
        seen.update(ck.n)
    for what in ("drain-user", "drain-topic", "send-user", "send-topic", "round"):
        ctx.need(seen.get(what), "the sync task: " + what)
    jr = prod(g.roots(prod(inserts(g, "broker"))))
    ctx.need(jr, "tasks in which brokers join")
    for r in jr:
        ck = Exchange(ctx, True)
        for v, st in ctx.run(r, ck):
            ck.joined_done(st, r)
        ctx.need(ck.n.get("joined"), "brokers joining in " + r)
