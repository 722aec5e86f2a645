"""The broker's background tasks: heartbeat, meeting other brokers, state exchange, supervision."""
from . import check
from .common import *
from .places import Places
from .route import GET, own_id, lookup

HB = "DiscoveryClient::perform_heartbeat"
OTHERBROKERS = "DiscoveryClient::get_other_brokers"
SLEEP = ("sleep::sleep", "Interval::tick", "sleep::sleep_until")
CMP = {"ge": ">=", "gt": ">", "le": "<=", "lt": "<", "eq": "=", "ne": "<>"}


def slept(fut):
    """Milliseconds when the future is a wait; None when unknown."""
    if is_call(fut, *SLEEP):
        d = V(fut.args[1][0])
        return d.args[0] if d.op == "dur" else None
    return None


class Heart(Rule):
    """What a heartbeat says, and when."""

    opaque = CONN_API + ("Inner::handle_broker_connection",)
    events = (HB,)

    def __init__(self, ctx):
        super().__init__(ctx)
        self.P = Places(self.prog)
        self.n = 0
        self.loops = set()

    def on_call(self, eng, c):
        if c.matches("HashMap::len", "BTreeMap::len") and self.P.table(eng.strip_ptr(c.st, c.args[0])) == "user":
            t = eng.fresh(c.st, "users::len", (eng.strip_ptr(c.st, c.args[0]),), c.frame, c.block)
            gap, _, prev = self.get(c.st)
            self.set(c.st, gap, t, prev)
            return [(t, c.st)]
        return None

    def get(self, st):
        m = {x[0]: x[1] for x in st.aut or ()}
        u = m.get("users")
        return m.get("gap"), u.t if u else None, m.get("prev")

    def set(self, st, gap, users, prev):
        st.aut = tuple((k, v) for k, v in (("gap", gap), ("users", Pin(users) if users is not None else None), ("prev", prev)) if v is not None) or None

    def counted(self, st, n):
        """Is n the number of entries of the session table, read since the task last waited?"""
        n = V(n)
        if is_call(n, "users::len"):
            return self.get(st)[1] is n
        # a collection made of every entry
        x = None
        if n.op == "len":
            x = n.args[0]
        elif is_call(n, "Iterator::count", "Vec::len"):
            x = n.args[1][0]
        return x is not None and self.everyone(V(x))

    def everyone(self, x):
        while True:
            if self.P.table(x) == "user":
                return any(y.op == "locked" for y in walk(x))
            if x.op == "iter" and all(k in ("key", "val", "cloned", "map", "") for k, _ in x.args[1]):
                x = V(x.args[0])
            elif x.op == "lcoll" and len(x.args[1]) == 1 and next(iter(x.args[1])).op in ("spread", "spreadit"):
                x = V(next(iter(x.args[1])).args[0])
            else:
                return False

    # marks: time since the last attempt began (None: none yet; a 1-tuple, whose content is None when unbounded), the
    # users read last, the time between the last two attempts
    def on_timeout(self, eng, st, fut, frame, block):
        # an attempt that is given up is an attempt
        d, inner = fut.args
        inner = V(inner)
        if is_call(inner, HB) or inner.op == "cor" and inner.args[0] in self.reach:
            gap, users, _ = self.get(st)
            self.set(st, (d.args[0] if d.op == "dur" else None,), users, gap)

    def on_await(self, eng, st, fut, frame, block):
        w = site(frame, block)
        gap, users, prev = self.get(st)
        if is_call(fut, HB):
            self.n += 1
            self.ctx.ob("heartbeat-reports-current-users", self.counted(st, fut.args[1][1]), w, "a heartbeat reports something other than the number of users that are connected now: " + show(V(fut.args[1][1])))
            d = V(fut.args[1][2])
            life = d.args[0] if d.op == "dur" else None
            self.ctx.ob("heartbeat-has-a-lifetime", life is not None and life > 0, w, "the lifetime a heartbeat asks for is not a positive constant")
            if not eng.tmo:
                prev, gap = gap, (0,)
            if prev and life:
                self.ctx.ob("heartbeats-overlap", prev[0] is not None and prev[0] < life, w, "a broker's registration can expire between two of its own heartbeats")
        elif is_call(fut, *SLEEP):
            d = slept(fut)
            if gap is not None:
                gap = (None if gap[0] is None or d is None else gap[0] + d,)
            users = None
        elif gap is not None:
            d = unelapsed(eng)
            gap = (None if gap[0] is None or d is None else gap[0] + d,)
        self.set(st, gap, users, prev)
        return None


def heart(ctx):
    g = ctx.graph()
    roots = [r for r in roots_of(g, HB) if r.startswith("cdn_broker")]
    ctx.need(roots, "the task that sends heartbeats")
    for r in roots:
        ck = Heart(ctx)
        outs = ctx.run(r, ck)
        ctx.need(ck.n, "heartbeats of " + r)
        ctx.ob("heartbeats-never-stop", not outs, r, "the task that sends heartbeats can end")


WANTED = T("wit", "broker")


class Meet(Rule):
    """Follows one arbitrary registered broker through a round of the heartbeat task."""

    witness = True
    opaque = CONN_API + ("Inner::handle_broker_connection",)
    events = ("Protocol::connect", OTHERBROKERS)

    def __init__(self, ctx, linked, rel):
        super().__init__(ctx)
        self.P = Places(self.prog)
        self.linked, self.rel = linked, rel
        self.want = not linked and rel == ">"
        self.n = {}

    def enter_spawned(self, path):
        return path in self.reach

    def listed(self, t):
        """Is t (made of) what the registry listed?"""
        t = V(t)
        c, vs = okval(t)
        return is_call(c, OTHERBROKERS) and "Ok" in vs

    def wit_in(self, eng, st, coll):
        if self.listed(coll):
            return True
        if self.P.table(coll) == "broker":
            return self.linked
        return False

    def wit_single(self, eng, st, coll):
        return True

    def wit_of(self, eng, st, coll):
        return WANTED

    def on_call(self, eng, c):
        last = c.path.rsplit("::", 1)[-1]
        if last in CMP or last in ("cmp", "partial_cmp"):
            if len(c.args) == 2 and "::cmp::" in c.path + c.decl:
                a, b = (eng.strip_ptr(c.st, x) for x in c.args)
                a, b = (eng.strip_ptr(c.st, V(x)) for x in (a, b))
                for x, y, rel in ((a, b, self.rel), (b, a, {"<": ">", ">": "<"}[self.rel])):
                    if x is WANTED and own_id(y):
                        if last in CMP:
                            return [(mkbool(rel in CMP[last]), c.st)]
                        o = T("agg", "core::cmp::Ordering", {"<": "Less", ">": "Greater"}[rel], 0, ())
                        return [(o if last == "cmp" else some(o), c.st)]
        if c.matches("HashMap::contains_key", *GET) and len(c.args) > 1:
            if eng.strip_ptr(c.st, c.args[1]) is WANTED and self.P.table(eng.strip_ptr(c.st, c.args[0])) == "broker":
                if c.matches("HashMap::contains_key"):
                    return [(mkbool(self.linked), c.st)]
                if not self.linked:
                    return [(NONE, c.st)]
        return None

    def on_await(self, eng, st, fut, frame, block):
        w = site(frame, block)
        ctx = self.ctx
        if is_call(fut, OTHERBROKERS):
            self.unmark(st, "dialled")
            self.n["list"] = 1
        elif is_call(fut, "Protocol::connect"):
            self.n["connect"] = 1
            ctx.ob("dials-in-its-own-task", eng.tasks > 0, w, "the heartbeat task itself waits for a connection to another broker: one that does not answer holds up everything else")
            root, fs = fields(fut.args[1][0])
            while root.op in ("deref", "clone"):
                root = V(root.args[0])
            mine = root is WANTED
            if eng.tasks:
                ctx.ob("dials-private-endpoints-of-registered-brokers", bool(fs) and fs[-1][1] == "private_advertise_endpoint" and (mine or any(is_call(x, OTHERBROKERS) for x in walk(root))), w, "a broker connects to something other than the private endpoint of a registered broker: " + show(fut.args[1][0]))
            if eng.tasks and self.want:
                if mine:
                    ctx.ob("one-that-does-not-answer-holds-up-nobody", not self.marked(st, "waited"), w, "a broker is dialled only after another one has answered, or has been given up")
                else:
                    self.mark(st, "waited")
            if mine:
                if self.linked:
                    ctx.ob("dials-only-unconnected", False, w, "a broker connects to a broker it is connected to already, which ends the session they have")
                elif self.rel == "<":
                    ctx.ob("dials-only-not-lower", False, w, "a broker connects to a broker with a lower identifier, which connects to it as well: the two sessions can end each other")
                else:
                    ctx.ob("dials-only-unconnected", True, w)
        elif is_call(fut, "Inner::handle_broker_connection"):
            self.n["handle"] = 1
            c, vs = okval(fut.args[1][1])
            ctx.ob("connection-is-handled-as-dialled", is_call(c, "Protocol::connect") and vs == ["Ok"] and fut.args[1][2] is TRUE, w, "a connection to another broker is not handled as one that was dialled")
            self.mark(st, "handled")
        return None

    def on_spawn(self, eng, st, fut, frame, block):
        if fut.op == "cor" and fut.args[0] in self.reach:
            self.unmark(st, "waited")
        if fut.op == "cor" and fut.args[0] in self.reach and self.want and any(carries_w(x) for x in fut.args[1]):
            self.ctx.ob("dials-once", not self.marked(st, "dialled"), site(frame, block), "a broker connects to the same broker twice in a round")
            self.mark(st, "dialled")

    def on_task_end(self, eng, st, fut, val, frame, block):
        if not any(carries_w(x) for x in fut.args[1]):
            return
        good = any(f == ("V", frozenset(["Ok"])) and is_call(k, "Protocol::connect") for k, f in st.facts.items())
        if good:
            self.ctx.ob("connection-is-handled", self.marked(st, "handled"), site(frame, block), "a connection to another broker is made and not used")

    def on_loop(self, eng, st, frame, loop, head_):
        if not any(is_call(k, OTHERBROKERS) and f == ("V", frozenset(["Ok"])) and eng.in_loop(k, frame, loop) for k, f in st.facts.items()):
            return
        if self.want:
            self.n["round"] = 1
            self.ctx.ob("every-missing-broker-dialled", self.marked(st, "dialled"), site(frame, head_), "a registered broker with a higher identifier that is not connected is not connected to")


def carries_w(t):
    return any(x is WANTED for x in walk(t))


@check("C33", "dataflow over MIR that follows one arbitrary registered broker (missing, connected, or with a lower identifier) through a round of the heartbeat task and the tasks it spawns")
def c33(ctx):
    g = ctx.graph()
    roots = [r for r in roots_of(g, OTHERBROKERS) if r.startswith("cdn_broker")]
    ctx.need(roots, "the task that asks for the other brokers")
    for r in roots:
        for linked, rel in ((False, ">"), (True, ">"), (False, "<")):
            ck = Meet(ctx, linked, rel)
            outs = ctx.run(r, ck)
            ctx.ob("never-stops-looking", not outs, r, "the task that looks for other brokers can end")
            ctx.need(ck.n.get("list"), "asking for the other brokers")
            if ck.want:
                ctx.need(ck.n.get("connect"), "connecting to other brokers")
                ctx.need(ck.n.get("handle"), "handling connections to other brokers")
                ctx.need(ck.n.get("round"), "rounds that learnt of other brokers")
