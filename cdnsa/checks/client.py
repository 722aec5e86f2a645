"""The client: one connection at a time, kept up in the background, and the subscriptions that go with it."""
from . import check
from .common import *
from .tasks import SLEEP, slept
from ..engine import Engine, State
from ..models import tab, lcoll, OTHERS, guard_of, has_wit, LOCKS
from ..mir import head, targs

W = T("wit", "topic")
VEC = "alloc::vec::Vec"
OPS = ("Connection::recv_message", "Connection::send_message", "Connection::soft_close", "Connection::recv_message_raw", "Connection::send_message_raw")
SEM = "Semaphore::"
ATTEMPT = 30000
PAUSE = 30000


class Anatomy:
    """The parts of the client, by their types."""

    def __init__(self, ctx, variant="default"):
        self.ctx = ctx
        prog = self.prog = ctx.prog(variant)
        self.g = ctx.graph(variant)
        self.state = None
        for p, a in sorted(prog.adts.items()):
            if p.startswith("cdn_client::") and a.get("local") and a["kind"] == "struct":
                fs = a["variants"][0][2]
                if any(self.lock(f[1]) and CONN_TY in f[1] for f in fs):
                    self.state, self.fs = p, fs
        ctx.need(self.state, "the client's state")
        if not self.state:
            return
        one = lambda pred: next((f[0] for f in self.fs if pred(f[1])), None)
        self.conn = one(lambda t: self.lock(t) and CONN_TY in t)
        self.subs = one(lambda t: self.lock(t) and ("Set<u8" in t or "Vec<u8" in t))
        self.sem = one(lambda t: "Semaphore" in t)
        self.task = one(lambda t: "AbortOnDrop" in t or "JoinHandle" in t or "AbortHandle" in t)
        for n, x in (("connection", self.conn), ("subscriptions", self.subs), ("guard", self.sem)):
            ctx.need(x, "the client's " + n)
        # the functions of the client
        def mine(b):
            return b.path.startswith("cdn_client::") and b.kind not in ("Closure",) and "Coroutine" not in b.kind and "::{" not in b.path
        self.fns = [p for p in prod(sorted(prog.bodies)) if mine(prog.bodies[p]) and "::binaries" not in p]
        self.pub = [p for p in self.fns if prog.bodies[p].raw.get("reach") or prog.bodies[p].raw.get("pub")]

    def lock(self, t):
        return "RwLock<" in t or "Mutex<" in t

    def field(self, place):
        """Name of the client's field a place denotes (or lies in)."""
        t = place
        names = {f[0] for f in self.fs}
        out = None
        while isinstance(t, T) and t.op in ("locked", "deref", "addr", "fld", "place", "conv", "clone", "as", "upd", "mod"):
            if t.op == "place":
                r = t.args[0]
                return out or self.of_ref(r)
            if t.op == "fld" and str(t.args[3]) in names:
                return str(t.args[3])
            t = t.args[0]
        if isinstance(t, T) and t.op == "ref":
            return self.of_ref(t)
        return None

    def of_ref(self, r):
        return None

    def locked(self, t):
        """Name of the field when t lies under its lock."""
        t = V(t)
        while t.op in ("fld", "as", "clone", "deref", "conv", "addr", "upd", "mod"):
            t = t.args[0]
        return self.field(t) if t.op == "locked" else None


class Client(Rule):
    """Marks: ("held", guard, field), ("op", future), ("taken",), ("stored", value), ("open",), ("shut",), ("paused",) ..."""

    opaque = OPS
    aut_live = True

    def __init__(self, ctx, a, variant="default"):
        super().__init__(ctx, variant)
        self.a = a
        self.n = {}

    def count(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def add(self, st, *m):
        if m[0] == "op" or m not in (st.aut or ()):
            st.aut = (st.aut or ()) + (m,)

    def guard(self, ty, val):
        """The lock that is released when a value is dropped."""
        v = V(val)
        if v.op == "agg" and v.args[3] and v.args[0] in (RESULT, OPTION):
            v = V(v.args[3][0])
        return guard_of(v) if "Guard<" in ty and "Coroutine" not in ty and "{closure" not in head(ty) else None

    def ms(self, st, k):
        return [m for m in st.aut or () if m[0] == k]

    def drop(self, st, f):
        st.aut = tuple(m for m in st.aut or () if not f(m))

    def held(self, st, field):
        return [m for m in self.ms(st, "held") if m[2] == field]

    def on_lock(self, eng, st, g, inner, frame, block):
        self.add(st, "held", g, self.a.field(inner), "write" in g.args[0] or "Mutex" in g.args[0])

    def on_drop(self, eng, st, ty, val, frame, block):
        g = self.guard(ty, val)
        if g is not None:
            self.drop(st, lambda m: m[0] == "held" and m[1] is g)
        if "SemaphorePermit" in ty:
            self.add(st, "released")

    def sem(self, eng, c):
        return self.a.field(eng.strip_ptr(c.st, c.args[0])) == self.a.sem or self.a.field(c.args[0]) == self.a.sem


class Uses(Client):
    """A function of the client that uses the connection."""

    def on_await(self, eng, st, fut, frame, block):
        if is_call(fut, *OPS):
            self.count("op")
            c = V(fut.args[1][0])
            ok_ = self.a.locked(c) == self.a.conn
            self.ctx.ob("uses-the-current-connection", ok_, site(frame, block), "the client uses something other than its current connection: " + show(c)[:120])
            self.add(st, "op", fut)

    def on_store(self, eng, st, place, val, frame, block):
        if self.a.locked(place) == self.a.conn or place.op == "locked" and self.a.field(place) == self.a.conn:
            v = V(val)
            if v.op == "agg" and v.args[1] == "None":
                self.add(st, "taken")
            else:
                self.ctx.ob("connections-come-from-reconnecting", False, site(frame, block), "the client's connection is replaced outside of the task that connects")

    def on_call(self, eng, c):
        if c.matches("mem::take", "mem::replace", "Option::take", "Option::take_if") and c.args and self.a.locked(eng.strip_ptr(c.st, c.args[0])) == self.a.conn and c.path.split("::")[-1] == "take_if":
            return None
        return None


def idle(st, a):
    """Has the path seen that somebody is connecting?"""
    for k, f in st.facts.items():
        if is_call(k, SEM + "available_permits") and f[0] == "I" and f[2] <= 0:
            return True
        if is_call(k, SEM + "try_acquire", SEM + "try_acquire_owned") and f[0] == "V" and f[1] == {"Err"}:
            return True
    return False


def uses(ctx, a):
    ops = {b.path for n in OPS for b, _, _, _ in a.g.calls(n)}
    n = 0
    for p in a.pub:
        reach = a.g.reach([p])
        if not (reach & set(prod(ops))):
            continue
        ck = Uses(ctx, a)
        outs = ctx.run(p, ck)
        if not ck.n.get("op"):
            continue
        n += 1
        for v, st in outs:
            os = [m[1] for m in ck.ms(st, "op")]
            v = V(v)
            good = v.op == "agg" and v.args[1] == "Ok" or v.op == "fld" or v.op == "call"
            failed = [o for o in os if "Err" in (variant_of(st, o) or {"Ok", "Err"})]
            ctx.ob("one-attempt-per-call", len(os) <= 1, p, "one call of the client sends or receives more than once")
            if v.op == "agg" and v.args[1] == "Ok":
                ctx.ob("success-means-done", not failed, p, "the client reports success although using the connection failed")
            ctx.ob("failed-connections-are-given-up", not failed or ck.ms(st, "taken") or idle(st, a), p, "a connection that failed is kept, and nothing reconnects")
            ctx.ob("working-connections-are-kept", bool(failed) or not ck.ms(st, "taken"), p, "a connection is given up although nothing failed on it")
    return n


class Reconnect(Client):
    """The task that connects."""

    def __init__(self, ctx, a, permit, variant="default"):
        super().__init__(ctx, a, variant)
        self.permit = permit

    def on_call(self, eng, c):
        if c.matches(SEM + "is_closed") and self.sem(eng, c):
            # once closed, it stays closed
            if self.ms(c.st, "shut"):
                return [(TRUE, c.st)]
            s2 = c.st.copy()
            self.drop(s2, lambda m: m[0] == "open")
            self.drop(c.st, lambda m: m[0] == "open")
            self.add(c.st, "shut")
            if self.held(s2, self.a.conn):
                self.add(s2, "open")
            return [(TRUE, c.st), (FALSE, s2)]
        return None

    def on_lock(self, eng, st, g, inner, frame, block):
        super().on_lock(eng, st, g, inner, frame, block)

    def on_drop(self, eng, st, ty, val, frame, block):
        super().on_drop(eng, st, ty, val, frame, block)
        if not self.held(st, self.a.conn):
            self.drop(st, lambda m: m[0] == "open")

    def on_await(self, eng, st, fut, frame, block):
        w = site(frame, block)
        if is_call(fut, *SLEEP):
            d = slept(fut)
            self.add(st, "paused")
            self.ctx.ob("retries-are-paced", d is not None and 0 < d <= PAUSE, w, "the pause before the next attempt is not a positive constant of at most half a minute")
            return
        if fut.op == "guard":
            return
        d = unelapsed(eng)
        self.ctx.ob("attempts-are-bounded", d is not None and 0 < d <= ATTEMPT, w, "an attempt to connect waits without a deadline")
        if is_call(fut, "Protocol::connect"):
            self.count("dial")
            self.ctx.ob("connects-only-when-open", bool(self.ms(st, "open")), w, "the client connects without having seen, since it took hold of the connection, that it is not closed")
            if not self.ms(st, "dialled"):
                self.add(st, "dialled")

    def on_timeout(self, eng, st, fut, frame, block):
        pass

    def on_loop(self, eng, st, frame, loop, head):
        if self.ms(st, "dialled"):
            self.ctx.ob("retries-are-paced", bool(self.ms(st, "paused")), site(frame, head), "another attempt to connect follows without a pause")
        self.drop(st, lambda m: m[0] in ("dialled", "paused"))
        if self.ms(st, "shut"):
            self.ctx.ob("closing-ends-connecting", not self.ms(st, "again"), site(frame, head), "the task that connects goes on after it has seen that the client is closed")
            self.add(st, "again")

    def on_elapsed(self, eng, st, fut, frame, block):
        if not self.ms(st, "dialled"):
            self.add(st, "dialled")

    def on_store(self, eng, st, place, val, frame, block):
        if not (place.op == "locked" and self.a.field(place) == self.a.conn):
            return
        w = site(frame, block)
        v = V(val)
        if v.op == "agg" and v.args[1] == "Some":
            c, vs = okval(v.args[3][0])
            self.count("store")
            self.ctx.ob("connections-are-new", is_call(c, "Protocol::connect") and vs == ["Ok"], w, "what is kept as the connection is not one that was just made")
            self.ctx.ob("stored-only-when-open", bool(self.ms(st, "open")), w, "a connection is kept although the client may have been closed")
            self.ctx.ob("one-reconnect-at-a-time", self.permit and not self.ms(st, "released"), w, "the right to connect is given back before the connection is in place")
            self.add(st, "stored")
        else:
            self.ctx.ob("connections-are-new", False, w, "the task that connects takes the connection away")


def connecting(ctx, a):
    """Spawned tasks of the client that connect."""
    g = a.g
    dial = {b.path for b, _, _, _ in g.calls("Protocol::connect")}
    return [r for r in prod(g.roots(prod(dial))) if r in g.spawned and r.startswith("cdn_client")]


class Spawns(Client):
    opaque = OPS

    def __init__(self, ctx, a, rs):
        super().__init__(ctx, a)
        self.rs = rs

    def on_spawn(self, eng, st, fut, frame, block):
        if fut.op == "cor" and fut.args[0] in self.rs:
            self.count("spawn")
            ps = [okval(x)[0] for x in walk(T("tup", tuple(fut.args[1]))) if okval(x)[1] == ["Ok"]]
            ps = [x for x in ps if is_call(x, SEM + "try_acquire_owned", SEM + "acquire_owned")]
            self.ctx.ob("one-reconnect-at-a-time", any(self.a.field(V(x.args[1][0])) == self.a.sem for x in ps), site(frame, block), "a task that connects is started without the right to connect, or does not keep it")
            self.add(st, "spawned", fut)

    def on_store(self, eng, st, place, val, frame, block):
        if place.op == "locked" and self.a.field(place) == self.a.task:
            for m in self.ms(st, "spawned"):
                if any(x is m[1] for x in walk(val)):
                    self.add(st, "owned", m[1])


class Close(Client):
    def on_call(self, eng, c):
        if c.matches(SEM + "close") and self.sem(eng, c):
            self.add(c.st, "closed")
        if c.matches("JoinHandle::abort", "AbortHandle::abort"):
            self.add(c.st, "abort")
        return None

    def on_drop(self, eng, st, ty, val, frame, block):
        super().on_drop(eng, st, ty, val, frame, block)
        if "AbortOnDrop" in ty:
            self.add(st, "abort")

    def on_await(self, eng, st, fut, frame, block):
        if fut.op == "guard" and self.a.field(T("locked", fut.args[1][0])) == self.a.conn:
            self.ctx.ob("close-shuts-first", bool(self.ms(st, "closed")), site(frame, block), "closing the client waits for the connection before it forbids new ones")
            self.ctx.ob("close-stops-connecting", bool(self.ms(st, "abort")) or self.none(st), site(frame, block), "closing the client waits for an attempt to connect that it does not stop")

    def none(self, st):
        return any(self.a.locked(k) == self.a.task and f[0] == "V" and f[1] == {"None"} for k, f in st.facts.items())

    def on_store(self, eng, st, place, val, frame, block):
        if place.op == "locked" and self.a.field(place) == self.a.conn:
            v = V(val)
            if v.op == "agg" and v.args[1] == "None":
                ok_ = bool(self.ms(st, "closed")) and any(m[3] for m in self.held(st, self.a.conn))
                self.ctx.ob("close-shuts-first", ok_, site(frame, block), "closing the client drops the connection before it forbids new ones")
                self.add(st, "taken")
                self.count("taken")


class Ready(Client):
    """ensure_initialized and the like: success means that there is a connection."""

    def on_call(self, eng, c):
        return None


def lifecycle(ctx, a):
    rs = connecting(ctx, a)
    ctx.need(rs, "the task that connects")
    for r in rs:
        body = a.prog.bodies[r]
        permit = any("SemaphorePermit" in str(x) for x in upvar_types(a.prog, body))
        ck = Reconnect(ctx, a, permit)
        outs = ctx.run(r, ck)
        ctx.need(ck.n.get("dial") and ck.n.get("store"), "the connection that is made")
        for v, st in outs:
            ctx.ob("connects-until-it-succeeds", bool(ck.ms(st, "stored") or ck.ms(st, "shut")), r, "the task that connects can end without a connection although the client is not closed")
    n = 0
    reach = a.g.callers({b.path for r in rs for b, _ in a.g.spawned[r]})
    for p in a.pub:
        if p in reach:
            ck = Spawns(ctx, a, rs)
            outs = ctx.run(p, ck)
            n += ck.n.get("spawn", 0)
            for v, st in outs:
                sp = [m[1] for m in ck.ms(st, "spawned")]
                ctx.ob("reconnecting-is-owned", all(any(m[1] is f for m in ck.ms(st, "owned")) for f in sp), p, "closing the client cannot stop the task that connects: its handle is not kept")
    ctx.need(n, "where the task that connects is started")
    # closing
    cl = [p for p in a.pub if a.g.reach([p]) & {b.path for b, _, _, _ in a.g.calls(SEM + "close")}]
    ctx.need(cl, "closing of the client")
    for p in cl:
        ck = Close(ctx, a)
        for v, st in ctx.run(p, ck):
            ctx.ob("close-drops-the-connection", bool(ck.ms(st, "closed")) and bool(ck.ms(st, "taken")), p, "a closed client keeps its connection, or can get another")
    for n in ("add_permits", "forget_permits"):
        for b, _, _, _ in a.g.calls(SEM + n):
            ctx.ob("one-reconnect-at-a-time", not b.path.startswith("cdn_client::"), b.path, "the number of tasks that may connect is changed")
    for b, _, _, _ in a.g.calls("SemaphorePermit::forget", "OwnedSemaphorePermit::forget", "mem::forget"):
        ctx.ob("one-reconnect-at-a-time", not b.path.startswith("cdn_client::"), b.path, "the right to connect is lost")
    # one permit
    k = 0
    for p in a.fns:
        ret = a.prog.bodies[p].locals[0][0]
        if a.g.reach([p]) & {b.path for b, _, _, _ in a.g.calls(SEM + "const_new", SEM + "new")} and "cdn_client::" in ret:
            for v, st in ctx.run(p, Client(ctx, a)):
                for x in walk(V(v)):
                    if is_call(x, SEM + "const_new", SEM + "new"):
                        k += 1
                        n_ = V(x.args[1][0])
                        lo, hi = int_bounds(st, n_)
                        ctx.ob("one-reconnect-at-a-time", lo == hi == 1, p, "more or fewer than one task may connect at a time")
    ctx.need(k, "the right to connect")
    # ready
    rd = [p for p in a.pub if a.prog.bodies[p].is_async and waits_for(a, p)]
    for p in rd:
        ck = Ready(ctx, a)
        for v, st in ctx.run(p, ck):
            v = V(v)
            if v.op == "agg" and v.args[1] == "Ok":
                have = any(a.locked(k) == a.conn and f[0] == "V" and f[1] == {"Some"} for k, f in st.facts.items())
                ctx.ob("ready-means-connected", have, p, "the client is reported to be connected although it may not be")


def waits_for(a, p):
    """A function that waits for the right to connect itself."""
    return bool(a.g.reach([p]) & {b.path for b, _, _, _ in a.g.calls(SEM + "acquire")})


def upvar_types(prog, body):
    return [l[0] for l in body.locals] + [str(body.raw.get("upvar_tys"))]


@check("C28", "typestate and lock-scope dataflow over MIR of the client: who may connect, what is kept as the connection, what a failure and a close do")
def c28(ctx):
    a = Anatomy(ctx)
    if not a.state:
        return
    ctx.need(uses(ctx, a) >= 3, "the client's functions that use the connection")
    lifecycle(ctx, a)


# ---------------------------------------------------------------- subscriptions
class Subs(Client):
    """One topic W, in the set of subscriptions or not."""

    witness = True
    anonymous = True
    tabs = True
    opaque = OPS

    def __init__(self, ctx, a, has, setty):
        super().__init__(ctx, a)
        self.has = has
        self.setty = setty

    def content(self):
        return tab(self.setty, W, UNIT, True) if self.has else tab(self.setty, None, None, True)

    def on_lock(self, eng, st, g, inner, frame, block):
        super().on_lock(eng, st, g, inner, frame, block)
        if self.a.field(inner) == self.a.subs:
            n = len(self.ms(st, "subs"))
            self.add(st, "subs", g)
            prev = next((m[1] for m in self.ms(st, "was")), None)
            st.heap[inner] = prev if prev is not None else self.content()
            if n:
                self.add(st, "relocked")

    def on_drop(self, eng, st, ty, val, frame, block):
        g = self.guard(ty, val)
        if g is not None and any(m[1] is g for m in self.held(st, self.a.subs)):
            x = st.heap.get(T("locked", g.args[1][0]))
            self.drop(st, lambda m: m[0] == "was")
            if x is not None:
                self.add(st, "was", x)
            else:
                self.add(st, "was", T("top"))
        super().on_drop(eng, st, ty, val, frame, block)

    def topics(self, eng, st, v):
        v = V(v)
        n = 0
        while v.op in ("addr", "conv", "clone") and n < 9:
            v, n = V(v.args[0]), n + 1
        return has_wit(eng, st, v)

    def on_await(self, eng, st, fut, frame, block):
        if is_call(fut, "Connection::send_message"):
            m = message(V(fut.args[1][1]))
            if m and m[0] in ("Subscribe", "Unsubscribe"):
                self.count("send")
                self.add(st, "sent", fut, m[0], self.topics(eng, st, m[1][0]), bool(self.held(st, self.a.subs)), any(x[3] for x in self.held(st, self.a.conn)), bool(self.ms(st, "relocked")))


def subscriptions(ctx, a):
    prog = a.prog
    setty = next(t for n, t in a.fs if n == a.subs) if False else None
    for f in a.fs:
        if f[0] == a.subs:
            setty = f[1]
    while head(setty).endswith(("Arc", "RwLock", "Mutex")):
        setty = targs(setty)[-1]
    rs = connecting(ctx, a)
    for kind in ("Subscribe", "Unsubscribe"):
        bs = set(builders(a.g, kind))
        fns = [p for p in a.pub if a.g.reach([p], ) & bs and not a.g.reach([p]) & set()]
        fns = [p for p in fns if topics_arg(prog.bodies[p])]
        n = 0
        for p in fns:
            runs = [one(ctx, a, p, has, asked, setty) for has in (True, False) for asked in (True, False)]
            # those that only start the task that connects do not count
            if any(any(m[2] == kind for m in ck.ms(s, "sent")) for ck, _, _, outs in runs for _, s in outs):
                n += 1
                for r in runs:
                    judge(ctx, p, kind, *r)
        ctx.need(n, "the client's " + kind)
    for r in rs:
        for has in (True, False):
            ck = Login(ctx, a, has, setty)
            ctx.run(r, ck)
            ctx.need(ck.n.get("send"), "the subscriptions that are sent on a new connection")
    # nobody else changes them
    

def topics_arg(body):
    return [i for i in range(1, body.argc + 1) if "u8" in body.locals[i][0] and ("Vec<" in body.locals[i][0] or "[u8]" in body.locals[i][0])]


def one(ctx, a, p, has, asked, setty):
    body = a.prog.bodies[p]
    ck = Subs(ctx, a, has, setty)
    st = State()
    args = []
    ta = topics_arg(body)
    for i in range(1, body.argc + 1):
        ty = body.locals[i][0]
        if i in ta:
            x = T("lcoll", VEC, frozenset([W, OTHERS] if asked else [OTHERS]))
            args.append(T("addr", x) if ty.startswith("&") else x)
        else:
            args.append(T("param", body.names.get(i, str(i)), ty))
    e = Engine(a.prog, ck, budget=400000)
    outs = e.run(p, args, st=st)
    ctx.n["roots"] += 1
    for k in ("blocks", "states", "calls"):
        ctx.n[k] += e.stats[k]
    ctx.bodies |= e.stats["bodies"]
    if p not in ctx.rootnames:
        ctx.rootnames.append(p)
    return ck, has, asked, outs


def judge(ctx, p, kind, ck, has, asked, outs):
    sub = kind == "Subscribe"
    for v, s in outs:
        v = V(v)
        good = v.op == "agg" and v.args[1] == "Ok"
        sent = ck.ms(s, "sent")
        was = next((m[1] for m in ck.ms(s, "was")), None)
        after = was.args[1] is not None if was is not None and was.op == "tab" else (None if was is not None else has)
        done = [m for m in sent if variant_of(s, m[1]) == {"Ok"}]
        for m in sent:
            ctx.ob("right-request", m[2] == kind, p, "the client asks the broker for the opposite of what it was asked for")
            ctx.ob("only-the-named-topics", m[3] is False or asked, p, "the client names a topic it was not asked about")
            ctx.ob("changes-are-atomic", m[4] and not m[6], p, "the client's subscriptions can change while a change is being sent")
        named = any(m[3] is True for m in done)
        maybe = any(m[3] is None for m in done)
        want = (True if sub else False) if named else has
        ctx.ob("recorded-as-sent", maybe is False and after is want, p, "what the client remembers as its subscriptions differs from what it told the broker" + (" (has)" if has else "") + (" (asked)" if asked else ""))
        if good and asked:
            ctx.ob("success-means-done", after is sub, p, "the client reports success, but the subscription did not change")


class Login(Subs):
    """A new connection is told the subscriptions."""

    def on_await(self, eng, st, fut, frame, block):
        super().on_await(eng, st, fut, frame, block)
        if is_call(fut, "Connection::send_message"):
            m = message(V(fut.args[1][1]))
            if m and m[0] == "Subscribe":
                w = site(frame, block)
                t = self.topics(eng, st, m[1][0])
                self.ctx.ob("new-connections-get-the-subscriptions", t is self.has, w, "the subscriptions sent on a new connection are not those the client remembers")
                self.ctx.ob("no-changes-while-connecting", any(x[3] for x in self.held(st, self.a.conn)), w, "subscriptions can be changed on the old connection after they were read for the new one")

    def on_lock(self, eng, st, g, inner, frame, block):
        if self.a.field(inner) == self.a.subs:
            self.ctx.ob("no-changes-while-connecting", any(x[3] for x in self.held(st, self.a.conn)), site(frame, block), "subscriptions are read for a new connection while they can still be changed on the old one")
            self.drop(st, lambda m: m[0] in ("was", "subs", "relocked"))
        super().on_lock(eng, st, g, inner, frame, block)


@check("C29", "witness dataflow over MIR of the client: one arbitrary topic, in the set or not, asked about or not, under the lock that guards the set")
def c29(ctx):
    a = Anatomy(ctx)
    if not a.state:
        return
    subscriptions(ctx, a)
