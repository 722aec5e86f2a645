"""Connections: deadlines, accepting, framing, memory, stream operations, teardown, ordering."""
from . import check
from .common import *
from .auth import AUTH_EVENTS, ISSUE, inserts, broker_roots

DISCOVERY = "cdn_proto::discovery::DiscoveryClient::"
NET = ("::tcp::", "::tcp_tls::", "::quic::")


def is_discovery(t):
    return t.op == "call" and ("DiscoveryClient" in t.args[0])


def network(path):
    return any(n in path for n in NET) and "::tests::" not in path


class Deadline(Rule):
    """Every wait on the peer or on the discovery service before registration is under a deadline."""

    events = AUTH_EVENTS
    limit = 5000

    def __init__(self, ctx, variant, which):
        self.which = which
        super().__init__(ctx, variant)
        self.n = 0

    def extra_sinks(self, g):
        return inserts(g, self.which) if self.which else ()

    def on_call(self, eng, c):
        if self.which and c.matches(*MAP_INSERT) and session_map(eng.prog, c.argtys[0]) == self.which:
            return []
        return None

    def on_await(self, eng, st, fut, frame, block):
        if is_call(fut, *RECV) or is_call(fut, *SEND) or is_discovery(fut):
            self.n += 1
            d = unelapsed(eng)
            what = fut.args[0].split("::")[-1]
            self.ctx.ob("wait-has-deadline", d is not None and 0 < d <= self.limit, site(frame, block), f"a login waits for {what} " + ("without a deadline" if d is None else f"for up to {d} ms"))


class Handshake(Rule):
    """Waits while a transport connection is being set up."""

    opaque = ()

    def __init__(self, ctx):
        super().__init__(ctx)
        self.n = 0

    def on_await(self, eng, st, fut, frame, block):
        if fut.op == "guard":
            return
        self.n += 1
        d = unelapsed(eng)
        quinn = "Incoming" in repr(self.ty(frame, fut)) if d is None else False
        self.ctx.ob("handshake-has-deadline", quinn or d is not None and 0 < d <= 5000, site(frame, block), "setting up a connection waits " + ("without a deadline: " if d is None else f"for up to {d} ms: ") + show(fut)[:120])

    def ty(self, frame, fut):
        """The declared type of a future that is a field of the value being finalized: quinn's own handshake, which
        its idle timer bounds."""
        root, fs = fields(fut)
        if root.op == "param" and fs:
            from ..mir import head

            a = self.prog.adts.get(head(root.args[1]))
            if a:
                return [f[1] for f in a["variants"][0][2]]
        if is_call(fut, "Incoming::accept") or fut.op == "fld" and is_call(okval(fut)[0], "Incoming::accept"):
            return "Incoming"
        return ""

    def on_call(self, eng, c):
        if c.matches("TransportConfig::max_idle_timeout"):
            v = V(c.args[1])
            self.ctx.ob("idle-timer-on", not (v.op == "agg" and v.args[1] == "None"), c.where(), "the idle timer that bounds QUIC waits is turned off")
        return None


@check("C07", "timeout-scope dataflow over MIR: the deadline that encloses every wait on a peer before registration and during the transport handshake")
def c07(ctx):
    n = 0
    for v in ("default", "global-permits"):
        g = ctx.graph(v)
        for r in roots_of(g, ISSUE):
            ck = Deadline(ctx, v, None)
            ctx.run(r, ck, v)
            n += ck.n
        ctx.need(n, "waits in the marshal's login")
        for r in prod(g.roots(inserts(g, "user"))):
            ck = Deadline(ctx, v, "user")
            ctx.run(r, ck, v)
            ctx.need(ck.n, "waits in the broker's login of users")
    g = ctx.graph()
    for r, outb in broker_roots(ctx, g):
        ck = Deadline(ctx, "default", "broker")
        ctx.run(r, ck)
        ctx.need(ck.n, "waits in the login of brokers")
    hs = [p for p in g.prog.bodies if network(p) and (path_is(p, "Protocol::connect") or path_is(p, "UnfinalizedConnection::finalize"))]
    ctx.need(len(hs) >= 4, "the handshakes of the network transports")
    n = 0
    for p in hs:
        ck = Handshake(ctx)
        ctx.run(p, ck)
        n += ck.n
    ctx.need(n, "waits of the handshakes")


# ---------------------------------------------------------------- accept loops
HELD_BY_TASKS = (
    "Semaphore::acquire", "Semaphore::acquire_owned", "Semaphore::acquire_many", "Semaphore::acquire_many_owned",
    "JoinSet::join_next", "JoinSet::join_all", "JoinSet::shutdown", "JoinHandle::await", "AbortOnDropHandle::await", "Notify::notified", "Barrier::wait",
    "Mutex::lock", "Mutex::lock_owned", "RwLock::read", "RwLock::write", "Sender::send", "Sender::reserve", "Sender::closed", "Receiver::recv", "Receiver::changed", "Receiver::wait_for",
    "OnceCell::get_or_init", "OnceCell::get_or_try_init",
)


class Accept(Rule):
    """The loop that accepts connections never waits for one of them."""

    events = ("Listener::accept", "UnfinalizedConnection::finalize") + CONN_API

    def __init__(self, ctx, depth_all=False):
        super().__init__(ctx)
        self.accepts = 0

    def extra_sinks(self, g):
        return [p for p in g.prog.bodies if path_is(p, "Listener::accept")]

    def _inline(self, path):
        if path_is(path, "Listener::accept") or path_is(path, "UnfinalizedConnection::finalize"):
            return False
        return super()._inline(path)

    def on_await(self, eng, st, fut, frame, block):
        if is_call(fut, "Listener::accept"):
            self.accepts += 1
            st.aut = ()
            return
        # a pause that is repeated until something else happens
        if is_call(fut, "tokio::time::sleep", "tokio::time::sleep::sleep", "yield_now"):
            here = ("paused", site(frame, block))
            self.ctx.ob("accept-loop-does-not-wait-for-tasks", here not in (st.aut or ()), site(frame, block), "accepting connections pauses again and again without accepting")
            st.aut = tuple(sorted({*(st.aut or ()), here}, key=str))
        dep = [x for x in walk(fut) if is_call(x, "Listener::accept", *CONN_API)]
        self.ctx.ob("accept-loop-does-not-wait-for-peers", not dep, site(frame, block), "accepting connections waits for an accepted peer: " + show(fut)[:120])
        # what the tasks of accepted peers give back, send or finish
        others = [x for x in walk(fut) if is_call(x, *HELD_BY_TASKS)]
        self.ctx.ob("accept-loop-does-not-wait-for-tasks", not others, site(frame, block), "accepting connections waits for the tasks of accepted peers: " + show(fut)[:120])


class RawAccept(Rule):
    """A transport's accept does nothing that an accepted peer can delay."""

    opaque = ()

    def on_await(self, eng, st, fut, frame, block):
        good = is_call(fut, "TcpListener::accept", "Endpoint::accept")
        self.ctx.ob("accept-does-not-handshake", good or not any(is_call(x, "TcpListener::accept", "Endpoint::accept") for x in walk(fut)), site(frame, block), "accepting a connection waits for the peer: " + show(fut)[:120])


@check("C08", "await-dependence dataflow over MIR: what the accept loops wait for between two accepts")
def c08(ctx):
    g = ctx.graph()
    roots = [r for r in roots_of(g, "Listener::accept")]
    # the loops themselves: bodies that call accept
    loops = prod(sorted({b.path for b, _, _, _ in g.calls("Listener::accept")}))
    ctx.need(len(loops) >= 3, "the accept loops of marshal and broker")
    for p in loops:
        ck = Accept(ctx)
        ctx.run(p, ck)
        ctx.ob("accept-loop", ck.accepts > 0, p, "the accept loop does not accept")
    acc = [p for p in g.prog.bodies if network(p) and path_is(p, "Listener::accept")]
    ctx.need(len(acc) >= 3, "the listeners of the network transports")
    for p in acc:
        ctx.run(p, RawAccept(ctx))
