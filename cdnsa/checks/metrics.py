"""What the traffic metrics count, and whether and where they are served."""
import re

from . import check
from .common import *
from .run import config_fields
from ..mir import head
from .wire import Reader, Writer, stream_tasks

INIT = "::deref::__static_ref_initialize"
GAUGE = ("GenericGauge::add", "GenericGauge::sub", "GenericGauge::inc", "GenericGauge::dec", "GenericGauge::set", "GenericCounter::inc", "GenericCounter::inc_by", "GenericCounter::reset")
OBSERVE = ("Histogram::observe", "Histogram::start_timer", "Histogram::observe_closure_duration")
SENT, RECV, LAT, RUN = "total_bytes_sent", "total_bytes_recv", "latency", "running_latency"


def names(ctx):
    """static -> the name its metric is registered under"""
    prog = ctx.prog()
    out = {}
    for p in prod(sorted(prog.bodies)):
        m = re.match(r"<(.*) as core::ops::deref::Deref>" + INIT + "$", p)
        if not m:
            continue

        class Name(Rule):
            def on_call(self, eng, c):
                if c.matches("Opts::new", "HistogramOpts::new"):
                    n = const_str(V(eng.strip_ptr(c.st, c.args[0])))
                    out.setdefault(m.group(1), n)
                return None

        ctx.run(p, Name(ctx))
    return out


def metric(ns, t):
    for x in walk(t):
        if x.op == "static":
            m = re.match(r"<(.*) as core::ops::deref::Deref>", str(x.args[0]))
            if m and m.group(1) in ns:
                return ns[m.group(1)]
    return None


def missing(ns, st, name):
    """Is it known that this metric could not be registered?"""
    return any(f[0] == "V" and f[1] == {"None"} and metric(ns, k) == name for k, f in st.facts.items())


def number(t):
    """The value that was converted to a floating point number."""
    t = V(t)
    n = 0
    while n < 9:
        n += 1
        if t.op == "cast" and (t.args[2] in ("f64", "u64", "usize", "u128") or t.args[1] == t.args[2]):
            t = V(t.args[0])
        elif t.op in ("conv", "clone", "deref"):
            t = V(t.args[0])
        elif t.op in ("call", "pure") and t.args[0].endswith(("::from", "::into")) and len(t.args[1]) == 1:
            t = V(t.args[1][0])
        elif okval(t)[1] == ["Ok"] and V(t.args[0]).op in ("call", "pure") and V(t.args[0]).args[0].endswith(("::try_from", "::try_into")):
            t = V(V(t.args[0]).args[1][0])
        else:
            break
    return t


class Counted:
    """Adds to Writer and Reader: what is counted while a message is written or read."""

    def setup(self, ns, mine):
        self.ns, self.mine = ns, mine
        self.adds = 0

    def option(self, st, t):
        """Keeps what is known about whether the metric could be registered."""
        if metric(self.ns, t) == self.mine and not any(m == ("option", t) for m in st.aut or ()):
            self.add(st, "option", t)

    def on_assume(self, eng, st, term, val, frame, block):
        if term.op == "isvar":
            self.option(st, V(term.args[0]))

    def looked_up(self, c):
        if c.matches("Lazy::get", "Deref::deref"):
            for k, f in list(c.st.facts.items()):
                if f[0] == "V":
                    self.option(c.st, k)

    def counts(self, st):
        return [m for m in st.aut or () if m[0] == "count"]

    def counted(self, c, name, amount, complete):
        op = c.path.rsplit("::", 1)[1]
        self.adds += 1
        self.ctx.ob("counts-its-own-metric", name == self.mine, c.where(), f"a message that is {'sent' if self.mine == SENT else 'received'} changes the metric {name}")
        self.ctx.ob("counts-complete-messages", complete, c.where(), "bytes are counted that may not have crossed the stream")
        self.ctx.ob("counts-the-length", op in ("add", "inc_by") and amount, c.where(), "what is counted is not the length of the message")
        self.ctx.ob("counts-once", not self.counts(c.st), c.where(), "a message is counted twice")
        self.add(c.st, "count", name)

    def one(self, st, where):
        self.ctx.ob("every-message-is-counted", self.counts(st) or missing(self.ns, st, self.mine), where, "a message that has crossed the stream is not counted")


class W(Counted, Writer):
    def on_call(self, eng, c):
        self.looked_up(c)
        if c.matches(*GAUGE):
            a = [V(eng.strip_ptr(c.st, x)) for x in c.args]
            it = self.get(c.st, "item")
            ops = self.ops(c.st)
            kinds = [m[1] for m in ops if m[1] in ("head", "body")]
            complete = kinds == ["head", "body"] and not self.get(c.st, "cut") and all(self.good(c.st, m[2]) for m in ops if m[1] in ("head", "body"))
            n = number(a[1]) if len(a) > 1 else None
            self.counted(c, metric(self.ns, a[0]), it is not None and n is not None and self.message_len(c.st, n, it[1]), complete)
        return super().on_call(eng, c)

    def finish(self, st, where):
        it = self.get(st, "item")
        if it is None:
            return
        k = self.kind(st, it[1])
        if k and k <= self.ctl:
            self.ctx.ob("counts-complete-messages", not self.counts(st), where, "a soft close is counted as a message")
        else:
            self.one(st, where)


class R(Counted, Reader):
    def on_call(self, eng, c):
        self.looked_up(c)
        if c.matches(*GAUGE):
            a = [V(eng.strip_ptr(c.st, x)) for x in c.args]
            b, h = self.get(c.st, "body"), self.head(c.st)
            n = number(a[1]) if len(a) > 1 else None
            good = n is not None and (self.is_size(n, h) or n.op == "len" and b is not None and self.buffer(n.args[0]) is b[2])
            self.counted(c, metric(self.ns, a[0]), good, b is not None and self.good(c.st, b[1]) and not self.get(c.st, "cut"))
        return super().on_call(eng, c)

    def on_await(self, eng, st, fut, frame, block):
        if is_call(fut, "async_channel::Sender::send") and self.get(st, "body"):
            self.one(st, site(frame, block))
        return super().on_await(eng, st, fut, frame, block)


def traffic(ctx, g, ns, seen):
    for kind, cls, name in (("w", W, SENT), ("r", R, RECV)):
        rs = stream_tasks(g, kind)
        ctx.need(rs, "the task that " + ("writes" if kind == "w" else "reads") + " a stream")
        n = 0
        for r in rs:
            ck = cls(ctx, "C38")
            ck.setup(ns, name)
            ctx.run(r, ck)
            seen |= ctx.last.stats["bodies"]
            n += ck.adds
        ctx.need(n, "the counting of " + name)


# ---------------------------------------------------------------- latency
def lat_permit(ctx, g, ns, seen):
    prog = g.prog
    drops = sorted(p for h, p in prog.drop_impls.items() if prog.adts.get(h) and any("SemaphorePermit" in f[1] for v in prog.adts[h]["variants"] for f in v[2]))
    ctx.need(drops, "the end of a permit for memory")
    clocks = {}
    for p in drops:

        class Obs(Rule):
            def on_call(self, eng, c):
                if c.matches(*OBSERVE):
                    a = [V(eng.strip_ptr(c.st, x)) for x in c.args]
                    x = a[1] if len(a) > 1 else UNIT
                    good = c.path.endswith("::observe") and x.op == "pure" and x.args[0].endswith("Duration::as_secs_f64")
                    e = V(x.args[1][0]) if good else UNIT
                    f = None
                    if is_call(e, "Instant::elapsed"):
                        r, fs = fields(V(eng.strip_ptr(c.st, e.args[1][0])))
                        while r.op in ("deref", "ref") and not fs:
                            r, fs = fields(V(r.args[0]))
                        f = fs[0][1] if len(fs) == 1 else None
                    ctx.ob("latency-is-the-time-held", metric(ns, a[0]) == LAT and f is not None, c.where(), "what is observed as latency is not how long the message was held")
                    if f is not None:
                        clocks.setdefault(p, set()).add(f)
                    c.st.aut = (c.st.aut or ()) + (("obs",),)
                return None

        outs = ctx.run(p, Obs(ctx))
        seen |= ctx.last.stats["bodies"]
        ctx.need(outs, "the end of a permit for memory")
        for v, st in outs:
            n = len(st.aut or ())
            ctx.ob("latency-once-per-message", n == 1 or n == 0 and missing(ns, st, LAT), p, "the end of a message is not observed exactly once")
    # the clock starts when the memory was granted
    for h, p in prog.drop_impls.items():
        for f in clocks.get(p, ()):
            made = 0
            for b in prod(sorted(prog.bodies)):
                if not any(s[0] == "=" and any("agg" in str(x)[:12] and h in str(x) for x in s[1:] if isinstance(x, list)) for blk in prog.bodies[b].blocks for s in blk[0]):
                    continue
                root = b

                class Clock(Rule):
                    def on_await(self, eng, st, fut, frame, block):
                        if "Semaphore::acquire" in show(fut):
                            st.aut = (st.aut or ()) + (("granted",),)

                    def on_call(self, eng, c):
                        if c.matches("Instant::now"):
                            t = eng.call_term(c) if hasattr(eng, "call_term") else None
                            c.st.aut = (c.st.aut or ()) + (("now",),)
                        return None

                for v, st in ctx.run(root, Clock(ctx)):
                    for x in walk(V(v)):
                        if x.op == "agg" and x.args[0] == h:
                            made += 1
                            t = agg_field(prog, x, f)
                            order = [m[0] for m in st.aut or ()]
                            fine = t is not None and is_call(V(t), "Instant::now") and order and order[-1] == "now" and "granted" in order
                            ctx.ob("latency-starts-with-the-permit", fine, root, "the time a message is held is not measured from when its memory was granted")
            ctx.need(made, "the making of permits for memory")


def running(ctx, g, ns, seen):
    rs = [b.path for b, _, f, _ in g.calls("Histogram::get_sample_sum")]
    rs = roots_of(g, "Histogram::get_sample_sum")
    ctx.need(rs, "the running latency")

    def hist(t, what):
        return is_call(t, "Histogram::get_sample_" + what) and metric(ns, t) == LAT

    def diff(t, what):
        """Now minus then, of the histogram's sum or count."""
        t = number(t)
        if hist(t, what):
            return "first"  # minus nothing
        if t.op == "fld" and not t.args[1] and t.args[2] == 0:
            t = V(t.args[0])  # a checked subtraction
        if t.op not in ("bin", "arith") and "Sub" not in show(t):
            return None
        xs = [V(a) for a in t.args if isinstance(a, T)]
        if len(xs) != 2 or not hist(number(xs[0]), what):
            return None
        b = number(xs[1])
        if b.op == "cst":
            return "first"
        if b.op == "stale" and hist(V(b.args[0]), what):
            return "next"
        return None

    n = 0
    for r in rs:

        class Run(Rule):
            kinds = set()
            waits = set()

            def on_await(self, eng, st, fut, frame, block):
                st.aut = (("wait", show(fut)),)

            def on_call(self, eng, c):
                if c.matches(*GAUGE):
                    a = [V(eng.strip_ptr(c.st, x)) for x in c.args]
                    v = a[1] if len(a) > 1 else UNIT
                    xs = [V(x) for x in v.args if isinstance(x, T)]
                    k = None
                    if "Div" in str(v.args) and len(xs) == 2:
                        k = (diff(xs[0], "sum"), diff(xs[1], "count"))
                        if None in k or k[0] != k[1]:
                            k = None
                    ctx.ob("running-latency-is-the-round's-average", metric(ns, a[0]) == RUN and c.path.endswith("::set") and k is not None, c.where(), "the running latency is not the average over the last round: " + show(v)[:100])
                    Run.kinds.add(k)
                return None

        Run.kinds = set()
        ctx.run(r, Run(ctx))
        seen |= ctx.last.stats["bodies"]
        n += len(Run.kinds)
        ctx.ob("running-latency-of-every-round", ("next", "next") in Run.kinds, r, "the running latency does not start anew with every round")
    ctx.need(n, "the running latency")


# ---------------------------------------------------------------- serving
SERVE = "metrics::serve_metrics"


def serving(ctx, g):
    prog = g.prog
    for new, typ in (("cdn_broker::Broker::new", "cdn_broker::Broker"), ("cdn_marshal::Marshal::new", "cdn_marshal::Marshal")):
        ps = [p for p in prod(sorted(prog.bodies)) if path_is(p, new)]
        if not ctx.need(ps, new):
            continue
        field = [n for n, t, _ in prog.adts[typ]["variants"][0][2] if "Option<" in t and "SocketAddr" in t]
        if not ctx.need(len(field) == 1, "where the metrics are to be served"):
            continue
        ck = Rule(ctx)
        ck.opaque = ("Protocol::bind", "DiscoveryClient::new", "Limiter::new", "tls::load_ca", "tls::generate_cert_from_ca")
        n = 0
        for v, st in ctx.run(ps[0], ck):
            v = V(v)
            if v.op != "agg" or v.args[1] != "Ok":
                continue
            f = V(agg_field(prog, V(v.args[3][0]), field[0]))
            none = any(x[0] == "V" and x[1] == {"None"} and config_fields(k) == {"metrics_bind_endpoint"} for k, x in st.facts.items())
            is_none = f.op == "agg" and f.args[1] == "None"
            n += 1
            ctx.ob("served-where-configured", none if is_none else config_fields(f) == {"metrics_bind_endpoint"}, new, "the metrics are not served where they were configured to be")
        ctx.need(n, "a way for " + new + " to succeed")
        start = typ + "::start"
        ps = [p for p in prod(sorted(prog.bodies)) if path_is(p, start)]
        if not ctx.need(ps, start):
            continue

        class Serve(Rule):
            opaque = (SERVE,)
            aut_live = True
            spawned = waits = 0

            def _inline(self, path):
                return path not in g.spawned and super()._inline(path)

            def mine(self, eng, st, t):
                return any(is_call(x, "tokio::spawn") and is_call(V(x.args[1][0]), SERVE) for x in walk(eng.strip_ptr(st, t)))

            def on_spawn(self, eng, st, fut, frame, block):
                fut = V(fut)
                if is_call(fut, SERVE):
                    r, fs = fields(V(fut.args[1][0]))
                    good = any(x[1] == field[0] for x in fs)
                    Serve.spawned += 1
                    ctx.ob("served-where-configured", good, site(frame, block), "the metrics are not served where they were configured to be")
                    st.aut = (st.aut or ()) + (("serve",),)

            def on_drop(self, eng, st, ty, val, frame, block):
                if any(h in ty for h in guards) and self.mine(eng, st, val):
                    st.aut = (st.aut or ()) + (("gone",),)

            def on_call(self, eng, c):
                if c.matches("JoinHandle::abort", "AbortHandle::abort") and self.mine(eng, c.st, c.args[0]):
                    c.st.aut = (c.st.aut or ()) + (("gone",),)
                return None

            def on_await(self, eng, st, fut, frame, block):
                Serve.waits += 1
                marks = [m[0] for m in st.aut or ()]
                none = any(x[0] == "V" and x[1] == {"None"} and fields(k)[1] and fields(k)[1][-1][1] == field[0] for k, x in st.facts.items())
                ctx.ob("served-while-it-runs", none or "serve" in marks and "gone" not in marks, start, "the metrics are not served while the process runs")

        ctx.run(ps[0], Serve(ctx))
        ctx.need(Serve.spawned, "the serving of metrics")
        ctx.need(Serve.waits, "what " + start + " waits for")
    # what is served
    ps = [p for p in prod(sorted(prog.bodies)) if path_is(p, SERVE)]
    if not ctx.need(ps, SERVE):
        return
    runs = []

    class Run(Rule):
        def on_call(self, eng, c):
            if c.path.startswith("warp::") and c.path.endswith(("Server::run", "Server::bind")):
                a = V(eng.strip_ptr(c.st, c.args[-1]))
                runs.append(1)
                ctx.ob("served-where-configured", a.op == "param", c.where(), "the metrics are not served where they were configured to be")
            return None

    ctx.run(ps[0], Run(ctx))
    ctx.need(runs, "the metrics server")
    n = 0
    for p in prod(sorted({b.path for b, _, _, _ in g.calls("registry::gather")})):
        for v, st in ctx.run(p, Rule(ctx)):
            v = V(v)
            n += 1
            enc = [x for x in walk(v) if x.op in ("call", "pure") and "TextEncoder::encode" in x.args[0]]
            failed = any(x[0] == "V" and x[1] == {"Err"} and "TextEncoder::encode" in show(k) for k, x in st.facts.items())
            ctx.ob("serves-what-was-gathered", failed or enc and any(is_call(x, "registry::gather") for x in walk(v)), p, "what is served is not what was gathered")
    ctx.need(n, "what is served")


guards = ()


@check("C38", "typestate and value flow over MIR: every change of a traffic metric against the message that crossed the stream, the lifetime of a permit, rounds of the running average, and the serving task's handle")
def c38(ctx):
    global guards
    from .run import guards as aborting

    g = ctx.graph()
    ns = names(ctx)
    for n in (SENT, RECV, LAT, RUN):
        ctx.need(list(ns.values()).count(n) == 1, "the metric " + n)
    ctx.ob("one-metric-per-name", len(set(ns.values())) == len(ns), "metrics", "two metrics are registered under one name")
    seen = set()
    traffic(ctx, g, ns, seen)
    lat_permit(ctx, g, ns, seen)
    running(ctx, g, ns, seen)
    # nothing else changes these metrics
    for st_, n in sorted(ns.items()):
        if n not in (SENT, RECV, LAT, RUN):
            continue
        for b in prod(sorted({b.path for p, l in g.sites.items() if p.startswith(f"<{st_} as ") for b, _, _, _ in l})):
            ctx.ob("nothing-else-counts", b in seen or b.startswith("<" + st_), b, f"the metric {n} is used outside of where messages cross streams")
    guards = aborting(ctx, g.prog)
    serving(ctx, g)
