"""What a broker and a marshal are set up with, and what becomes of them when one of their tasks ends."""
from . import check
from .common import *
from .auth import inserts
from .crypto import params, plain, strings, PROTOCOL
from ..mir import head

SETUP = ("Protocol::bind", "DiscoveryClient::new", "Limiter::new", "tls::load_ca", "tls::generate_cert_from_ca")
LISTENER = "Protocol::Listener<"


def config_fields(t):
    """The fields of the configuration a value is made from."""
    out = set()

    def go(x):
        if x.op == "fld":
            r, fs = fields(x)
            if r.op == "param" and "Config" in str(r.args[1]) and fs:
                out.add(fs[0][1])
                return
        if x.op == "param" and "Config" in str(x.args[1]):
            out.add("*")
            return
        for y in x.args:
            for z in y if isinstance(y, (tuple, frozenset)) else (y,):
                if isinstance(z, T):
                    go(z)

    go(t)
    return out


class Setup(Rule):
    opaque = SETUP

    def __init__(self, ctx, variant="default"):
        super().__init__(ctx, variant)
        self.binds = []
        self.disc = []
        self.limits = []
        self.ca = []
        self.gen = []

    def on_call(self, eng, c):
        a = [plain(eng.strip_ptr(c.st, x)) for x in c.args]
        if c.matches("Protocol::bind"):
            self.binds.append((c.fn.get("self", ""), a, c.where()))
        elif c.matches("DiscoveryClient::new"):
            self.disc.append((a, c.where()))
        elif c.matches("Limiter::new"):
            self.limits.append((a, c.where()))
        elif c.matches("tls::load_ca"):
            self.ca.append((a, c.where()))
        elif c.matches("tls::generate_cert_from_ca"):
            self.gen.append((a, c.where()))
        return None


def setup(ctx, prog, new, endpoints, identity):
    """endpoints: kind of listener -> the field it is bound to."""
    ob = ctx.ob
    ck = Setup(ctx)
    outs = [(V(v), st) for v, st in ctx.run(new, ck)]
    made = [(V(v.args[3][0]), st) for v, st in outs if v.op == "agg" and v.args[1] == "Ok"]
    ctx.need(made, "a way for " + new + " to succeed")
    ctx.need(len(ck.binds) >= len(endpoints), "the listeners of " + new)
    ctx.need(ck.disc, "the discovery client of " + new)
    ctx.need(ck.limits, "the limiter of " + new)

    def only(t, *names):
        return config_fields(t) == set(names)

    for ty, a, w in ck.binds:
        kind = "Broker" if "RunDef::Broker" in ty else "User"
        ob("listens-where-configured", only(a[0], endpoints.get(kind)), w, f"the listener for {kind.lower()}s is bound to {sorted(config_fields(a[0]))}")
        for k in (1, 2):
            c = [x for x in walk(a[k]) if is_call(x, "tls::generate_cert_from_ca")]
            ob("presents-its-certificate", c and all(config_fields(x.args[1][0]) == config_fields(x.args[1][1]) == {"ca_cert_path", "ca_key_path"} for x in c), w, "a listener does not present a certificate of the authority that was configured")
            part = [x for x in walk(a[k]) if x.op == "fld" and x.args[0].op == "fld" and is_call(okval(x.args[0])[0], "tls::generate_cert_from_ca")]
            ob("certificate-and-key-in-their-place", any(str(x.args[3]) == str(k - 1) for x in part) and not any(str(x.args[3]) == str(2 - k) for x in part), w, "a listener is given a key that does not belong to its certificate")
    for a, w in ck.ca:
        ob("loads-the-authority-given", only(a[0], "ca_cert_path") and only(a[1], "ca_key_path"), w, "the authority is not loaded from where it was configured")
    for a, w in ck.gen:
        part = lambda t: {str(x.args[3]) for x in walk(t) if x.op == "fld" and x.args[0].op == "fld" and is_call(okval(x.args[0])[0], "tls::load_ca")}
        ob("authority-in-its-place", part(a[0]) == {"0"} and part(a[1]) == {"1"}, w, "the key of the authority is used as its certificate")
    for a, w in ck.disc:
        ob("discovery-where-configured", only(a[0], "discovery_endpoint"), w, "the discovery service is not the one that was configured")
        if identity:
            x = V(a[1])
            ob("registers-as-itself", x.op == "agg" and x.args[1] == "Some" and is_identity(prog, V(x.args[3][0])), w, "the broker does not register under the endpoints it was told to advertise: " + show(x)[:120])
        else:
            ob("registers-as-nobody", V(a[1]).op == "agg" and V(a[1]).args[1] == "None", w, "the marshal registers as a broker")
    for a, w in ck.limits:
        ob("memory-as-configured", only(a[0], "global_memory_pool_size"), w, "the memory pool does not have the size that was configured")
    return made, ck


def is_identity(prog, v):
    if v.op != "agg" or not v.args[0].endswith("BrokerIdentifier"):
        return False
    f = lambda n: config_fields(agg_field(prog, v, n))
    good = f("public_advertise_endpoint") == {"public_advertise_endpoint"} and f("private_advertise_endpoint") == {"private_advertise_endpoint"}
    return good


def identifiers(t):
    return [x for x in walk(t) if x.op == "agg" and x.args[0].endswith("::BrokerIdentifier")]


@check("C24", "provenance dataflow over MIR: which configured value reaches which listener, certificate, identity, discovery client and limiter")
def c24(ctx):
    prog = ctx.prog()
    g = ctx.graph()
    ob = ctx.ob
    broker = [p for p in prod(sorted(prog.bodies)) if path_is(p, "cdn_broker::Broker::new")]
    marshal = [p for p in prod(sorted(prog.bodies)) if path_is(p, "cdn_marshal::Marshal::new")]
    if not ctx.need(broker and marshal, "the making of brokers and marshals"):
        return
    new = broker[0]
    made, ck = setup(ctx, prog, new, {"User": "public_bind_endpoint", "Broker": "private_bind_endpoint"}, True)
    for v, st in made:
        ids = identifiers(v)
        ob("one-identity", ids and all(is_identity(prog, x) for x in ids), new, "the broker does not know itself by the endpoints it advertises")
        inner = next((x for x in walk(v) if x.op == "agg" and x.args[0] == "cdn_broker::Inner"), None)
        if not ctx.need(inner is not None, "the shared state of a broker"):
            continue
        for n, ty, _ in prog.adts["cdn_broker::Inner"]["variants"][0][2]:
            f = agg_field(prog, inner, n)
            if "KeyPair<" in ty:
                ob("has-its-key", config_fields(f) == {"keypair"}, new, "the broker does not use the key it was configured with")
            elif ty.endswith("limiter::Limiter"):
                ob("has-its-limiter", any(is_call(x, "Limiter::new") for x in walk(f)), new, "the broker's connections do not share the limiter that was configured")
            elif "DiscoveryClient" in ty:
                ob("has-its-discovery", any(is_call(x, "DiscoveryClient::new") for x in walk(f)), new, "the broker's discovery client is another one")
            elif "MessageHook<" in ty:
                want = "user_message_hook" if "RunDef::User" in ty else "broker_message_hook"
                ob("has-its-hooks", config_fields(f) == {want}, new, "a message hook is not the one that was configured")
        # the local address replaces its placeholder wherever an address is used
        locals_ = lambda t: any(x.op == "call" and "local_ip" in x.args[0] for x in walk(t))
        for x in ids:
            for n in ("public_advertise_endpoint", "private_advertise_endpoint"):
                f = agg_field(prog, x, n)
                ob("advertises-an-address", locals_(f) and "local_ip" in strings(f), new, f"the broker advertises {n} with the placeholder for its address in it")
    for ty, a, w in ck.binds:
        ob("binds-to-an-address", any(x.op == "call" and "local_ip" in x.args[0] for x in walk(a[0])), w, "the broker binds to an endpoint with the placeholder for its address in it")
    made, _ = setup(ctx, prog, marshal[0], {"User": "bind_endpoint"}, False)
    for v, st in made:
        for n, ty, _ in prog.adts["cdn_marshal::Marshal"]["variants"][0][2]:
            f = agg_field(prog, v, n)
            if ty.endswith("limiter::Limiter"):
                ob("has-its-limiter", any(is_call(x, "Limiter::new") for x in walk(f)), marshal[0], "the marshal's connections do not share the limiter that was configured")
            elif "DiscoveryClient" in ty:
                ob("has-its-discovery", any(is_call(x, "DiscoveryClient::new") for x in walk(f)), marshal[0], "the marshal's discovery client is another one")
    # a connection is handled as what it was accepted as
    n = 0
    ins = {k: inserts(g, k) for k in ("user", "broker")}
    for b, i, f, t in g.calls("Listener::accept"):
        ty = f.get("self", "")
        if not prod([b.path]) or not b.path.startswith("cdn_broker::"):
            continue
        kind, other = ("broker", "user") if "RunDef::Broker" in ty else ("user", "broker")
        if "RunDef::" not in ty:
            continue
        n += 1
        r = g.reach([b.path])
        ob("handled-as-accepted", any(p in r for p in ins[kind]) and not any(p in r for p in ins[other]), b.path, f"what connects as a {kind} is handled as a {other}")
    ctx.need(n >= 2, "the listeners of the broker")
    client(ctx, prog)


def client(ctx, prog):
    from .client import Anatomy

    a = Anatomy(ctx)
    if not a.state:
        return
    made = 0
    for p in a.fns:
        b = prog.bodies[p]
        if not any("cdn_client::Config" in l[0] for l in b.locals[1 : 1 + b.argc]):
            continue
        for v, st in ctx.run(p, Rule(ctx)):
            for x in walk(v):
                if x.op != "agg" or x.args[0] != a.state:
                    continue
                made += 1
                for n, ty, _ in a.fs:
                    f = agg_field(prog, x, n)
                    if ty == "alloc::string::String":
                        ctx.ob("client-as-configured", config_fields(f) == {"endpoint"}, p, "the client connects to something other than the marshal it was configured with")
                    elif "KeyPair<" in ty:
                        ctx.ob("client-as-configured", config_fields(f) == {"keypair"}, p, "the client does not use the key it was configured with")
                    elif n == a.subs:
                        ctx.ob("client-as-configured", config_fields(f) == {"subscribed_topics"}, p, "the client does not start with the subscriptions it was configured with")
    ctx.need(made, "the making of the client's state")


# ---------------------------------------------------------------- supervision
class Start(Rule):
    """Marks: ("ended", handle)."""

    opaque = ()
    aut_live = True

    def __init__(self, ctx, variant="default"):
        super().__init__(ctx, variant)
        self.spawned = {}
        self.waited = {}
        self.naked = []

    def _inline(self, path):
        b = self.prog.bodies.get(path)
        if b is not None and path in self.g().spawned:
            return False
        return super()._inline(path)

    def g(self):
        return self.ctx.graph()

    def on_spawn(self, eng, st, fut, frame, block):
        if fut.op == "cor":
            self.spawned[fut.args[0]] = site(frame, block)

    def task(self, eng, st, t):
        t = eng.strip_ptr(st, t)
        while t.op == "fld":
            t = eng.strip_ptr(st, t.args[0])
        for x in walk(t):
            if is_call(x, "tokio::spawn") and x.args[1][0].op == "cor":
                return x.args[1][0].args[0]
        return None

    def on_await(self, eng, st, fut, frame, block):
        k = self.task(eng, st, fut)
        if k is None:
            return None
        before = [m[1] for m in st.aut or () if m[0] == "ended"]
        self.ctx.ob("stops-at-the-first", not before, site(frame, block), "after one of its tasks has ended, it waits for another one")
        st.aut = (st.aut or ()) + (("ended", k),)
        self.waited[k] = site(frame, block)

    def on_drop(self, eng, st, ty, val, frame, block):
        if "JoinHandle<" in ty and head(ty) not in self.gs and self.task(eng, st, val) is not None:
            self.naked.append((self.task(eng, st, val), site(frame, block)))


def guards(ctx, prog):
    """Types that abort their task when dropped."""
    out = set()
    for h, p in sorted(prog.drop_impls.items()):
        a = prog.adts.get(h)
        if not a or [f for v in a["variants"] for f in v[2] if not f[1].startswith("tokio::runtime::task::")] or not any("JoinHandle<" in f[1] or "AbortHandle" in f[1] for v in a["variants"] for f in v[2]):
            continue

        class Abort(Rule):
            n = 0

            def on_call(self, eng, c):
                if c.matches("JoinHandle::abort", "AbortHandle::abort"):
                    r, fs = fields(plain(eng.strip_ptr(c.st, c.args[0])))
                    if r.op in ("param", "deref") and fs:
                        c.st.aut = (c.st.aut or ()) + (("aborted", fs[0][1]),)
                return None

        outs = ctx.run(p, Abort(ctx))
        good = bool(outs) and all(any(m[0] == "aborted" for m in st.aut or ()) for v, st in outs)
        ctx.ob("aborts-when-dropped", good, p, "a handle that is to end its task when dropped does not")
        if good:
            out.add(h)
    return out


@check("C32", "typestate dataflow over MIR of the main loops: every task's end is awaited, the first one ends the whole, and no task outlives it")
def c32(ctx):
    prog = ctx.prog()
    g = ctx.graph()
    ob = ctx.ob
    gs = guards(ctx, prog)
    ctx.need(gs, "handles that end their task when dropped")
    start = [p for p in prod(sorted(prog.bodies)) if path_is(p, "cdn_broker::Broker::start")]
    mstart = [p for p in prod(sorted(prog.bodies)) if path_is(p, "cdn_marshal::Marshal::start")]
    if not ctx.need(start and mstart, "the main loops of brokers and marshals"):
        return
    p = start[0]
    ck = Start(ctx)
    ck.gs = gs
    outs = ctx.run(p, ck)
    mine = {k for k in ck.spawned if k.startswith("cdn_broker::")}
    ctx.need(len(mine) >= 5, "the tasks of a broker")
    for k in sorted(ck.spawned):
        short = k.split("::{")[0].split("::")[-1]
        if k in mine:
            ob("end-is-noticed", k in ck.waited, ck.spawned[k], f"nobody notices when the task {short} ends", key=short)
    for k, w in ck.naked:
        ob("no-task-outlives-it", False, w, f"the task {k.split('::{')[0].split('::')[-1]} goes on when the broker has stopped")
    ob("no-task-outlives-it", True, p, "")
    for v, st in outs:
        v = V(v)
        ended = [m for m in st.aut or () if m[0] == "ended"]
        ob("ends-with-an-error", variant_of(st, v) == frozenset(["Err"]), p, "the broker's main loop ends as if nothing had happened")
        ob("ends-only-with-a-task", ended, p, "the broker's main loop ends although all of its tasks run")
    ctx.need(outs, "a way for the broker's main loop to end")
    # the tasks themselves
    loops = 0
    for k in sorted(mine):
        b = prog.bodies.get(k)
        if b is None:
            continue
        ck = Ends(ctx)
        outs = ctx.run(k, ck)
        loops += 1
        for v, st in outs:
            ob("a-task-ends-only-if-its-listener-fails", ("failed",) in (st.aut or ()), k, "a task of the broker ends although nothing failed")
    ctx.need(loops >= 5, "the tasks of a broker")
    ck = Ends(ctx)
    for v, st in ctx.run(mstart[0], ck):
        ob("a-task-ends-only-if-its-listener-fails", ("failed",) in (st.aut or ()), mstart[0], "the marshal's main loop ends although its listener works")
        ob("ends-with-an-error", variant_of(st, V(v)) == frozenset(["Err"]), mstart[0], "the marshal's main loop ends as if nothing had happened")


class Ends(Rule):
    """How a task can come to an end. Mark: ("failed",)."""

    events = ("Listener::accept", "time::sleep")
    aut_live = True

    def on_await(self, eng, st, fut, frame, block):
        if is_call(fut, "Listener::accept"):
            out = []
            t = fut
            for n in ("Ok", "Err"):
                s = st.copy()
                if eng.set_variant(s, t, RESULT, [n]):
                    if n == "Err":
                        s.aut = (s.aut or ()) + (("failed",),)
                    out.append((t, s))
            return out
        return None
