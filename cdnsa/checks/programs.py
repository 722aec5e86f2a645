"""The production configuration, and what the broker and marshal programs make of their options."""
from . import check
from .common import *
from ..engine import Engine, State
from ..mir import head

DEF = "cdn_proto::def::"
OWN = {"keypair": "key_seed", "bind_endpoint": "bind_port"}  # settings that are made from another option
NET = ("Tcp", "TcpTls", "Quic")
TLS = ("TcpTls", "Quic")


def assoc(prog, ty, trait):
    for i in prog.impls:
        if i["trait"] == DEF + trait and i["self_head"] == DEF + ty:
            return dict(i["types"])
    return None


def options(t):
    """The options of the command line a value is made from."""
    out = set()

    def go(x):
        if x.op == "fld":
            r, fs = fields(x)
            if is_call(r, "Parser::parse") and fs:
                out.add(fs[0][1])
                return
        if is_call(x, "Parser::parse"):
            out.add("*")
            return
        for y in x.args:
            for z in y if isinstance(y, (tuple, frozenset)) else (y,):
                if isinstance(z, T):
                    go(z)

    go(t)
    return out


def itself(t):
    """Is the value an option, unchanged?"""
    t = V(t)
    n = 0
    while n < 9:
        n += 1
        if t.op in ("clone", "conv", "deref"):
            t = V(t.args[0])
        elif t.op == "agg" and t.args[1] == "Some" and len(t.args[3]) == 1:
            t = V(t.args[3][0])
        elif okval(t)[1] == ["Some"]:
            t = V(okval(t)[0])
        else:
            break
    r, fs = fields(t)
    return is_call(r, "Parser::parse") and len(fs) == 1


def absent(st, f, name):
    """Is the setting missing because the option of that name is?"""
    if not (f.op == "agg" and f.args[1] == "None"):
        return False
    for k, x in st.facts.items():
        r, fs = fields(k)
        if x[0] == "V" and x[1] == {"None"} and is_call(r, "Parser::parse") and len(fs) == 1 and fs[0][1] == name:
            return True
    return False


class Main(Rule):
    events = ("Broker::new", "Marshal::new", "Broker::start", "Marshal::start", "Parser::parse", "Runtime::block_on")
    opaque = ("Broker::new", "Marshal::new", "Broker::start", "Marshal::start", "Parser::parse", "Runtime::block_on")
    aut_live = True

    def __init__(self, ctx, what):
        super().__init__(ctx, "programs")
        self.what = what
        self.made = []

    def on_call(self, eng, c):
        if c.matches(self.what + "::new"):
            self.made.append((V(eng.strip_ptr(c.st, c.args[0])), c.where(), c.destty, c.st))
        return None

    def on_await(self, eng, st, fut, frame, block):
        if is_call(fut, self.what + "::new"):
            st.aut = (st.aut or ()) + (("new", fut),)
        elif is_call(fut, self.what + "::start"):
            st.aut = (st.aut or ()) + (("start", fut),)


class Hook(Rule):
    def inline(self, path, frame):
        return True


def settings(ctx, prog, kind, what):
    ob = ctx.ob
    roots = [p for p in sorted(prog.bodies) if p == kind + "::main"]
    if not ctx.need(roots, f"the {kind} program"):
        return
    cors = [c for c in prog.children.get(roots[0], []) if prog.bodies[c].is_async or "closure" in c]
    ctx.need(cors, f"the {kind} program's main task")
    # main runs the task and answers what it answers
    outs = ctx.run(roots[0], Main(ctx, what), "programs")
    ctx.need(outs, f"a way for the {kind} program to end")
    ran = set()
    for v, st in outs:
        v = V(v)
        fine = is_call(v, "Runtime::block_on") and v.args[1][1].op == "cor"
        if fine:
            ran.add(v.args[1][1].args[0])
        ob("main-runs-the-task", fine, roots[0], f"the {kind} program does not end as its main task does")
    for p in sorted(ran):
        ck = Main(ctx, what)
        outs = ctx.run(p, ck, "programs")
        ctx.need(ck.made, f"the making of the {kind}")
        for cfg, w, ty, st in ck.made:
            ob("runs-production", "cdn_proto::def::ProductionRunDef" in ty, w, f"the {kind} program does not run the production configuration")
            if not ctx.need(cfg.op == "agg", f"the configuration of the {kind}"):
                continue
            adt = prog.adts[cfg.args[0]]
            for n, t, _ in adt["variants"][0][2]:
                f = agg_field(prog, cfg, n)
                got = options(f)
                if "NoMessageHook" in t or "MessageHook" in t:
                    ob("default-hooks", got == set(), w, f"the hook {n} depends on options")
                    continue
                if absent(st, V(f), n):
                    continue
                ob("option-of-the-same-name", got == {OWN.get(n, n)}, w, f"the setting {n} of the {kind} is made from the options {sorted(got)}", key=n)
                if n == "keypair":
                    keypair(ctx, prog, f, w)
                elif n == "bind_endpoint":
                    ob("option-unchanged", V(f).op == "fmt" or itself(f), w, f"the setting {n} of the {kind} is not the option that was given", key=n)
                else:
                    ob("option-unchanged", itself(f), w, f"the setting {n} of the {kind} is not the option that was given", key=n)
        ctx.need(outs, f"a way for the {kind}'s main task to end")
        for v, st in outs:
            v = V(v)
            new = [m for m in st.aut or () if m[0] == "new"]
            start = [m for m in st.aut or () if m[0] == "start"]
            calls = [m[1] for m in new + start]
            if okval(v)[0] is v and v in calls:
                # what the call answered is the answer
                calls.remove(v)
                ob("failure-is-reported", start and v is start[-1][1] and all(variant_of(st, x) == {"Ok"} for x in calls), p, f"the {kind} program hides that the {kind} failed")
                continue
            failed = any(variant_of(st, x) == {"Err"} for x in calls)
            known = all(variant_of(st, x) in ({"Ok"}, {"Err"}) for x in calls)
            ob("runs-what-it-made", failed and not start or len(new) == 1 and len(start) == 1 and any(okval(x)[0] is new[0][1] for x in walk(V(start[0][1].args[1][0]))), p, f"the {kind} program ends without having run the {kind} it made")
            ob("failure-is-reported", known and variant_of(st, v) == ({"Err"} if failed else {"Ok"}), p, f"the {kind} program hides that the {kind} failed, or fails although it did not")


def keypair(ctx, prog, f, w):
    f = V(f)
    gen = [x for x in walk(f) if is_call(x, "SignatureScheme::key_gen") or x.op == "call" and x.args[0].endswith("::key_gen")]
    fine = len(set(gen)) == 1
    for n, i in (("public_key", "1"), ("private_key", "0")):
        x = agg_field(prog, f, n) if f.op == "agg" else None
        r, fs = fields(x) if x is not None else (None, ())
        fine = fine and x is not None and x.op == "fld" and str(x.args[3]) == i and okval(x.args[0])[0] in gen
    ctx.ob("key-from-the-seed", fine, w, "the broker's key is not the pair made from the seed that was given")
    seeds = [x for x in walk(f) if is_call(x, "SeedableRng::seed_from_u64")]
    ctx.ob("key-from-the-seed", seeds and all(itself(x.args[1][0]) for x in seeds), w, "the broker's key is not made from the seed that was given")


def hook(ctx, prog, ty):
    ob = ctx.ob
    imp = [i for i in prog.impls if i["trait"] == DEF + "MessageHookDef" and i["self_head"] == head(ty)]
    if not ctx.need(imp, "the hook of the production configuration"):
        return
    body = next((p for n, p, _ in imp[0]["items"] if n == "on_message_received"), DEF + "MessageHookDef::on_message_received")
    if not ctx.need(body in prog.bodies, "what the default hook does"):
        return
    st = State()
    me, msg = ("self", 0), ("msg", 0)
    m = T("param", "message", "Message")
    st.mem[me] = T("param", "self", ty)
    st.mem[msg] = m
    e = Engine(prog, Hook(ctx), budget=100000)
    outs = e.run(body, [T("ref", me, ()), T("ref", msg, ())], st=st)
    ctx.n["roots"] += 1
    for k in ("blocks", "states", "calls"):
        ctx.n[k] += e.stats[k]
    ctx.bodies |= e.stats["bodies"]
    ctx.rootnames.append(body)
    ctx.need(outs, "a way for the default hook to answer")
    for v, s in outs:
        v = V(v)
        a = V(v.args[3][0]) if v.op == "agg" and v.args[1] == "Ok" else None
        ob("default-hook-lets-pass", a is not None and a.op == "agg" and a.args[1] == "ProcessMessage", body, "the default hook does not let every message pass")
        ob("default-hook-changes-nothing", s.mem.get(msg) is m, body, "the default hook changes messages")


@check("C37", "provenance dataflow over MIR of the programs' entry points and comparison of the production configuration's type-level bindings")
def c37(ctx):
    prog = ctx.prog("programs")
    ob = ctx.ob
    run = assoc(prog, "ProductionRunDef", "RunDef")
    client = assoc(prog, "ProductionClientConnection", "ConnectionDef")
    if not ctx.need(run and client, "the production configuration"):
        return
    w = "impl RunDef for ProductionRunDef"
    conn = {}
    for k in ("User", "Broker"):
        conn[k] = assoc(prog, run[k].split("::")[-1], "ConnectionDef") if run[k].startswith(DEF) else None
        ctx.need(conn[k], f"the production configuration of {k.lower()} connections")
    if conn["User"]:
        for n in ("Scheme", "Protocol"):
            ob("clients-match-brokers", client[n] == conn["User"][n], w, f"clients and brokers use different {n.lower()}s towards each other", key=n)
        ob("users-over-tls", conn["User"]["Protocol"].split("::")[-1] in TLS, w, "users connect without TLS")
    if conn["Broker"]:
        ob("brokers-over-the-network", conn["Broker"]["Protocol"].split("::")[-1] in NET, w, "brokers do not connect to each other over the network")
    ob("shared-discovery", run["DiscoveryClientType"].split("::")[-1] == "Redis", w, "brokers and marshals do not share a discovery service over the network")
    for ty in sorted({c["MessageHook"] for c in conn.values() if c}):
        hook(ctx, prog, ty)
    settings(ctx, prog, "broker", "Broker")
    settings(ctx, prog, "marshal", "Marshal")
