"""The broker's tables: who is connected, who wants what, who is where.

Every operation on the structure that holds them is interpreted for one arbitrary party P (a user, or a broker) and one
arbitrary topic W. The tables are values: P's (or W's) entry, and whether there are other entries."""
import re
from itertools import product

from . import check
from .common import *
from .places import Places, USER_KEY, MAPS, SETS, bare, unwrap
from ..engine import State, Checker
from ..mir import head, targs
from ..models import tab, lcoll, OTHERS
from ..terms import *

P = T("wit", "P")
W = T("wit", "W")
OTHER = T("cst", "another", "", "")
US, ELSE = T("cst", "us", "id", ""), T("cst", "elsewhere", "id", "")
LVER, RVER, RID = T("cst", "local-version", "u64", ""), T("cst", "remote-version", "u64", ""), T("cst", "remote-identity", "id", "")
VEC = "alloc::vec::Vec"


class Tables(Checker):
    """Interprets one operation."""

    witness = True
    anonymous = True
    tabs = True

    def __init__(self, ctx, prog, gauges=False):
        self.ctx = ctx
        self.prog = prog
        self.max_depth = 16
        self.gauges = gauges

    def keep(self, t):
        return True

    def inline(self, path, frame):
        return not path_is(path, "mnemonic::mnemonic") and not path_is(path, "util::mnemonic")

    def add(self, st, *m):
        # how often matters for the gauges only
        if m[0] == "gauge" and self.gauges or m not in (st.aut or ()) and m[0] != "gauge":
            st.aut = (st.aut or ()) + (m,)

    def inner(self, coll):
        """The elements' type when the collection is the entry of another party."""
        c = V(coll)
        if c.op == "item" and isinstance(c.args[1], tuple) and c.args[1] and c.args[1][0].op == "tab":
            a = targs(c.args[1][0].args[0])
            if len(a) > 1 and head(a[1]) in SETS:
                return targs(a[1])[0]
        return None

    def wit_in(self, eng, st, coll):
        return None if self.inner(coll) else False

    def wit_single(self, eng, st, coll):
        return True

    def wit_of(self, eng, st, coll):
        return W if self.inner(coll) == "u8" else P

    def which(self, t):
        """The connection a handle is a part of."""
        n = {x.args[0] for x in walk(t) if x.op == "cst" and isinstance(x.args[0], str) and x.args[0].endswith("-conn")}
        return n.pop() if len(n) == 1 else None

    def on_call(self, eng, c):
        if c.matches("AbortHandle::abort"):
            v = V(eng.strip_ptr(c.st, c.args[0]))
            self.add(c.st, "abort", v.args[0] if v.op == "cst" else "?")
            return [(UNIT, c.st)]
        if c.matches(*SAME_CONN) and len(c.args) == 2:
            a, b = (self.which(eng.strip_ptr(c.st, x)) for x in c.args)
            if a and b:
                return [(TRUE if a == b else FALSE, c.st)]
        if c.matches("Clone::clone") and c.args:
            v = eng.strip_ptr(c.st, c.args[0])
            if v.op in ("cst", "wit", "tab"):
                return [(v, c.st)]
        if c.path.endswith(("::inc", "::dec")) and "Gauge" in c.path and c.args:
            x = eng.strip_ptr(c.st, c.args[0])
            name = next((y.args[0] for y in walk(x) if y.op == "static"), "?")
            self.add(c.st, "gauge", " ".join(re.findall(r"[A-Z][A-Z_]{3,}", name)).lower(), 1 if c.path.endswith("inc") else -1)
            return [(UNIT, c.st)]
        return None


class Model:
    """The structure, its operations, and how states of it are written down."""

    def __init__(self, ctx, variant="default"):
        self.ctx = ctx
        self.prog = ctx.prog(variant)
        self.variant = variant
        self.pl = Places(self.prog)
        self.adt = None
        for p, a in sorted(self.prog.adts.items()):
            if a.get("local") and a["kind"] == "struct" and not a.get("generics"):
                ks = {self.pl.kind(f[1]) for f in a["variants"][0][2]}
                if {"user", "broker"} <= ks:
                    self.adt = p
        self.ops = []
        if self.adt:
            for b in self.prog.bodies.values():
                if "::test" in b.path or b.kind in ("Closure",) or "Coroutine" in b.kind or not b.argc:
                    continue
                ty = b.locals[1][0]
                if ty.startswith("&") and bare(ty) == self.adt:
                    self.ops.append(b)
        self.ops.sort(key=lambda b: b.path)
        self.versioned = None  # the generic structure of a versioned table

    def fields(self, ty):
        h = head(ty)
        a = self.prog.adts.get(h)
        if not a or not a.get("local") or a["kind"] != "struct":
            return None
        return [(f[0], self.pl.field(ty, a["variants"][0][0], i)) for i, f in enumerate(a["variants"][0][2])]

    # ---- names of tables
    def setname(self, owner, ety):
        ks = {self.pl.kind(t) for _, t in self.fields(owner) or ()} - {None}
        if "location" in ks:
            return "modified-user"
        if "topic-sync" in ks:
            return "modified-topic"
        return "prev" if ety == "u8" else None

    def build(self, ty, cfg, pre="", owner=None):
        ty = bare(ty)
        h = head(ty)
        k = self.pl.kind(ty)
        rest = cfg.get("rest", True)
        if h in MAPS:
            if k is None:
                return T("cst", "map:" + ty, ty, "")
            name = pre + k
            e = cfg.get(name)
            key, val = targs(ty)[:2]
            who = W if key == "u8" else P
            r = cfg.get(name + ".others", rest)
            if e is None or e is False:
                return tab(ty, None, None, r)
            return tab(ty, who, self.content(k, val, e, cfg, pre), r)
        if h in SETS:
            name = self.setname(owner, targs(ty)[0]) if owner else None
            if name is None:
                return T("cst", "set:" + ty, ty, "")
            e = cfg.get(pre + name)
            r = cfg.get(pre + name + ".others", rest)
            return tab(ty, (W if targs(ty)[0] == "u8" else P) if e else None, UNIT if e else None, r)
        fs = self.fields(ty)
        if "BrokerIdentifier" in h:
            return US
        if h == CONN_TY:
            return T("cst", "old-conn", ty, "")
        if h.endswith("AbortHandle"):
            return T("cst", "old-task", ty, "")
        if fs:
            vals = []
            for n, t in fs:
                if self.is_versioned(ty) and t and "HashMap" not in t and "HashSet" not in t:
                    vals.append(cfg.get(pre + "id", US if "BrokerIdentifier" in t else T("cst", pre + "own-identity", t, "")))
                else:
                    vals.append(self.build(t, cfg, pre, ty))
            return T("agg", h, h.split("::")[-1], 0, tuple(vals))
        return T("cst", pre + "field:" + ty, ty, "")

    def is_versioned(self, ty):
        return any(self.pl.kind(t) in ("location", "topic-sync") for _, t in self.fields(ty) or () if t)

    def content(self, k, val, e, cfg, pre):
        if k in ("user", "broker"):
            if val.startswith("("):
                return tup(*[self.build(t, cfg, "peer:") for t in targs("x<" + val[1:-1] + ">")])
            return self.build(val, cfg, "peer:")
        if k.startswith(("interest", "topics")):
            t = targs(val)[0]
            who = W if t in ("u8", "param:V") and k.startswith("topics") else P
            return tab(val, who if e[0] else None, UNIT if e[0] else None, e[1])
        # versioned value: (value, version)
        fs = self.fields(val)
        vs = []
        for n, t in fs:
            if head(t) == OPTION:
                vs.append(NONE if e[0] is None else some(e[0]))
            else:
                vs.append(e[1])
        return T("agg", head(val), head(val).split("::")[-1], 0, tuple(vs))

    # ---- reading a state back
    def read(self, ty, v, out=None, pre="", owner=None):
        if out is None:
            out = {}
        ty = bare(ty)
        v = V(v)
        h = head(ty)
        if h in MAPS:
            k = self.pl.kind(ty)
            if k is None:
                return out
            out[pre + k] = self.entry(k, targs(ty)[1], v, out)
            if v.op == "tab":
                out[pre + k + ".others"] = v.args[3]
            return out
        if h in SETS:
            name = self.setname(owner, targs(ty)[0]) if owner else None
            if name:
                out[pre + name] = v.args[1] is not None if v.op == "tab" else "?"
                if v.op == "tab":
                    out[pre + name + ".others"] = v.args[3]
            return out
        fs = self.fields(ty)
        if fs and v.op == "agg" and v.args[0] == h:
            for (n, t), x in zip(fs, v.args[3]):
                if t:
                    self.read(t, x, out, pre, ty)
                    if self.is_versioned(ty) and "HashMap" not in t and "HashSet" not in t:
                        out[pre + "id"] = V(x)
        return out

    def entry(self, k, val, v, out):
        if v.op != "tab":
            return "?"
        if v.args[1] is None:
            return None
        c = V(v.args[2])
        if k in ("user", "broker"):
            if c.op == "agg":
                self.read(val, c, out, "peer:")
            return self.task(c)
        if k.startswith(("interest", "topics")):
            return (c.args[1] is not None, c.args[3]) if c.op == "tab" else "?"
        fs = self.fields(val)
        if c.op != "agg":
            return "?"
        value = ver = None
        for (n, t), x in zip(fs, c.args[3]):
            if head(t) == OPTION:
                value = V(x)
            else:
                ver = V(x)
        if value.op == "agg":
            value = V(value.args[3][0]) if value.args[1] == "Some" else None
        return (value, ver)

    def task(self, c):
        """(connection, task) stored for a session."""
        names = [x.args[0] for x in walk(c) if x.op == "cst" and isinstance(x.args[0], str) and x.args[0].endswith(("-conn", "-task"))]
        return (next((n for n in names if n.endswith("-conn")), "?"), next((n for n in names if n.endswith("-task")), "?"))

    # ---- arguments of an operation
    def arg_cases(self, ty, world):
        """[(tag, value)] for one argument."""
        isref = ty.startswith("&")
        t = bare(ty)
        wrap = (lambda x: T("addr", x)) if isref else (lambda x: x)
        if t.startswith(USER_KEY):
            return [("key", wrap(P)), ("other-key", wrap(OTHER))] if world == "user" else [("other-key", wrap(OTHER))]
        h = head(t)
        if "BrokerIdentifier" in t and h not in (VEC,) and "HashMap" not in t and OPTION not in t and not self.is_versioned(t):
            return [("key", wrap(P)), ("other-key", wrap(OTHER))] if world == "broker" else [("other-key", wrap(OTHER))]
        if t in ("[u8]", VEC + "<u8>") or t.startswith((VEC + "<u8,", "[u8;")) or t == "alloc::boxed::Box<[u8]>":
            return [("topics", wrap(T("lcoll", VEC, frozenset([W, OTHERS])))), ("other-topics", wrap(T("lcoll", VEC, frozenset([OTHERS]))))]
        if h in SETS and targs(t)[0] == "u8":
            return [("topics", wrap(tab(t, W, UNIT, True))), ("other-topics", wrap(tab(t, None, None, True)))]
        if t == "u8":
            return [("topics", wrap(W)), ("other-topics", wrap(OTHER))]
        if h == CONN_TY:
            return [("conn", wrap(T("cst", "new-conn", t, "")))]
        if h.endswith("AbortHandle"):
            return [("task", wrap(T("cst", "new-task", t, "")))]
        if t == "bool":
            return [("true", TRUE), ("false", FALSE)]
        if self.is_versioned(t):
            return [("remote", (ty, t))]
        return [("", T("param", "arg", ty))]

    def cases(self, b, world):
        """[(tags, values)]: combinations of arguments; a remote table is left as (type, bare type)."""
        res = []
        cases = [self.arg_cases(b.locals[i][0], world) for i in range(2, b.argc + 1)]
        if not any(t == "task" for ts in cases for t, _ in ts):
            # an operation on behalf of a session: the registered one, or another
            for i, ts in enumerate(cases):
                if ts[0][0] == "conn":
                    ty = b.locals[i + 2][0]
                    own = T("cst", "old-conn", bare(ty), "")
                    cases[i] = [("stranger", ts[0][1]), ("own", T("addr", own) if ty.startswith("&") else own)]
        for combo in product(*cases):
            tags = frozenset(t for t, _ in combo if t)
            res.append((tags, [v for _, v in combo]))
            if "topics" in tags and not b.locals[1][0].startswith("&mut "):
                # the topic alone
                vals = []
                for t, v in combo:
                    x = V(v)
                    if t == "topics" and x.op == "lcoll":
                        y = T("lcoll", VEC, frozenset([W]))
                        v = T("addr", y) if v.op == "addr" else y
                    elif t == "topics" and x.op == "tab":
                        y = tab(x.args[0], W, UNIT, False)
                        v = T("addr", y) if v.op == "addr" else y
                    vals.append(v)
                res.append((tags | {"alone"}, vals))
        return res

    def run(self, b, cfg, vals, rel=(), gauges=False):
        """[(what is returned, tables afterwards, marks)]"""
        ck = Tables(self.ctx, self.prog, gauges)
        st = State()
        st.mem[("self", 0)] = self.build(self.adt, cfg)
        args = [T("ref", ("self", 0), ())]
        n = 0
        for v in vals:
            if isinstance(v, tuple):
                n += 1
                st.mem[("self", n)] = self.build(v[1], cfg, "remote:")
                v = T("ref", ("self", n), ()) if v[0].startswith("&") else st.mem[("self", n)]
            args.append(v)
        from ..engine import Engine

        e = Engine(self.prog, ck, budget=400000)
        e.setrel(st, US, ELSE, "<>")
        for t in (P, OTHER):
            e.setrel(st, US, t, "<>")
        e.setrel(st, P, OTHER, "<>")
        e.setrel(st, W, OTHER, "<>")
        for x, y, r in rel:
            e.setrel(st, x, y, r)
        outs = e.run(b.path, args, st=st)
        self.ctx.n["roots"] += 1
        for k in ("blocks", "states", "calls"):
            self.ctx.n[k] += e.stats[k]
        self.ctx.bodies |= e.stats["bodies"]
        if b.path not in self.ctx.rootnames:
            self.ctx.rootnames.append(b.path)
        self.last = e
        res, seen = [], set()
        for v, s in outs:
            post = self.read(self.adt, s.mem[("self", 0)])
            ms = tuple(m for m in s.aut or () if m[0] in ("abort", "gauge"))
            k = (v, tuple(sorted((a, str(x)) for a, x in post.items())), ms)
            if k not in seen:
                seen.add(k)
                res.append((e.strip_ptr(s, v), post, ms))
        return res


# ---------------------------------------------------------------- rules
def at(b):
    return f"{shortfile(b.span[0])}:{b.span[1]} in {b.path}"


RELS = {  # (P's topics: (holds W, others), who wants W: (holds P, others)); both None: no entry
    False: [(e, i) for e in (None, (False, True), (False, False)) for i in (None, (False, True))],
    True: [(e, i) for e in ((True, True), (True, False)) for i in ((True, True), (True, False))],
}
ALLRELS = RELS[False] + RELS[True]


def name_cfg(d):
    return " ".join(f"{k}={v}" for k, v in sorted(d.items()) if v not in (None, False))


class Rules:
    def __init__(self, ctx):
        self.ctx = ctx
        self.m = Model(ctx)
        self.k = 0
        self.mine = lambda k: True
        self.flags = set()
        self.ok = ctx.need(self.m.adt, "the structure that holds the sessions") and ctx.need(len(self.m.ops) > 4, "operations on it")

    def each(self, world, cfgs, want=None, rel=None, gauges=False):
        """Every operation, argument case and starting state: (body, tags, cfg, ret, post, marks)."""
        for b in self.m.ops:
            for tags, vals in self.m.cases(b, world):
                if want is not None and not want(b, tags):
                    continue
                for cfg in cfgs:
                    self.k += 1
                    if not self.mine(self.k):
                        continue
                    outs = self.m.run(b, cfg, vals, rel or (), gauges)
                    for ret, post, marks in outs:
                        yield b, tags, cfg, ret, post, marks

    def merged(self, b, cfg, vals, rel, crowd):
        """The outcomes without, and with, others in the tables named."""
        self.k += 1
        if not self.mine(self.k):
            return []
        out = self.m.run(b, dict(cfg, rest=False), vals, rel)
        if crowd:
            out = out + self.m.run(b, dict(cfg, rest=False, **{x + ".others": True for x in crowd}), vals, rel)
        return out

    def spread(self, work):
        """The cases are independent of one another."""
        def go(mine):
            self.mine = mine
            work()

        self.ctx.shards(go, self.flags)

    def unknown(self, b, post, *names):
        bad = [n for n in names if post.get(n, "?") == "?" or isinstance(post.get(n), tuple) and "?" in post[n]]
        self.ctx.ob("tables-are-followed", not bad, at(b), "the analysis lost track of a table: " + ", ".join(bad), ",".join(bad))
        return bool(bad)


def session_cfg(world, session):
    c = {world: session}
    if world == "user" and session:
        c["location"] = (US, LVER)
    return c


@check("C14", "abstract interpretation over MIR of every operation on the broker's tables, for one arbitrary party and topic and every combination of entries: both topic indexes agree, subscriptions change exactly as asked, lookups answer from the tables")
def c14(ctx):
    r = Rules(ctx)
    if not r.ok:
        return
    def work():
        for world in ("user", "broker"):
            tp, ht = "topics-" + world, "interest-" + world
            cfgs = []
            for session in (True, False):
                for e, i in ALLRELS:
                    c = session_cfg(world, session)
                    c.update({tp: e, ht: i})
                    cfgs.append(c)
            for b, tags, cfg, ret, post, marks in r.each(world, cfgs, lambda b, tags: "remote" not in tags):
                w = at(b)
                if r.unknown(b, post, tp, ht, world):
                    continue
                e, i = post[tp], post[ht]
                was, now = bool(cfg[ht] and cfg[ht][0]), bool(i and i[0])
                say = f" ({world}, {', '.join(sorted(tags)) or 'no arguments'}; before: {name_cfg(cfg)})"
                ctx.ob("indexes-agree", bool(e and e[0]) == now, w, "the party's topics and the topic's parties disagree afterwards" + say, world)
                ctx.ob("no-empty-topics", i != (False, False), w, "a topic that nobody wants any more stays in the index" + say, world)
                gone = cfg[world] and post[world] != ("old-conn", "old-task")
                if "stranger" in tags or "own" in tags and not cfg[world]:
                    ctx.ob("only-the-party", was == now, w, "subscriptions change for a connection that is not the registered one" + say, world)
                elif "key" in tags and "conn" in tags and "task" in tags:
                    ctx.ob("initial-subscriptions-exact", now == ("topics" in tags), w, "after a party joined, its subscriptions are not those it asked for" + say, world)
                elif gone:
                    ctx.ob("nothing-left-behind", not now, w, "subscriptions outlive the session" + say, world)
                elif "key" in tags and ("topics" in tags or "other-topics" in tags):
                    if "topics" in tags:
                        r.flags.add(("pol", world, b.path, w, now))
                    else:
                        ctx.ob("only-the-topics", was == now, w, "a subscription to a topic that was not mentioned changes" + say, world)
                elif "key" in tags and not b.locals[1][0].startswith("&mut "):
                    ctx.ob("only-the-party", was == now, w, "a lookup changes subscriptions" + say, world)
                elif "key" not in tags:
                    ctx.ob("only-the-party", was == now, w, "subscriptions of a party that was not mentioned change" + say, world)
                # lookups
                rt = b.locals[0][0]
                if rt.startswith(OPTION + "<" + CONN_TY) and "key" in tags:
                    r.flags.add((world, "connection"))
                    want = cfg[world]
                    good = ret.op == "agg" and (ret.args[1] == "Some") == want and (not want or "old-conn" in show(ret))
                    ctx.ob("lookups-exact", good, w, "looking up a connection does not answer from the session table" + say, world)
                if rt.startswith("(") and ("topics" in tags or "other-topics" in tags) and ret.op == "tup":
                    lists = [x for t, x in zip(targs("x<" + rt[1:-1] + ">"), ret.args[0]) if (USER_KEY if world == "user" else "BrokerIdentifier") in t]
                    if len(lists) == 1:
                        r.flags.add((world, "interested"))
                        has = any(y is P for y in elems(lists[0]))
                        want = bool(cfg[ht] and cfg[ht][0] and "topics" in tags)
                        if world == "user" or "false" in tags:
                            ctx.ob("lookups-exact", (has or not want) and (want or not has or "alone" not in tags), w, "who is interested in a topic is not answered from the index" + say, world)
                        else:
                            ctx.ob("lookups-exact", not has, w, "brokers are counted among the users interested in a topic" + say, world)

    r.spread(work)
    for world in ("user", "broker"):
        ps = set()
        for f in sorted(f for f in r.flags if f[:2] == ("pol", world)):
            ps.add(f[4])
            ctx.ob("all-the-topics", ("pol", world, f[2], f[3], not f[4]) not in r.flags, f[3], f"asked for a topic, the operation leaves a {world} subscribed in some cases and unsubscribed in others", world)
        ctx.need(True in ps, f"an operation that subscribes a {world}")
        ctx.need(False in ps, f"an operation that unsubscribes a {world}")
        ctx.need((world, "interested") in r.flags, f"the lookup of {world}s that are interested in a topic")
        ctx.need((world, "connection") in r.flags, f"the lookup of a {world}'s connection")


def elems(v):
    v = V(v)
    return [V(x) for x in v.args[1]] if v.op == "lcoll" else []


LOCS = [None, (US, LVER), (ELSE, LVER), (None, LVER)]


def user_cfgs():
    out = []
    for session in (True, False):
        for loc in LOCS:
            if session and (loc is None or loc[0] is not US):
                continue
            for mod in (False, True):
                for e, i in (((True, True), (True, True)), ((False, True), None), (None, None)):
                    out.append({"user": session, "location": loc, "modified-user": mod, "topics-user": e, "interest-user": i})
    return out


def newer(pre, post, mod):
    """Does a changed entry carry a version that wins over the old one (or that was not told to anyone yet)?"""
    if post is None:
        return False
    v = post[1]
    if pre is None:
        return v.op == "int" and v.args[0] >= 1
    o = pre[1]
    base, k = arith(v)
    if base is o and (k >= 1 or k == 0 and mod):
        return True
    return v is o and mod


@check("C15", "abstract interpretation over MIR of every operation on the broker's tables, for one arbitrary party: a session that is removed or replaced is stopped and leaves no subscription or location behind; a new one is registered completely; others are left alone")
def c15(ctx):
    r = Rules(ctx)
    if not r.ok:
        return
    def work():
        for world in ("user", "broker"):
            tp, ht = "topics-" + world, "interest-" + world
            cfgs = user_cfgs() if world == "user" else [{"broker": s, tp: e, ht: i, "peer:topic-sync": ps} for s in (True, False) for e, i, ps in (((True, True), (True, True), "S"), ((False, True), None, None), (None, None, None))]
            for c in cfgs:
                if c.get("peer:topic-sync") == "S":
                    c["peer:topic-sync"] = (status(r.m, "Subscribed"), LVER)
            for b, tags, cfg, ret, post, marks in r.each(world, cfgs, lambda b, tags: "remote" not in tags):
                w = at(b)
                if r.unknown(b, post, tp, ht, world, *(("location", "modified-user") if world == "user" else ())):
                    continue
                say = f" ({world}, {', '.join(sorted(tags)) or 'no arguments'}; before: {name_cfg(cfg)})"
                old, now = ("old-conn", "old-task") if cfg[world] else None, post[world]
                aborts = [m[1] for m in marks if m[0] == "abort"]
                if now != old:
                    ctx.ob("only-the-party", "key" in tags and "stranger" not in tags, w, "the session of a party that was not mentioned changes" + say, world)
                if old and now != old:
                    r.flags.add((world, "end"))
                    ctx.ob("stopped", "old-task" in aborts, w, "a session is taken out of the table while its task goes on running" + say, world)
                if old and now == old:
                    ctx.ob("kept", "old-task" not in aborts, w, "the task of a session that stays in the table is stopped" + say, world)
                ctx.ob("new-one-runs", "new-task" not in aborts, w, "the task of the new session is stopped" + say, world)
                if "conn" in tags and "key" in tags and "task" in tags:
                    r.flags.add((world, "new"))
                    ctx.ob("registered", now == ("new-conn", "new-task"), w, "a party that joins is not registered with its connection and task" + say, world)
                if now is None and "key" in tags and (old or world == "user" and not tags & {"stranger", "own"}) and b.locals[1][0].startswith("&mut ") and "topics" not in tags and "other-topics" not in tags:
                    ctx.ob("no-topics-left", post[tp] is None and not (post[ht] and post[ht][0]), w, "subscriptions outlive the session" + say, world)
                if old and now and now != old and "topics" not in tags:
                    ctx.ob("no-topics-left", post[tp] is None or not post[tp][0], w, "a session inherits the subscriptions of the one it replaces" + say, world)
                    ctx.ob("no-topics-left", not (post[ht] and post[ht][0]), w, "a session inherits the subscriptions of the one it replaces" + say, world)
                if world == "user":
                    loc, pre = post["location"], cfg["location"]
                    if now and now != old:
                        ctx.ob("located-here", loc is not None and loc[0] is US, w, "a user that joins is not recorded as being here" + say)
                    if old and now is None:
                        ctx.ob("not-located-here", loc is None or loc[0] is not US, w, "a user whose session ended is still recorded as being here" + say)
                    if (now and now != old) or (old and now is None):
                        ctx.ob("others-are-told", post["modified-user"] is True, w, "a change of a user's location is not passed on to other brokers" + say)
                    if loc != pre and not (b.locals[0][0] != "()" and not (old != now)):
                        ctx.ob("only-the-party", "key" in tags, w, "the location of a user that was not mentioned changes" + say, "location")
                    if old and now == old:
                        ctx.ob("home", loc is not None and loc[0] is US, w, "a connected user is no longer recorded as being here" + say)
                    if pre is not None and pre[0] is ELSE and not (now and now != old):
                        ctx.ob("elsewhere-stays", loc is not None and loc[0] is ELSE, w, "the record of a user that is connected to another broker is lost" + say)
                if world == "broker" and now and now != old:
                    ctx.ob("starts-afresh", post.get("peer:topic-sync") is None, w, "a broker that joins again starts with what was known of its previous session" + say)

    r.spread(work)
    for k in (("user", "end"), ("user", "new"), ("broker", "end"), ("broker", "new")):
        ctx.need(k in r.flags, f"operations: {k[0]} session {k[1]}")


def status(m, name):
    p = next((p for p, a in sorted(m.prog.adts.items()) if a.get("local") and a["kind"] == "enum" and p.endswith("::SubscriptionStatus")), None)
    vs = [v[0] for v in m.prog.adts[p]["variants"]]
    return T("agg", p, name, vs.index(name), ())


# ---- merging
def winner(cfg, local, remote, rv, rid):
    """Does the remote entry win?"""
    if local is None:
        return remote[0] is not None
    return rv == ">" or rv == "=" and rid == ">"


def merge_cases(locals_, remotes):
    for local in locals_:
        for remote in remotes:
            if remote is None or local is None:
                yield local, remote, "=", "="
                continue
            for rv in "<=>":
                for rid in "<=>" if rv == "=" else ("<", ">"):
                    yield local, remote, rv, rid


def same(a, b):
    return a is b or a is not None and b is not None and a[0] is b[0] and a[1] is b[1]


@check("C16", "abstract interpretation over MIR of the merge of a user table received from another broker, for one arbitrary user and every relation of versions and identities: the newer entry wins, an older one changes nothing, and a user that moved away is disconnected")
def c16(ctx):
    r = Rules(ctx)
    if not r.ok:
        return
    m = r.m
    ops = [(b, tags, vals) for b in m.ops for tags, vals in m.cases(b, "user") if "remote" in tags and any(isinstance(v, tuple) and any(m.pl.kind(t) == "location" for _, t in m.fields(v[1])) for v in vals)]
    ctx.need(ops, "the operation that merges users' locations")
    def work():
        for b, tags, vals in ops:
            w = at(b)
            for local, remote, rv, rid in merge_cases(LOCS, [None, (US, RVER), (ELSE, RVER), (None, RVER)]):
                for session in (True, False):
                    if session and (local is None or local[0] is not US):
                        continue
                    for mod in (False, True):
                        for e, i in (((True, True), (True, True)), (None, None)):
                            cfg = {"user": session, "location": local, "modified-user": mod and local is not None, "topics-user": e, "interest-user": i, "remote:location": remote, "remote:id": RID}
                            for ret, post, marks in r.merged(b, cfg, vals, ((RVER, LVER, rv), (RID, US, rid)), ("remote:location", "location", "user") if not mod and e else ()):
                                if r.unknown(b, post, "location", "modified-user", "user", "topics-user", "interest-user"):
                                    continue
                                say = f" (local {tell(local)}, remote {tell(remote)}, remote version {rv} ours, remote identity {rid} ours{', connected here' if session else ''})"
                                loc = post["location"]
                                aborts = [x[1] for x in marks if x[0] == "abort"]
                                kept = post["user"] == ("old-conn", "old-task")
                                if remote is not None and winner(cfg, local, remote, rv, rid):
                                    if remote[0] is None:
                                        good = loc is None or loc[0] is None and (loc[1] is RVER or session and newer((None, RVER), loc, True))
                                    else:
                                        good = same(loc, remote)
                                    ctx.ob("newer-wins", good, w, "an entry that wins is not taken over" + say)
                                    ctx.ob("superseded-change-is-dropped", not post["modified-user"], w, "a local change that lost is still sent to other brokers" + say)
                                    if session:
                                        stays = remote[0] is US
                                        ctx.ob("moved-user-is-disconnected", kept == stays and (stays or post["user"] is None and "old-task" in aborts), w, ("a user that is still here is disconnected" if stays else "a user that moved to another broker, or is gone, stays connected here") + say)
                                        if not stays:
                                            ctx.ob("moved-user-leaves-nothing", post["topics-user"] is None and not (post["interest-user"] and post["interest-user"][0]), w, "a user that moved away keeps its subscriptions" + say)
                                else:
                                    good = same(loc, local)
                                    ctx.ob("older-changes-nothing", good, w, "an entry that lost changes the location" + say)
                                    ctx.ob("local-change-stays-pending", post["modified-user"] == cfg["modified-user"], w, "whether the user's location is to be sent to others changes although nothing was taken over" + say)
                                    if session:
                                        ctx.ob("older-disconnects-nobody", kept and "old-task" not in aborts, w, "an outdated entry disconnects a user" + say)
                                if kept:
                                    was, now = bool(e and e[0]), bool(post["interest-user"] and post["interest-user"][0])
                                    ctx.ob("subscriptions-stay", was == now or not session, w, "a merge changes the subscriptions of a user that stays" + say)
                                    ctx.ob("home", not session or loc is not None and loc[0] is US, w, "a connected user is recorded as being elsewhere" + say)

    r.spread(work)


def tell(e):
    return "nothing" if e is None else f"{'removed' if e[0] is None else show(e[0]) if e[0].op == 'agg' else e[0].args[0]}"


@check("C17", "abstract interpretation over MIR of the merge of a topic table received from another broker, for one arbitrary broker and topic and every relation of versions and identities: the broker's subscription afterwards is the newest it announced")
def c17(ctx):
    r = Rules(ctx)
    if not r.ok:
        return
    m = r.m
    ops = [(b, tags, vals) for b in m.ops for tags, vals in m.cases(b, "broker") if "remote" in tags and any(isinstance(v, tuple) and any(m.pl.kind(t) == "topic-sync" for _, t in m.fields(v[1])) for v in vals)]
    ctx.need(any("key" in tags for _, tags, _ in ops), "the operation that merges a broker's topics")
    S, U = status(m, "Subscribed"), status(m, "Unsubscribed")
    ID = T("cst", "own-identity-of-it", "u32", "")
    def work():
        for b, tags, vals in ops:
            w = at(b)
            for local, remote, rv, rid in merge_cases([None, (S, LVER), (U, LVER), (None, LVER)], [None, (S, RVER), (U, RVER), (None, RVER)]):
                for session in (True, False):
                    on = local is not None and local[0] is S
                    for e, i in RELS[on][:3] if on else RELS[False]:
                        if not session and (on or e):
                            continue
                        cfg = {"broker": session, "peer:topic-sync": local if session else None, "topics-broker": e, "interest-broker": i, "remote:topic-sync": remote, "remote:id": RID, "peer:id": ID, "topic-sync": (S, T("cst", "our-version", "u64", ""))}
                        for ret, post, marks in r.merged(b, cfg, vals, ((RVER, LVER, rv), (RID, ID, rid)), ("remote:topic-sync", "peer:topic-sync", "topics-broker", "interest-broker") if not e or e == (True, True) else ()):
                            if r.unknown(b, post, "broker", "topics-broker", "interest-broker", "topic-sync"):
                                continue
                            say = f" (known {tell(local)}, announced {tell(remote)}, announced version {rv} known, identity {rid}{'' if session else ', not connected'}; {', '.join(sorted(tags))})"
                            now = bool(post["interest-broker"] and post["interest-broker"][0])
                            ctx.ob("indexes-agree", bool(post["topics-broker"] and post["topics-broker"][0]) == now, w, "the broker's topics and the topic's brokers disagree afterwards" + say)
                            ctx.ob("own-table-untouched", post["topic-sync"] == cfg["topic-sync"], w, "what a broker announces changes what we announce" + say)
                            if not session:
                                ctx.ob("only-connected-brokers", not now and post["broker"] is None, w, "a broker that is not connected gets subscriptions" + say)
                                continue
                            ctx.ob("session-stays", post["broker"] == ("old-conn", "old-task"), w, "a broker is disconnected by its own announcement" + say)
                            if "key" not in tags:
                                ctx.ob("only-the-sender", now == on and same(post.get("peer:topic-sync"), local), w, "an announcement changes the subscriptions of another broker" + say)
                                continue
                            if remote is not None and "stranger" not in tags and winner(cfg, local, remote, rv, rid):
                                ctx.ob("newer-wins", now == (remote[0] is S), w, "a broker's newest announcement does not decide its subscription" + say)
                                pt = post.get("peer:topic-sync")
                                ctx.ob("newer-is-remembered", same(pt, remote) if remote[0] is not None else pt is None or pt[0] is None, w, "an announcement that was taken over is not remembered as it was announced" + say)
                            else:
                                ctx.ob("older-changes-nothing", now == on and same(post.get("peer:topic-sync"), local), w, "an outdated announcement changes a broker's subscription" + say)

    r.spread(work)


# ---- what others are told
def returned(m, b, ret):
    """The table in an Option that an operation returns: ('none',) | (entry of P/W) ..."""
    rt = b.locals[0][0]
    if head(rt) == OPTION and m.is_versioned(targs(rt)[0]):
        ty = targs(rt)[0]
        if ret.op != "agg":
            return None, "?"
        if ret.args[1] == "None":
            return ty, None
        return ty, m.read(ty, ret.args[3][0], pre="ret:")
    if m.is_versioned(bare(rt)):
        return bare(rt), m.read(bare(rt), ret, pre="ret:")
    return None, None


@check("C18", "abstract interpretation over MIR of every operation on the broker's tables, for one arbitrary user: changes get a version that wins, are handed out once, and a complete copy is complete")
def c18(ctx):
    r = Rules(ctx)
    if not r.ok:
        return
    m = r.m
    def work():
        for others in (True, False):
            cfgs = [dict(c, rest=others) for c in user_cfgs() if others or c["topics-user"] is None]
            for b, tags, cfg, ret, post, marks in r.each("user", cfgs, lambda b, tags: "remote" not in tags):
                w = at(b)
                if r.unknown(b, post, "location", "modified-user"):
                    continue
                say = f" ({', '.join(sorted(tags)) or 'no arguments'}; before: {name_cfg(cfg)})"
                pre, loc = cfg["location"], post["location"]
                mut = b.locals[1][0].startswith("&mut ")
                ty, got = returned(m, b, ret)
                hands = ty is not None and any(m.pl.kind(t) == "location" for _, t in m.fields(ty))
                if hands and mut:
                    r.flags.add("diff")
                    entry = got.get("ret:location") if isinstance(got, dict) else None
                    if entry == "?" or got == "?":
                        ctx.ob("tables-are-followed", False, w, "the analysis lost track of the table that is handed out" + say)
                        continue
                    want = cfg["modified-user"] and pre is not None
                    if want:
                        ctx.ob("changes-are-handed-out", same(entry, pre), w, "a changed location is not handed out as it is" + say)
                    else:
                        ctx.ob("only-changes", entry is None or same(entry, pre), w, "something that is not in the table is handed out" + say)
                    ctx.ob("once", not post["modified-user"], w, "a change stays pending after it was handed out" + say)
                    if pre is not None and pre[0] is not None:
                        ctx.ob("diff-keeps-the-table", same(loc, pre), w, "handing out changes alters the table" + say)
                    else:
                        ctx.ob("diff-keeps-the-table", loc is None or same(loc, pre), w, "handing out changes alters the table" + say)
                    continue
                if hands:
                    r.flags.add("full")
                    entry = got.get("ret:location") if isinstance(got, dict) else None
                    ctx.ob("full-is-complete", same(entry, pre), w, "the complete table is not complete" + say)
                    ctx.ob("full-carries-our-identity", got is None or got.get("ret:id") is US, w, "a table is handed out under another identity" + say)
                if loc is None and pre is None or loc is not None and pre is not None and loc[0] is pre[0] and loc[1] is pre[1]:
                    ctx.ob("untouched-stays-pending", post["modified-user"] or not cfg["modified-user"], w, "a change that is to be sent is forgotten" + say)
                    continue
                r.flags.add("change")
                ctx.ob("changes-win", newer(pre, loc, cfg["modified-user"]), w, "a location is changed without a version that wins over the previous one" + say)
                ctx.ob("changes-are-pending", post["modified-user"] is True, w, "a location is changed without being sent to other brokers" + say)

    r.spread(work)
    for k in ("diff", "full", "change"):
        ctx.need(k in r.flags, "operations on users' locations: " + k)


@check("C34", "abstract interpretation over MIR of every operation on the broker's tables, for one arbitrary topic: what other brokers are told about our interest is what our users want")
def c34(ctx):
    r = Rules(ctx)
    if not r.ok:
        return
    m = r.m
    S, U = status(m, "Subscribed"), status(m, "Unsubscribed")
    def work():
        cfgs = []
        for ht in (None, (False, True), (True, False)):
            for prev in (False, True):
                for ts in (None, (S, LVER), (U, LVER)):
                    # what was last told about the topic is what the table says
                    if prev != (ts is not None and ts[0] is S):
                        continue
                    for others in (True, False):
                        cfgs.append({"user": True, "location": (US, LVER), "interest-user": ht, "topics-user": (True, True) if ht and ht[0] else None, "prev": prev, "topic-sync": ts, "rest": others})
        for b, tags, cfg, ret, post, marks in r.each("user", cfgs, lambda b, tags: "remote" not in tags):
            w = at(b)
            if r.unknown(b, post, "interest-user", "prev", "topic-sync", "modified-topic"):
                continue
            say = f" ({', '.join(sorted(tags)) or 'no arguments'}; before: {name_cfg(cfg)})"
            ty, got = returned(m, b, ret)
            mut = b.locals[1][0].startswith("&mut ")
            hands = ty is not None and any(m.pl.kind(t) == "topic-sync" for _, t in m.fields(ty))
            pre, ts = cfg["topic-sync"], post["topic-sync"]
            wanted = cfg["interest-user"] is not None
            if hands and mut:
                r.flags.add("diff")
                entry = got.get("ret:topic-sync") if isinstance(got, dict) else None
                ctx.ob("told-what-is-wanted", post["prev"] == wanted and (ts is not None and ts[0] is S) == wanted, w, "after collecting changes, what we say we are interested in is not what users want" + say)
                if cfg["prev"] != wanted:
                    ctx.ob("changes-are-handed-out", entry is not None and entry != "?" and entry[0] is (S if wanted else U) and newer(pre, entry, False), w, "a change of interest is not handed out, or with a version that does not win" + say)
                    ctx.ob("told-and-remembered-agree", same(entry, ts), w, "what is handed out is not what is remembered" + say)
                else:
                    ctx.ob("only-changes", entry is None or same(entry, pre), w, "interest that did not change is handed out as changed" + say)
                ctx.ob("once", not post["modified-topic"], w, "a change stays pending after it was handed out" + say)
                ctx.ob("collecting-changes-no-subscription", post["interest-user"] == cfg["interest-user"], w, "collecting changes alters subscriptions" + say)
            else:
                if hands:
                    r.flags.add("full")
                    entry = got.get("ret:topic-sync") if isinstance(got, dict) else None
                    ctx.ob("full-is-complete", same(entry, pre), w, "the complete table is not complete" + say)
                ctx.ob("only-collecting-changes-what-was-told", post["prev"] == cfg["prev"] and same(ts, pre), w, "what other brokers were told changes although they were not told anything" + say)

    r.spread(work)
    for k in ("diff", "full"):
        ctx.need(k in r.flags, "operations on topics of interest: " + k)


@check("C35", "abstract interpretation over MIR of every operation on the broker's tables, for one arbitrary party: the gauges of connected users and brokers change exactly as the tables do")
def c35(ctx):
    r = Rules(ctx)
    if not r.ok:
        return
    def work():
        for world in ("user", "broker"):
            cfgs = [c for c in user_cfgs() if c["topics-user"] is None and not c["modified-user"]] if world == "user" else [{"broker": s} for s in (True, False)]
            for b, tags, cfg, ret, post, marks in r.each(world, cfgs, lambda b, tags: "remote" not in tags and not ("other-key" in tags and b.locals[1][0].startswith("&mut ")), None, True):
                if r.unknown(b, post, world):
                    continue
                d = bool(post[world]) - bool(cfg[world])
                for kind in ("user", "broker"):
                    got = sum(m[2] for m in marks if m[0] == "gauge" and kind in m[1])
                    if any(m[0] == "gauge" and kind in m[1] for m in marks):
                        r.flags.add(kind)
                    ctx.ob("gauge-follows-table", got == (d if kind == world else 0), at(b), f"the number of connected {kind}s that is reported drifts ({world}, {', '.join(sorted(tags)) or 'no arguments'}; before: {name_cfg(cfg)}; by {got - (d if kind == world else 0):+d})", kind)

    r.spread(work)
    for k in ("user", "broker"):
        ctx.need(k in r.flags, f"the gauge of connected {k}s")
