"""Sessions: what a peer's messages make the broker do, and how sessions begin and end."""
from . import check
from .common import *
from .places import Places, USER_KEY, bare
from .route import GET, HOOK, PRUNE, lookup, origin, current, session_roots, under, raw_of
from .topics import recognised
from .store import Model, LVER, US, status
from ..models import guard_of, LOCKS, lock_place
from ..terms import *

PROCESS, SKIP = frozenset(["ProcessMessage"]), frozenset(["SkipMessage"])
IDENT = "MessageHookDef::set_identifier"
OK, ERR = frozenset(["Ok"]), frozenset(["Err"])


class Ops:
    """What each operation on the session tables does, found by interpreting it."""

    def __init__(self, ctx, variant="default"):
        self.m = Model(ctx, variant)
        self.byname = {}
        self.guarded = {}  # what an operation does only for the registered connection it is given
        for b in self.m.ops:
            if b.locals[1][0].startswith("&mut "):
                self.byname[b.path] = self.classes(b)
        self.paths = tuple(self.byname)

    def classes(self, b):
        """{(booleans): {effects}}; an effect is (what, user|broker)."""
        m, out = self.m, {}
        mine, strange = set(), set()
        for world in ("user", "broker"):
            for tags, vals in m.cases(b, world):
                if "other-key" in tags or "other-topics" in tags or "alone" in tags:
                    continue
                k = tuple(t for t in ("true", "false") if t in tags)
                r = set()
                if "remote" in tags:
                    for v in vals:
                        if isinstance(v, tuple):
                            ks = {m.pl.kind(t) for _, t in m.fields(v[1])}
                            if "location" in ks:
                                r.add(("merge", "user"))
                            if "topic-sync" in ks:
                                r.add(("merge", "broker"))
                    out.setdefault(k, set()).update(r)
                    if "own" in tags:  # that it changes nothing for another one is checked (C17)
                        mine |= r
                    continue
                tp, ht = "topics-" + world, "interest-" + world
                loc = {"location": (US, LVER), "modified-user": False} if world == "user" else {}
                none = {world: False}
                full = dict(loc, **{world: True, tp: (True, True), ht: (True, True)})
                bare_ = dict(loc, **{world: True, tp: None, ht: None})
                for name, cfg in (("none", none), ("bare", bare_), ("full", full)):
                    for _, post, marks in m.run(b, cfg, vals):
                        if post[world] == "?" or post[ht] == "?":
                            r.add(("unknown", world))
                            continue
                        had = bool(cfg[world])
                        if post[world] and post[world] != ("old-conn", "old-task"):
                            r.add(("join", world))
                        elif had and not post[world]:
                            r.add(("end", world))
                        on = bool(post[ht] and post[ht][0])
                        if had and post[world] == ("old-conn", "old-task"):
                            if on and name == "bare":
                                r.add(("subscribe", world))
                            if not on and name == "full":
                                r.add(("unsubscribe", world))
                out.setdefault(k, set()).update(r)
                if "stranger" in tags:
                    strange |= r
                if "own" in tags:
                    mine |= r
        self.guarded[b.path] = mine - strange
        for k, r in out.items():
            for w in ("user", "broker"):
                if ("join", w) in r:
                    r -= {(x, w) for x in ("end", "subscribe", "unsubscribe")}
        return out

    def effects(self, c, eng):
        cl = self.byname[c.path]
        bs = []
        for a, ty in zip(c.args[1:], c.argtys[1:]):
            if bare(ty) == "bool":
                v = V(eng.strip_ptr(c.st, a))
                bs.append("true" if v is TRUE else "false" if v is FALSE else "?")
        if "?" in bs:
            return set().union(*cl.values())
        for k, r in cl.items():
            if set(k) == set(bs):
                return r
        return set().union(*cl.values()) if cl else set()

    def keyarg(self, c, eng, who):
        for a, ty in zip(c.args[1:], c.argtys[1:]):
            t = bare(ty)
            if who == "user" and t.startswith(USER_KEY) or who == "broker" and t.endswith("BrokerIdentifier"):
                return under(eng.strip_ptr(c.st, a))
        return None

    def topicsarg(self, c, eng):
        for a, ty in zip(c.args[1:], c.argtys[1:]):
            t = bare(ty)
            if t in ("[u8]", "u8") or "Vec<u8" in t and not t.startswith(USER_KEY) or "HashSet<u8" in t:
                return V(eng.strip_ptr(c.st, a))
        return None

    def remotearg(self, c, eng):
        for a, ty in zip(c.args[1:], c.argtys[1:]):
            if self.m.is_versioned(bare(ty)):
                return V(eng.strip_ptr(c.st, a))
        return None


def base(t):
    """What a part of a value is a part of."""
    t = under(t)
    while t.op in ("fld", "deref", "upd", "mod", "as", "addr", "clone"):
        t = under(t.args[0])
    return t


class Sessions(Rule):
    """Follows a session task from one message to the next, or a task in which parties join."""

    aut_live = True

    def __init__(self, ctx, ops, what, kind=None, own=(), sessions=(), quiet=False):
        self.opaque = CONN_API + CODEC + ops.paths
        self.events = ops.paths + (HOOK,) + tuple(SEND)
        super().__init__(ctx)
        self.ops, self.what, self.kind, self.own, self.sessions = ops, what, kind, own, sessions
        self.P = Places(self.prog)
        self.n = {}
        self.captured = {}
        self.quiet = quiet

    def keep(self, t):
        return True

    def count(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    # ---- marks
    def add(self, st, *m):
        m = tuple(Pin(x) if isinstance(x, T) else x for x in m)
        if m not in (st.aut or ()):
            st.aut = (st.aut or ()) + (m,)

    def marks(self, st, kind):
        return [tuple(x.t if isinstance(x, Pin) else x for x in m) for m in st.aut or () if m[0] == kind]

    def drop(self, st, kind, *key):
        st.aut = tuple(m for m in st.aut or () if not (m[0] == kind and all(isinstance(x, Pin) and x.t is y or x is y for x, y in zip(m[1:], key)))) or None

    # ---- the message being handled
    def hooked(self, st):
        """(recv call, hook result) of this round."""
        h = self.marks(st, "hook")
        return h[-1][1:] if h else (None, None)

    def agreed(self, st, cur):
        """Did the hook tell to process the message?"""
        recv, res = self.hooked(st)
        if recv is None or cur is None or recv is not cur[1]:
            return None
        ok_ = variant_of(st, res)
        if ok_ != OK:
            return False
        return variant_of(st, T("fld", res, "Ok", 0, "0")) == PROCESS or self.fact(st, res) == PROCESS

    def fact(self, st, res):
        for k, f in st.facts.items():
            if f[0] == "V" and k.op == "fld" and k.args[1] == "Ok" and k.args[0] is res:
                return f[1]
        return None

    def on_call(self, eng, c):
        if c.path in self.ops.byname:
            self.op(eng, c)
            return None
        if c.matches(HOOK):
            m = V(eng.strip_ptr(c.st, c.args[1]))
            o = origin(m)
            outs = eng.opaque(c)
            if o and o[1] is None:
                for r, s in outs:
                    self.add(s, "hook", o[0], r)
                    self.count("hook")
            elif self.what == "C13":
                self.ctx.ob("hook-sees-the-message", False, c.where(), "the hook is given something other than the message that was received: " + show(m))
            if self.what == "C13":
                self.ctx.ob("hook-of-the-session", c.args[0].op == "ref" and any(m[1] is c.args[0] for m in self.marks(c.st, "ident")), c.where(), "the hook that is called is not the session's own, or was not told whose messages it sees")
            return outs
        if c.decl.endswith("hash::Hash::hash") and len(c.args) > 1 and c.args[1].op == "ref":
            a = c.args[1]
            new = T("pure", c.decl, (eng.strip_ptr(c.st, a), eng.strip_ptr(c.st, c.args[0])))
            eng.write_loc(c.st, ("mem", a.args[0], a.args[1]), new, c.frame, c.block)
            return [(UNIT, c.st)]
        if c.matches(IDENT) and len(c.args) > 1:
            if any(self.mine(x) for x in walk(eng.strip_ptr(c.st, c.args[1]))):
                self.add(c.st, "ident", c.args[0])
            return None
        if c.matches(PRUNE) and c.args:
            outs = eng.opaque(c)
            for r, s in outs:
                self.add(s, "pruned", V(eng.strip_ptr(s, c.args[0])), r)
            return outs
        if self.what in ("C36", "C39") and c.path in LOCKS and c.args and "::read" not in c.path:
            if self.is_tables(lock_place(eng, c.st, c.args[0])):
                self.drop(c.st, "held")
                self.add(c.st, "held")
        return None

    def is_tables(self, place):
        t = self.P.ty(T("locked", place))
        return t and self.ops.m.adt in t

    def on_drop(self, eng, st, ty, val, frame, block):
        if self.what in ("C36", "C39") and self.ops.m.adt in ty and "Guard" in ty:
            self.drop(st, "held")
            self.drop(st, "current")
            for m in self.marks(st, "spawned"):
                self.drop(st, "spawned", m[1])
                self.add(st, "loose", m[1])
        return None

    def on_spawn(self, eng, st, fut, frame, block):
        if self.what == "C36" and fut.op == "cor" and fut.args[0] in self.sessions:
            self.add(st, "spawned" if self.marks(st, "held") else "loose", fut)
            self.count("spawned")
        return None

    # ---- sending
    def on_await(self, eng, st, fut, frame, block):
        s = sent(fut)
        if s:
            l = lookup(self.P, s[0])
            if l and l[0] in ("user", "broker"):
                self.add(st, "to", fut, under(l[1]), l[0], base(s[0]))
                if self.what == "C13":
                    self.effect(eng, st, "send", None, site(frame, block))
        return None

    def same(self, a, b):
        """[(table, key, connection)]: whose registered connection is compared with which."""
        out = []
        for x, y in ((a, b), (b, a)):
            l = lookup(self.P, x)
            if l and l[0] in ("user", "broker"):
                out.append((l[0], under(l[1]), base(y)))
        return out

    def stale(self, st, who, key, conn=None):
        """Is it known that the connection is not, or no more, the one registered for this identity?"""
        return any(m[1] == who and m[2] is key and (m[3] is None or conn is None and m[3].op == "param" or m[3] is conn) for m in self.marks(st, "stale"))

    def superseded(self, eng, st, term, val):
        new = []
        if term.op == "isvar":
            x = V(term.args[0])
            if is_call(x, *GET) and (term.args[1] == "None") == val:
                l = lookup(self.P, x)
                if l and l[0] in ("user", "broker"):
                    new.append((l[0], under(l[1]), None))
        elif is_call(term, *SAME_CONN):
            for m in self.same(*term.args[1][:2]):
                if val:
                    self.add(st, "current", *m)
                else:
                    new.append(m)
        for who, key, conn in new:
            self.add(st, "stale", who, key, conn)
            for m in self.marks(st, "failed"):
                if m[1] is key and m[2] == who and (conn is None or conn is m[4]):
                    self.drop(st, "failed", key)

    def on_assume(self, eng, st, term, val, frame, block):
        self.superseded(eng, st, term, val)
        if term.op != "isvar" or self.what not in ("C36", "C39"):
            return
        x = V(term.args[0])
        if is_call(x, *SEND) and (term.args[1] == "Err") == val:
            for m in self.marks(st, "to"):
                if m[1] is x:
                    self.drop(st, "to", x)
                    self.add(st, "failed", m[2], m[3], site(frame, block), m[4])
                    self.count("failed")

    # ---- operations on the tables
    def op(self, eng, c):
        st, w = c.st, c.where()
        for what, who in sorted(self.ops.effects(c, eng)):
            key = self.ops.keyarg(c, eng, who)
            if self.what == "C13":
                self.effect(eng, st, what, who, w, key, c)
            if self.what == "C36":
                self.life(eng, st, what, who, w, key, c)
            if self.what == "C39":
                self.last(eng, st, what, who, w, key, c)

    def mine(self, key):
        return key is not None and key.op == "param" and key.args[0] in self.own

    # ---- C13
    def effect(self, eng, st, what, who, w, key=None, c=None):
        ctx = self.ctx
        cur = current(st)
        if what == "end":
            self.count("end")
            failed = any(m[2] is key and m[3] == who for m in self.marks(st, "to"))
            ctx.ob("removes-only-itself-or-who-failed", self.mine(key) and who == self.kind or failed, w, f"a message from a {self.kind} can make the broker drop the session of a {who} that did nothing: " + (show(key) if key is not None else ""))
            return
        agreed = self.agreed(st, cur)
        v = cur[2] if cur else frozenset()
        ctx.ob("only-after-the-hook-agreed", agreed is True, w, f"a message from a {self.kind} has an effect although the session's hook was not asked, or did not tell to process it")
        self.count(what)
        if what == "send":
            ctx.ob("only-what-was-asked", v in (frozenset(["Direct"]), frozenset(["Broadcast"])), w, f"something is sent on because of a message that is neither direct nor a broadcast ({', '.join(sorted(v))})")
            return
        table = {("subscribe", "user"): ("user", "Subscribe"), ("unsubscribe", "user"): ("user", "Unsubscribe"), ("merge", "user"): ("broker", "UserSync"), ("merge", "broker"): ("broker", "TopicSync")}
        want = table.get((what, who))
        if not ctx.ob("only-what-was-asked", want is not None and self.kind == want[0] and v == frozenset([want[1]]), w, f"a message ({', '.join(sorted(v)) or 'unknown'}) from a {self.kind} changes the tables in a way it must not ({what} {who})"):
            return
        ctx.ob("once", not any(m[1:] == (what, who) for m in self.marks(st, "did")), w, f"a message is acted upon twice ({want[1]})")
        if what != "merge" or who == "broker":
            ctx.ob("only-for-itself", self.mine(key), w, f"a message from a {self.kind} acts on another {who}: " + (show(key) if key is not None else "nobody"))
        if what == "merge":
            r = self.ops.remotearg(c, eng)
            x, vs = okval(r) if r is not None else (None, [])
            o = None
            while x is not None and x.op == "call" and x.args[1]:
                o = origin(x.args[1][0])
                if o:
                    break
                x, vs = okval(x.args[1][0])
            ctx.ob("as-it-was-sent", bool(o) and o[0] is cur[1] and o[1] == want[1], w, f"the table that is merged is not the one the broker sent: " + (show(r) if r is not None else ""))
        else:
            t = self.ops.topicsarg(c, eng)
            o = origin(t) if t is not None else None
            ctx.ob("as-it-was-sent", bool(o) and o[0] is cur[1] and o[1] == want[1], w, "the topics are not the ones of the message: " + (show(t) if t is not None else ""))
            ctx.ob("only-valid-topics", any(m[1] is t and variant_of(st, m[2]) == OK for m in self.marks(st, "pruned")), w, "topics that were not checked are acted upon")
        self.add(st, "did", what, who)

    def on_loop(self, eng, st, frame, loop, head_):
        recv, res = self.hooked(st)
        if recv is not None and eng.in_loop(recv, frame, loop):
            self.done(eng, st, site(frame, head_), False)

    def done(self, eng, st, w, end):
        ctx = self.ctx
        if self.what == "C36":
            for m in self.marks(st, "failed") if not self.quiet else ():
                ctx.ob("who-failed-is-removed", False, m[3], f"a {m[2]} to which a message could not be sent stays registered")
        if self.what == "C13" and self.kind:
            recv, res = self.hooked(st)
            cur = current(st)
            if recv is not None:
                h = variant_of(st, res)
                if not end:
                    ctx.ob("hook-can-end-the-session", h == OK, w, "a session goes on although its hook asked to end it")
                if end and h == OK and self.fact(st, res) == SKIP and not cur:
                    ctx.ob("skipping-keeps-the-session", False, w, "a message that the hook skips ends the session")
                if h == OK and self.fact(st, res) == PROCESS and cur and cur[1] is recv:
                    v = cur[2]
                    did = {m[1:] for m in self.marks(st, "did")}
                    pruned = [m for m in self.marks(st, "pruned")]
                    for k, name, eff in (("user", "Subscribe", ("subscribe", "user")), ("user", "Unsubscribe", ("unsubscribe", "user")), ("broker", "UserSync", ("merge", "user")), ("broker", "TopicSync", ("merge", "broker"))):
                        if self.kind == k and v == frozenset([name]):
                            self.count("round " + name)
                            failed = any(variant_of(st, m[2]) == ERR for m in pruned) or k == "broker" and end
                            gone = any(self.mine(m[2]) and m[1] == k and self.stale(st, k, m[2]) for m in self.marks(st, "stale")) and eff != ("merge", "user")
                            ctx.ob("acted-upon", eff in did or failed or gone, w, f"a message of a {k} ({name}) is accepted and then not acted upon")
                    if self.kind == "user" and not end:
                        ctx.ob("users-may-not-send-it", v <= frozenset(["Direct", "Broadcast", "Subscribe", "Unsubscribe"]), w, "a user's session goes on after it sent what users may not send: " + ", ".join(sorted(v)))
        st.aut = tuple(m for m in st.aut or () if m[0] in ("held", "spawned", "loose", "ident")) or None

    # ---- C39
    def last(self, eng, st, what, who, w, key, c):
        """What is done under an identity is done only by (or to) the session that is registered for it."""
        if what == "join":
            for a, ty in zip(c.args[1:], c.argtys[1:]):
                if bare(ty) == CONN_TY:
                    self.add(st, "joined", key, who, base(eng.strip_ptr(st, a)))
            return
        if what == "merge" and who == "user" or key is None:
            return
        held = [m[3] for m in self.marks(st, "current") if m[1] == who and m[2] is key]
        if (what, who) in self.ops.guarded[c.path]:
            held += [base(eng.strip_ptr(st, a)) for a, ty in zip(c.args[1:], c.argtys[1:]) if bare(ty) == CONN_TY]
        if self.mine(key) and who == self.kind:
            self.count("own " + what)
            recv = {base(m[1].args[1][0]) for m in self.marks(st, "hook")}
            good = any(x in recv if recv else x.op == "param" for x in held)
            self.ctx.ob("only-the-registered-session-acts", good, w, f"a {who}'s session that was removed or replaced while it waited for the tables still acts under its identity ({what}), on what the new session of that identity has", f"{self.kind}/{what}")
            return
        if what != "end":
            return
        sent_ = [m[4] for m in self.marks(st, "to") if m[2] is key and m[3] == who]
        sent_ += [m[4] for m in self.marks(st, "failed") if m[1] is key and m[2] == who]
        own = [m[3] for m in self.marks(st, "joined") if m[1] is key and m[2] == who]
        if sent_ or own:
            self.count("recipient")
            self.ctx.ob("only-the-session-that-failed-is-removed", any(x in held for x in sent_ + own), w, f"when a message to a {who} could not be sent, the session that this {who} has meanwhile is removed in its place", ("joining " if own else "") + who)

    # ---- C36
    def life(self, eng, st, what, who, w, key, c):
        ob = (lambda *a: True) if self.quiet else self.ctx.ob
        if what == "end":
            for m in self.marks(st, "failed"):
                if m[1] is key and m[2] == who:
                    self.drop(st, "failed", m[1])
            if self.kind and self.mine(key) and who == self.kind:
                self.add(st, "ended")
        if what == "join":
            task = None
            for a in c.args[1:]:
                for x in walk(V(eng.strip_ptr(st, a))):
                    if is_call(x, "tokio::spawn") and x.args[1][0].op == "cor":
                        task = x.args[1][0]
            ob("runs-a-session", task is not None and task.args[0] in self.sessions, w, f"a {who} is registered without a task of its own that handles its messages")
            if task is None:
                return
            self.count("join " + who)
            conns = [under(V(eng.strip_ptr(st, a))) for a, ty in zip(c.args[1:], c.argtys[1:]) if bare(ty) == CONN_TY]
            caps = [under(eng.strip_ptr(st, x)) for x in task.args[1]]
            names = self.prog.bodies[task.args[0]].upvars
            idx = [i for i, x in enumerate(caps) if x is key]
            ob("handles-the-registered-identity", bool(idx), w, f"the task of a {who}'s session acts for another identity than the registered one")
            ob("handles-the-registered-connection", any(x in caps for x in conns), w, f"the task of a {who}'s session reads from another connection than the registered one")
            for i in idx:
                self.captured.setdefault((who, task.args[0]), set()).add(names.get(str(i)))
            ob("registered-before-it-can-act", any(m[1] is task for m in self.marks(st, "spawned")), w, f"the task of a {who}'s session can handle messages, or end, before the session is registered")
            if who == "user":
                t = self.ops.topicsarg(c, eng)
                ob("starts-with-valid-topics", t is not None and any(m[1] is t for m in self.marks(st, "pruned")), w, "a user joins with topics that were not checked")


def joins(ctx, ops, quiet=False, what="C36"):
    """Own-identity parameters of each session task, from the places where parties join."""
    g = ctx.graph()
    paths = [p for p, cl in ops.byname.items() if any(("join", w) in r for r in cl.values() for w in ("user", "broker"))]
    sess = session_roots(ctx, g)
    cks = []
    for r in prod(g.roots(paths)):
        if not r.startswith("cdn_broker"):
            continue
        ck = Sessions(ctx, ops, what, None, (), tuple(p for p, _ in sess), quiet)
        outs = ctx.run(r, ck)
        cks.append((r, ck, outs))
    own = {}
    for _, ck, _ in cks:
        for (who, task), names in ck.captured.items():
            own.setdefault(task, set()).update(names)
    return sess, own, cks


@check("C13", "provenance dataflow over MIR of both receive loops, with the effect of every table operation found by interpreting it: which message changes what, for whom, and whether the hook agreed")
def c13(ctx):
    g = ctx.graph()
    recognised(ctx)
    ops = Ops(ctx)
    sess, own, _ = joins(ctx, ops, True)
    for r, k in sess:
        ctx.need(own.get(r), f"the identity the session task of a {k} acts for")
        ck = Sessions(ctx, ops, "C13", k, own.get(r, ()))
        for v, st in ctx.run(r, ck):
            ck.done(None, st, r, True)
        ctx.need(ck.n.get("hook"), f"the hook of {k} sessions")
        for name in ("Subscribe", "Unsubscribe") if k == "user" else ("UserSync", "TopicSync"):
            ctx.need(ck.n.get("round " + name), f"rounds that handle {name} ({k} sessions)")


@check("C36", "typestate dataflow over MIR of every task in which parties join, and of every session task: what is registered is what is served, and what fails is removed")
def c36(ctx):
    g = ctx.graph()
    recognised(ctx)
    ops = Ops(ctx)
    sess, own, cks = joins(ctx, ops)
    for who in ("user", "broker"):
        ctx.need(any(ck.n.get("join " + who) for _, ck, _ in cks), f"the place where a {who} joins")
    for r, k in sess:
        ck = Sessions(ctx, ops, "C36", k, own.get(r, ()), tuple(p for p, _ in sess))
        outs = ctx.run(r, ck)
        for v, st in outs:
            left = any(ck.mine(m[2]) and m[1] == k and ck.stale(st, k, m[2]) for m in ck.marks(st, "stale"))
            ctx.ob("ends-with-its-removal", bool(ck.marks(st, "ended")) or left, r, f"the session task of a {k} can end without the session being removed")
            ck.done(None, st, r, True)
        ctx.need(ck.n.get("failed"), f"failing sends ({k} sessions)")


@check("C39", "typestate dataflow over MIR of every session task, every sender and every task in which parties join: an operation under an identity needs, under the same lock, the comparison that shows the acting connection to be the registered one")
def c39(ctx):
    ops = Ops(ctx)
    sess, own, _ = joins(ctx, ops, True)
    _, _, cks = joins(ctx, ops, False, "C39")
    n = sum(ck.n.get("recipient", 0) for _, ck, _ in cks)
    for r, k in sess:
        ctx.need(own.get(r), f"the identity the session task of a {k} acts for")
        ck = Sessions(ctx, ops, "C39", k, own.get(r, ()), tuple(p for p, _ in sess))
        ctx.run(r, ck)
        for what in ("subscribe", "unsubscribe", "end") if k == "user" else ("merge", "end"):
            ctx.need(ck.n.get("own " + what), f"what the session task of a {k} does for itself: {what}")
        n += ck.n.get("recipient", 0)
    ctx.need(n, "removals of recipients that could not be written to")
