"""Vocabulary shared by the rules: what a term denotes, which events a call is, what a path has established."""
import re

from ..engine import Checker, path_is, shortfile, norm_bool
from ..terms import *
from ..ctx import site

CONN_API = (
    "Connection::recv_message",
    "Connection::send_message",
    "Connection::soft_close",
    "Connection::recv_message_raw",
    "Connection::send_message_raw",
)
RECV = ("Connection::recv_message", "Connection::recv_message_raw")
SEND = ("Connection::send_message", "Connection::send_message_raw")
SAME_CONN = ("Arc::ptr_eq", "Rc::ptr_eq", "Sender::same_channel", "Receiver::same_channel")
CODEC = ("Message::serialize", "Message::deserialize")
PASS = ("clone", "deref", "conv")


def is_call(t, *names):
    return isinstance(t, T) and t.op == "call" and any(path_is(t.args[0], n) for n in names)


def V(t):
    """The value behind pointers and boxes."""
    while True:
        if t.op in ("addr", "conv"):
            t = t.args[0]
        elif t.op == "deref" and t.args[0].op in ("str", "addr", "fld", "as", "cst"):
            t = t.args[0]
        elif t.op == "agg" and t.args[0].endswith("::Box"):
            t = t.args[3][0]
        else:
            return t


def okval(t):
    """The call a payload of Ok/Some was taken from: (call, [variants])."""
    vs = []
    t = V(t)
    while t.op == "fld" and t.args[1] in ("Ok", "Some"):
        vs.append(t.args[1])
        t = V(t.args[0])
    return t, vs


def fields(t):
    """(root, [(variant, name)...]) of a field path."""
    out = []
    t = V(t)
    while t.op == "fld":
        out.append((t.args[1], str(t.args[3])))
        t = V(t.args[0])
    return t, out[::-1]


def received(t):
    """(recv call, message variant, field names) when t is (part of) a received message."""
    r, fs = fields(t)
    if is_call(r, "Message::deserialize"):
        if not fs or fs[0][0] != "Ok":
            return None
        fs = fs[1:]
        inner = V(r.args[1][0])
        r2, fs2 = fields(inner)
        if not is_call(r2, "Connection::recv_message_raw"):
            return None
        r = r2
    elif is_call(r, "Connection::recv_message"):
        if not fs or fs[0][0] != "Ok":
            return None
        fs = fs[1:]
    else:
        return None
    if not fs:
        return r, None, ()
    return r, fs[0][0], tuple(n for _, n in fs[1:])


def recv_conn(r):
    return V(r.args[1][0])


def sent(t):
    """(connection, message value or raw value) of a send future."""
    if is_call(t, "Connection::send_message") and len(t.args[1]) > 1:
        return V(t.args[1][0]), V(t.args[1][1])
    if is_call(t, "Connection::send_message_raw") and len(t.args[1]) > 1:
        v = V(t.args[1][1])
        m = v
        n = 6
        while n:
            n -= 1
            c, vs = okval(m)
            if is_call(c, "Message::serialize"):
                return V(t.args[1][0]), V(c.args[1][0])
            if c.op == "call" and ("from_unchecked" in c.args[0] or "Bytes" in c.args[0] or "Allocation" in c.args[0]) and c.args[1]:
                m = c.args[1][0]
                continue
            if c.op == "agg" and c.args[0].endswith("Allocation"):
                m = c.args[3][0]
                continue
            break
        return V(t.args[1][0]), v
    return None


def message(m):
    """(variant, payload fields) of a constructed message."""
    if m.op == "agg" and m.args[0].endswith("message::Message"):
        return m.args[1], m.args[3]
    return None


def resp(m):
    """(permit, context) of a constructed AuthenticateResponse."""
    x = message(m)
    if x and x[0] == "AuthenticateResponse":
        p = V(x[1][0])
        if p.op == "agg":
            return V(p.args[3][0]), V(p.args[3][1])
        return T("fld", p, "", 0, "permit"), T("fld", p, "", 1, "context")
    return None


def key_msg(m, name):
    x = message(m)
    if x and x[0] == name:
        return V(x[1][0])
    return None


def agg_field(prog, v, name):
    """Named field of a constructed struct."""
    v = V(v)
    if v.op == "agg":
        a = prog.adts.get(v.args[0])
        if a:
            for i, f in enumerate(a["variants"][0][2]):
                if f[0] == name:
                    return V(v.args[3][i])
        return None
    return T("fld", v, "", 0, name)


# ---------------------------------------------------------------- time
def now_secs(t):
    """Is t the wall clock in seconds since the epoch?"""
    t = V(t)
    if t.op == "pure" and t.args[0].endswith("Duration::as_secs"):
        return now_dur(t.args[1][0])
    return False


def now_dur(t):
    c, vs = okval(t)
    if is_call(c, "SystemTime::duration_since"):
        a = [V(x) for x in c.args[1]]
        return is_call(a[0], "SystemTime::now") and "UNIX_EPOCH" in repr(a[1].args)
    if is_call(c, "SystemTime::elapsed"):
        return "UNIX_EPOCH" in repr(V(c.args[1][0]).args)
    return False


def now_reads(t):
    return [x for x in walk(t) if is_call(x, "SystemTime::now", "SystemTime::elapsed")]


def arith(t):
    """t as base + k for a constant k; saturating: whether it may be clipped."""
    t = V(t)
    if t.op == "bin" and t.args[0] in ("Add", "Sub"):
        a, b = V(t.args[1]), V(t.args[2])
        if b.op == "int":
            return a, b.args[0] if t.args[0] == "Add" else -b.args[0]
        if a.op == "int" and t.args[0] == "Add":
            return b, a.args[0]
    if t.op == "pure" and t.args[0].endswith(("::saturating_add", "::saturating_sub")):
        a, b = V(t.args[1][0]), V(t.args[1][1])
        if b.op == "int":
            return a, b.args[0] if t.args[0].endswith("add") else -b.args[0]
    return t, 0


def flip(r):
    return frozenset({"<": ">", ">": "<", "=": "="}[c] for c in r)


def fresh_facts(st, ts, limit):
    """(age bounded by limit, not in the future) established for the timestamp ts on this path."""
    bounded = future = False
    for k, f in st.facts.items():
        if f[0] != "I" or f[2] > limit:
            continue
        d = None
        if k.op == "bin" and k.args[0] == "Sub":
            d = (V(k.args[1]), V(k.args[2]))
        elif k.op == "pure" and k.args[0].endswith(("u64::saturating_sub", "u64::wrapping_sub", "u64::abs_diff")):
            x, y = V(k.args[1][0]), V(k.args[1][1])
            d = (x, y) if now_secs(x) else ((y, x) if k.args[0].endswith("abs_diff") else (x, y))
            if k.args[0].endswith("wrapping_sub") and d and now_secs(d[0]) and d[1] is ts:
                future = True
        if d and now_secs(d[0]) and d[1] is ts:
            bounded = True
    pairs = []
    for (a, b), r in st.rel.items():
        pairs.append((a, b, r))
        pairs.append((b, a, flip(r)))
    for a, b, r in pairs:
        # ts + j  r  now + k
        x, j = arith(a)
        y, k = arith(b)
        if x is ts and now_secs(y):
            if r <= frozenset("<=") and j - k >= 0:
                future = True
            if r <= frozenset(">=") and k - j >= -limit:
                bounded = True
            if r <= frozenset(">") and k - j >= -limit - 1:
                bounded = True
            if r <= frozenset("<") and j - k >= -1:
                future = True
        # Duration arithmetic
        a2, b2 = V(a), V(b)
        if b2.op == "dur" and b2.args[0] <= limit * 1000 and r <= frozenset("<="):
            base, vs = okval(a2)
            if base.op == "pure" and base.args[0].endswith(("Duration::checked_sub", "Duration::saturating_sub", "Duration::abs_diff")):
                p = [V(z) for z in base.args[1]]
                if any(now_dur(z) for z in p) and any(z.op == "pure" and z.args[0].endswith("from_secs") and V(z.args[1][0]) is ts for z in p):
                    bounded = True
                    if base.args[0].endswith("checked_sub") and vs and now_dur(p[0]):
                        future = True
        if a2.op == "pure" and a2.args[0].endswith("from_secs") and V(a2.args[1][0]) is ts and now_dur(b2) and r <= frozenset("<="):
            future = True
    return bounded, future


# ---------------------------------------------------------------- branch facts
def holds(st, t, val=True):
    f = st.facts.get(t)
    return f == ("B", val)


def true_calls(st, *names):
    """Calls that are known to have returned true (or Ok(true))."""
    out = []
    for k, f in st.facts.items():
        if f == ("B", True):
            c, vs = okval(k)
            if is_call(c, *names):
                out.append(c)
    return out


def variant_of(st, t, seen=None):
    if t.op == "agg":
        return frozenset([t.args[1]])
    f = st.facts.get(t)
    return f[1] if f and f[0] == "V" else None


def int_bounds(st, t):
    if t.op == "int":
        return t.args[0], t.args[0]
    f = st.facts.get(t)
    return (f[1], f[2]) if f and f[0] == "I" else (0, 1 << 64)


def const_str(t):
    t = V(t)
    if t.op == "str":
        return t.args[0]
    if t.op == "cst":
        return str(t.args[0])
    return None


def unelapsed(eng):
    """Duration (ms) of the tightest enclosing timeout; None when there is none."""
    ds = [d.args[0] for d in eng.tmo if d.op == "dur"]
    return min(ds) if ds else None


class Rule(Checker):
    """Base: the Connection API is opaque; what reaches an event of the rule is analysed in context, as are small
    helpers without side effects; the rest is opaque."""

    opaque = CONN_API
    events = None  # callee names the rule is about; None: everything is analysed in context

    def __init__(self, ctx, variant="default"):
        self.ctx = ctx
        self.prog = ctx.prog(variant)
        self._inl = {}
        self.reach = None
        if self.events is not None:
            g = ctx.graph(variant)
            self.reach = g.callers({b.path for b, _, _, _ in g.calls(*self.events)} | {p for p in self.extra_sinks(g)})

    def extra_sinks(self, g):
        return ()

    def inline(self, path, frame):
        r = self._inl.get(path)
        if r is None:
            r = self._inl[path] = self._inline(path)
        return r

    def _inline(self, path):
        if any(path_is(path, o) for o in self.opaque):
            return False
        if self.reach is None or path in self.reach:
            return True
        return self.helper(path)

    def helper(self, path):
        b = self.prog.bodies.get(path)
        if b is None:
            return False
        if b.kind == "Closure":
            return True
        if len(b.blocks) > 80:
            return False
        return not any(ty[0].startswith("&mut ") for ty in b.locals[1 : 1 + b.raw["argc"]])

    def keep(self, t):
        return True


def prod(paths):
    """Bodies of the product, not of its tests."""
    return [p for p in paths if "::tests::" not in p and "::test::" not in p and "::binaries::" not in p]


def roots_of(g, *names):
    return prod(g.roots(prod({b.path for b, _, _, _ in g.calls(*names)})))


# ---------------------------------------------------------------- session tables
CONN_TY = "cdn_proto::connection::protocols::Connection"


def session_map(prog, ty):
    """'user' | 'broker' when ty is (a reference to) a map that holds sessions."""
    from ..mir import head, targs

    t = ty.lstrip("&")
    if t.startswith("mut "):
        t = t[4:]
    if "hash::map::HashMap<" not in t and "btree::map::BTreeMap<" not in t:
        return None
    a = targs(t)
    if len(a) < 2:
        return None
    k, v = a[0], a[1]
    holds_conn = CONN_TY in v
    if not holds_conn:
        ad = prog.adts.get(head(v))
        if ad:
            holds_conn = any(CONN_TY in f[1] for var in ad["variants"] for f in var[2])
    if not holds_conn:
        return None
    if "BrokerIdentifier" in k:
        return "broker"
    if k.startswith("alloc::rcs::arc::Arc<alloc::vec::Vec<u8") or "Vec<u8" in k:
        return "user"
    return None


MAP_INSERT = ("HashMap::insert", "BTreeMap::insert")
MAP_REMOVE = ("HashMap::remove", "HashMap::remove_entry", "BTreeMap::remove")
MAP_ENTRY = ("HashMap::entry", "BTreeMap::entry")


def conn_in(v):
    """The connections stored in a session value."""
    v = V(v)
    out = []
    if v.op in ("tup", "arr"):
        for x in v.args[0]:
            out += conn_in(x)
    elif v.op == "agg":
        for x in v.args[3]:
            out += conn_in(x)
    elif v.op in ("call", "fld", "param", "sym", "out"):
        out.append(v)
    return out


def builders(g, *variants):
    """Product bodies that construct a message of one of the kinds (not the codec)."""
    out = []
    for b in g.prog.bodies.values():
        if path_is(b.path, "Message::deserialize") or "core::clone::Clone" in b.path:
            continue
        for st, t, sp, cl in b.blocks:
            for s in st:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1].endswith("message::Message") and s[2][1][3] in variants:
                    out.append(b.path)
    return prod(sorted(set(out)))


def wit_entry(table, key):
    """The entry of a map that belongs to the witness, as its iterators yield it."""
    got = T("call", "std::collections::hash::map::HashMap::get", (T("addr", table), T("addr", key)), ("wit",))
    return T("tup", (T("addr", key), T("fld", got, "Some", 0, "0")))
