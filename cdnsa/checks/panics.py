"""Panics: what a peer sends, and calls that fail, may end a session, but not by a panic."""
from . import check
from .common import *
from .codec import element
from ..ctx import site
from ..graph import op_fn
from ..mir import head

# functions that panic for some of their arguments: what they are given decides
INDEX = ("Index::index", "IndexMut::index_mut")
PARTIAL = INDEX + (
    "[param:T]::copy_from_slice", "[param:T]::clone_from_slice", "[param:T]::split_at", "[param:T]::split_at_mut", "[param:T]::swap", "[param:T]::chunks", "[param:T]::chunks_exact", "[param:T]::windows", "str::split_at",
    "Vec::remove", "Vec::swap_remove", "Vec::insert", "Vec::drain", "Vec::split_off", "VecDeque::swap", "String::remove", "String::insert", "String::drain", "String::split_off",
    "Bytes::slice", "Bytes::split_to", "Bytes::split_off", "BytesMut::split_to", "BytesMut::split_off", "Buf::advance", "Buf::get_u8", "Buf::get_u16", "Buf::get_u32", "Buf::get_u64", "Buf::copy_to_slice", "Buf::copy_to_bytes",
    "Duration::from_secs_f64", "Duration::from_secs_f32", "Duration::mul_f64", "RefCell::borrow", "RefCell::borrow_mut", "OnceCell::set",
)
UNWRAP = ("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Result::unwrap_err", "Result::expect_err", "Option::expect_none")
ACQUIRE = ("Semaphore::acquire", "Semaphore::acquire_owned", "Semaphore::acquire_many", "Semaphore::acquire_many_owned")
# what a table holds is not what it was looked up by
LOOKUP = ("HashMap::get", "HashMap::get_mut", "HashMap::entry", "HashMap::remove", "BTreeMap::get", "BTreeMap::get_mut", "BTreeMap::entry", "Index::index", "IndexMut::index_mut")
LIBRARY = ("tracing", "tokio", "prometheus", "lazy_static", "rkyv_derive", "futures", "log::", "derive_more", "sqlx", "serde", "thiserror", "async_trait")
# where bytes of a peer come from
PEER = (
    "Connection::recv_message", "Connection::recv_message_raw", "Message::deserialize", "AsyncReadExt::read_u32", "AsyncReadExt::read_u64", "AsyncReadExt::read_u16", "AsyncReadExt::read_u8",
    "AsyncReadExt::read_u32_le", "AsyncReadExt::read_exact", "AsyncReadExt::read", "AsyncReadExt::read_buf", "AsyncReadExt::read_to_end", "RecvStream::read", "RecvStream::read_exact", "RecvStream::read_chunk",
)
BYTES = ("Bytes", "Vec<u8", "[u8]", "Message", "[u8;", "Broadcast", "Direct", "AuthenticateWith")


def macros(body, b):
    while isinstance(b, tuple):
        b = b[0]
    sp = body.blocks[b][2] if isinstance(b, int) and 0 <= b < len(body.blocks) else body.span
    return sp[2] if len(sp) > 2 else []


def by_library(ms):
    return any(m.startswith(LIBRARY) for m in ms)


def sites(prog):
    """Bodies in which something can panic."""
    out = {}
    for p in prod(sorted(prog.bodies)):
        if "messages_capnp" in p or "::test" in p or not p.lstrip("<").startswith(("cdn_", "&")):
            continue
        b = prog.bodies[p]
        for i, (st, t, sp, cl) in enumerate(b.blocks):
            if cl or by_library(sp[2] if len(sp) > 2 else []):
                continue
            f = op_fn(t[1]) if t[0] == "call" else None
            q = [f["p"], f.get("r") or f["p"]] if f else []
            if t[0] == "assert" and not str(t[3]).startswith("Resumed") or any(path_is(x, n) for x in q for n in PARTIAL + UNWRAP) or any("core::panicking::" in x or "begin_panic" in x for x in q):
                out.setdefault(p, []).append(i)
    return out


class Panics(Rule):
    def __init__(self, ctx, where, variant="default"):
        self.where = where
        super().__init__(ctx, variant)
        g = ctx.graph(variant)
        # a wait for a permit fails only once its semaphore is closed: follow whatever waits for one
        waits = {b.path for n in ACQUIRE for b, _, _, _ in g.calls(n)}
        self.reach = g.callers(set(where) | waits)
        self.seen = set()

    def tainted(self, *ts):
        """Can a peer choose it?"""
        seen, todo = set(), list(ts)
        while todo:
            x = todo.pop()
            if not isinstance(x, T):
                if isinstance(x, (tuple, list)):
                    todo += x
                continue
            if x in seen:
                continue
            seen.add(x)
            if x.op == "call" and any(path_is(x.args[0], n) for n in PEER):
                return True
            if x.op == "param" and not str(x.args[-1]).startswith("cdn_client") and any(b in str(x.args[1]) for b in BYTES):
                return True
            if x.op in ("call", "pure") and any(path_is(x.args[0], n) for n in LOOKUP):
                todo.append(x.args[1][0])
            else:
                todo += x.args
        return False

    def bad(self, rule, w, msg):
        self.ctx.ob(rule, False, w, msg)

    def fine(self, rule, w):
        self.ctx.ob(rule, True, w)

    def on_panic(self, eng, st, kind, c):
        if by_library(c.span[2] if len(c.span) > 2 else []):
            return
        w = c.where()
        if kind == "panic":
            self.bad("never-panics", w, "a task panics here")
            return
        v = V(c.args[0])
        good = self.cannot_fail(v)
        self.ctx.ob("never-panics", good, w, "a task panics if this fails: " + show(v)[:120])

    def cannot_fail(self, v):
        v = V(v)
        # an error that is passed on is that of the call it comes from
        while v.op == "agg" and len(v.args[3]) == 1 or v.op in ("fld", "await"):
            v = V(v.args[3][0]) if v.op == "agg" else V(v.args[0])
        if is_call(v, *ACQUIRE):
            # only when the semaphore is closed
            crate = "cdn_proto::"
            return not [b for b, _, _, _ in self.ctx.graph().calls("Semaphore::close") if b.path.startswith(crate)]
        if v.op == "unfit":
            # nothing in memory is longer than 32 bits can count
            x = V(v.args[0])
            return not self.tainted(x) or (x.op == "len" or x.op in ("item", "sym")) and v.args[1].args[0] >= (1 << 32) - 1
        return v.op == "cst" or any(is_call(v, n) for n in ("register_int_gauge",))

    def on_assert(self, eng, st, kind, cond, frame, block):
        if by_library(macros(frame.body, block)) or str(kind).startswith("Resumed"):
            return
        w = site(frame, block)
        what = str(kind)
        if what.startswith("BoundsCheck"):
            self.ctx.ob("indexes-in-bounds", not self.tainted(cond), w, "an index that a peer can choose, into something whose length a peer can choose: " + show(cond)[:120])
        elif what.startswith(("DivZero", "RemZero")):
            self.ctx.ob("never-panics", not self.tainted(cond), w, "a division by zero: " + show(cond)[:120])
        else:
            self.ctx.ob("no-overflow", not self.tainted(cond) or self.fits(eng, st, V(cond)), w, "arithmetic on a number that a peer can choose overflows: " + show(cond)[:120])

    def fits(self, eng, st, cond):
        """Does this operation on unsigned numbers stay in range on this path?"""
        if cond.op != "ovf":
            return False
        op, a, b = cond.args[0], V(cond.args[1]), V(cond.args[2])
        if op == "Sub":
            return not eng.getrel(st, a, b, "u") & frozenset("<")
        hi = [x.args[0] if x.op == "int" else 1 << 62 if x.op == "len" else eng.idom(st, x, "u")[1] for x in (a, b)]
        top = (1 << 64) if any(x.op == "len" for x in (a, b)) else 1 << 32
        return op in ("Add", "Mul") and (hi[0] + hi[1] if op == "Add" else hi[0] * hi[1]) < top

    def on_call(self, eng, c):
        if c.matches(*UNWRAP):
            self.fine("never-panics", c.where()) if not by_library(c.span[2] if len(c.span) > 2 else []) else None
        if c.matches(*PARTIAL) and not by_library(c.span[2] if len(c.span) > 2 else []):
            a = [V(eng.strip_ptr(c.st, x)) for x in c.args]
            if "HashMap" in c.path or "BTreeMap" in c.path or "HashSet" in c.path and "index" not in c.path:
                if c.matches(*INDEX):
                    self.bad("never-panics", c.where(), "a task panics if this key is missing")
                return None
            good = not self.tainted(*a) or len(a) > 1 and self.in_bounds(eng, c, a)
            self.ctx.ob("indexes-in-bounds", good, c.where(), "an index that a peer can choose, or into something whose length a peer can choose: " + ", ".join(show(x)[:80] for x in a))
        return None

    def in_bounds(self, eng, c, a):
        i, n = a[1], eng.length(c.st, c.args[0])
        if i.op == "agg" and "range::" in i.args[0]:
            kind, ends = i.args[0].rsplit("::", 1)[1], [V(x) for x in i.args[3]]
            if kind == "RangeFull":
                return True
            if kind == "Range":
                return self.below(eng, c.st, ends[0], ends[1], True) and self.below(eng, c.st, ends[1], n, True)
            if kind in ("RangeTo", "RangeFrom"):
                return self.below(eng, c.st, ends[0], n, True)
            return kind == "RangeToInclusive" and self.below(eng, c.st, ends[0], n, False)
        return self.below(eng, c.st, i, n, c.matches("split_at", "split_at_mut", "Vec::insert", "Vec::split_off", "split_to", "split_off"))

    def below(self, eng, st, x, n, equal):
        """Is x below n on this path?"""
        x, n = V(x), V(n)
        if x is n or x.op == "int" and x.args[0] == 0:
            if equal:
                return True
        if x.op == "item" and x.args[0] == "item":
            r = V(x.args[1][0])
            if r.op == "agg" and r.args[0].endswith("range::Range"):
                return self.below(eng, st, r.args[3][1], n, True)
        if x.op == "sym" and x.args[0] == "index":
            return True
        return not eng.getrel(st, x, n, "u") & frozenset(">" if equal else ">=")


@check("C27", "provenance dataflow over MIR to every construct that can panic: none can be reached with a value that makes it panic and that a peer, or a call that failed, brings about")
def c27(ctx):
    prog, g = ctx.prog(), ctx.graph()
    where = sites(prog)
    n = 0
    todo = set(where)
    for r in prod(g.roots(todo)):
        if "::test" in r or "DeterministicRng" in r:
            continue
        ctx.run(r, Panics(ctx, where))
        n += 1
    ctx.ob("panic-sites-enumerated", True, "workspace")
    ctx.notes.append(f"{sum(map(len, where.values()))} constructs that can panic, in {len(where)} functions")
    ctx.need(sum(1 for p in prog.bodies if p.startswith("cdn_broker::")) > 50, "the broker")
