"""What happens between a connection's two channels and its stream: frames, memory, deadlines, order, teardown."""
import re

from . import check
from .common import *
from ..mir import head, targs

WEXT = "AsyncWriteExt::"
REXT = "AsyncReadExt::"
TAKE = ("async_channel::Receiver::recv",)
PUT = ("async_channel::Sender::send",)
LIMIT = 0xFFFFFFFF // 8  # the protocol's limit on the size of a message
GROW = ("vec::from_elem", "Vec::with_capacity", "Vec::reserve", "Vec::reserve_exact", "Vec::resize", "Vec::try_reserve", "BytesMut::with_capacity", "BytesMut::zeroed")
ACQUIRE = ("Semaphore::acquire_many_owned", "Semaphore::acquire_many", "Semaphore::acquire_owned", "Semaphore::acquire")


def tail(t, prefix):
    return t.args[0].rsplit("::", 1)[1] if is_call(t) is not None and t.op == "call" and ("::" + prefix) in t.args[0] else None


def stream_op(t):
    """('w' | 'r', operation) of a stream future."""
    if t.op != "call":
        return None
    for k, p in (("w", WEXT), ("r", REXT)):
        if "::" + p in t.args[0]:
            return k, t.args[0].rsplit("::", 1)[1]
    return None


def stream_tasks(g, kind):
    """Spawned tasks that write ('w') or read ('r') a stream."""
    ext = WEXT if kind == "w" else REXT
    sinks = {b.path for p, l in g.sites.items() if "::" + ext in p for b, _, _, _ in l}
    rs = [r for r in prod(g.roots(prod(sinks))) if r in g.spawned]
    # not the tasks that set a connection up
    return [r for r in rs if not (g.reach([r]) & (set(rs) - {r}))]


def control_variants(prog):
    """Names of the variants of queued items that carry an acknowledgement rather than bytes."""
    out = set()
    for p, a in prog.adts.items():
        if a.get("local") and a["kind"] == "enum":
            for v in a["variants"]:
                if any("oneshot::Sender<" in f[1] for f in v[2]):
                    out.add(v[0])
    return out


def bare_bytes(t):
    """The value whose bytes t denotes."""
    t = V(t)
    n = 0
    while n < 20:
        n += 1
        if t.op in ("deref", "clone", "conv"):
            t = V(t.args[0])
        elif t.op == "fld" and t.args[3] in ("ptr", "0") and t.args[1] == "":
            t = V(t.args[0])
        else:
            break
    return t


class Wire(Rule):
    opaque = ("SoftClose::soft_close", "mnemonic::mnemonic")
    aut_live = True
    cancel_all = True
    max_wait = 5000

    def __init__(self, ctx, what, variant="default"):
        super().__init__(ctx, variant)
        self.what = what
        self.ctl = control_variants(self.prog)
        self.n = {}

    def count(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def req(self, prop, rule, good, where, msg, key=None):
        if prop == self.what:
            self.ctx.ob(rule, good, where, msg, key)

    def ops(self, st):
        return [m for m in st.aut or () if m[0] == "op"]

    def add(self, st, *m):
        st.aut = (st.aut or ()) + (m,)

    def get(self, st, name):
        return next((m for m in st.aut or () if m[0] == name), None)

    def good(self, st, t):
        return variant_of(st, t) == {"Ok"}

    def on_elapsed(self, eng, st, fut, frame, block):
        inner = V(fut.args[1])
        if inner.op == "cor" or stream_op(inner):
            self.add(st, "cut")

    def wait(self, eng, fut, where, idle=False):
        if idle:
            return
        d = unelapsed(eng)
        self.req("C22", "stream-waits-are-bounded", d is not None and 0 < d <= self.max_wait, where, "a wait on the stream is " + ("not bounded by a deadline" if d is None else f"bounded by {d} ms only"))


class Writer(Wire):
    """The task that takes queued items and writes them."""

    def kind(self, st, fut):
        for k, f in st.facts.items():
            if f[0] == "V":
                c, vs = okval(k)
                if c is fut and vs == ["Ok"]:
                    return f[1]
        return None

    def finish(self, st, where):
        """The item that was taken has been dealt with."""
        it = self.get(st, "item")
        if it is None:
            return
        k = self.kind(st, it[1])
        ops = self.ops(st)
        if k and k <= self.ctl:
            self.count("control")
            self.req("C23", "soft-close-is-acknowledged", any(m[1] == "ack" for m in ops), where, "a soft close is not acknowledged before the next message is taken")
        else:
            self.count("frame")
            kinds = [m[1] for m in ops]
            fine = "head" in kinds and "body" in kinds
            self.req("C23", "every-message-is-written", fine, where, "the next message is taken although the last one was not written")
            self.req("C20", "length-then-bytes", "head" not in kinds or "body" in kinds, where, "the next message is taken although only the length of the last one was written")
            self.req("C20", "a-failed-write-ends-the-stream", not self.get(st, "cut") and (not fine or all(self.good(st, m[2]) for m in ops if m[1] in ("head", "body"))), where, "the next message is taken although writing the last one may have failed")
            fl = [m for m in ops if m[1] == "flush"]
            self.req("C22", "frames-are-flushed", not fine or fl and all(self.good(st, m[2]) for m in fl), where, "the next message is taken although the last one may not have been flushed")

    def message_len(self, st, t, item):
        t = V(t)
        return t.op == "len" and self.is_body(t.args[0], item)

    def is_body(self, t, item):
        t = bare_bytes(t)
        n = 0
        while t.op in ("mod", "upd") and n < 5:
            t, n = bare_bytes(t.args[0]), n + 1
        c, vs = okval(t)
        if c is item and vs == ["Ok"]:
            return True
        if t.op == "fld" and t.args[1] and t.args[1] not in self.ctl:
            c, vs = okval(t.args[0])
            return c is item and vs == ["Ok"]
        return False

    def on_await(self, eng, st, fut, frame, block):
        where = site(frame, block)
        if is_call(fut, *TAKE):
            self.count("take")
            st.aut = (("item", fut),)
            return
        if is_call(fut, "SoftClose::soft_close"):
            self.add(st, "op", "soft", fut)
            return
        so = stream_op(fut)
        if not so or so[0] != "w":
            self.req("C22", "nothing-else-holds-up-the-stream", fut.op in ("guard",), where, "the writing task waits for something else: " + show(fut)[:120])
            return
        self.wait(eng, fut, where)
        it = self.get(st, "item")
        ops = self.ops(st)
        self.req("C20", "a-failed-write-ends-the-stream", not self.get(st, "cut") and all(self.good(st, m[2]) for m in ops if m[1] != "ack" and m[1] != "soft"), where, "the stream is written to although an earlier write may have failed")
        kinds = [m[1] for m in ops if m[1] in ("head", "body")]
        op = so[1]
        a = fut.args[1]
        item = it[1] if it else None
        if op == "write_u32":
            fine = kinds == [] and item is not None and self.message_len(st, a[1], item)
            self.req("C20", "length-then-bytes", fine, where, "what is written is not the number of bytes of the message that follows: " + show(V(a[1]))[:160])
            self.add(st, "op", "head", fut)
        elif op == "write_all":
            parts = self.parts(st, a[1])
            for p in parts:
                k = "head" if p[0] == "len" else "body" if p[0] == "body" else "?"
                self.req("C20", "length-then-bytes", kinds == ([] if k == "head" else ["head"]) and k != "?", where, "what is written is not exactly the message's length and then its bytes: " + show(V(a[1]))[:160])
                kinds.append(k)
                self.add(st, "op", k, fut)
        elif op == "flush":
            self.add(st, "op", "flush", fut)
        else:
            self.req("C20", "length-then-bytes", False, where, "an operation that is not part of a frame: " + op)

    def parts(self, st, t):
        it = self.get(st, "item")
        if it is None:
            return [("?",)]
        b = bare_bytes(t)
        if b.op == "bseq":
            return [x for p in b.args[0] for x in self.parts(st, p)]
        if b.op in ("pure", "call") and re.search(r"u32>?::to_be_bytes$", b.args[0]) and self.message_len(st, b.args[1][0], it[1]):
            return [("len",)]
        return [("body",) if self.is_body(t, it[1]) else ("?",)]

    def on_call(self, eng, c):
        if c.matches(*TAKE):
            self.finish(c.st, c.where())
            c.st.aut = ()
        elif c.matches("oneshot::Sender::send"):
            ops = self.ops(c.st)
            self.req("C23", "soft-close-after-everything", any(m[1] == "soft" for m in ops), c.where(), "a soft close is acknowledged before the stream was closed")
            self.add(c.st, "op", "ack", UNIT)
        elif c.matches("async_channel::Receiver::close"):
            self.add(c.st, "closed")
        elif c.matches("async_channel::Receiver::try_recv"):
            self.add(c.st, "drain", T("call", c.path, (), (c.frame.id, c.block)))
        elif c.matches("Vec::extend_from_slice", "BufMut::put_slice", "BufMut::put_u32") and "u8" in c.argtys[0]:
            v = eng.strip_ptr(c.st, c.args[0])
            if v.op == "bseq" or v.op == "lcoll" and not v.args[1]:
                new = T("bseq", (v.args[0] if v.op == "bseq" else ()) + (eng.strip_ptr(c.st, c.args[1]),))
                eng.write_ptr(c.st, c.args[0], new, c.frame, c.block)
                return [(UNIT, c.st)]
        return None


class Reader(Wire):
    """The task that reads frames and queues them for the receiver."""

    def head(self, st):
        m = self.get(st, "head")
        return m[1] if m else None

    def is_size(self, t, h):
        if h is None:
            return False
        c, vs = okval(t)
        if c is h and vs == ["Ok"] and h.args[0].endswith("::read_u32"):
            return True
        # four bytes read into an array of four
        t = V(t)
        if t.op in ("pure", "call") and re.search(r"u32>?::from_be_bytes$", t.args[0]):
            b = V(t.args[1][0])
            return b.op == "upd" and self.is_header(b.args[0]) and b.args[1] == h.args[-1] and h.args[0].endswith("::read_exact")
        return False

    def is_header(self, t):
        t = bare_bytes(t)
        while t.op in ("mod", "upd"):
            t = bare_bytes(t.args[0])
        return t.op == "repeat" and t.args[1] is mkint(4) or t.op == "arr" and len(t.args[0]) == 4

    def on_await(self, eng, st, fut, frame, block):
        where = site(frame, block)
        so = stream_op(fut)
        if so and so[0] == "r":
            op = so[1]
            a = fut.args[1]
            if op == "read_u32" or op == "read_exact" and self.is_header(a[1]):
                self.count("head")
                st.aut = (("head", fut),)
                return
            self.wait(eng, fut, where)
            h = self.head(st)
            self.req("C20", "a-failed-read-ends-the-stream", h is not None and self.good(st, h), where, "a body is read although its length was not")
            if op == "read_exact":
                buf = self.buffer(a[1])
                n = buf.args[1][1] if buf.op in ("call", "pure") and len(buf.args[1]) > 1 else None
                self.req("C20", "exactly-the-announced-bytes", n is not None and self.is_size(n, h) and self.get(st, "body") is None, where, "what is read is not a buffer of exactly the announced length")
                self.add(st, "body", fut, buf)
                self.count("body")
            else:
                self.req("C20", "exactly-the-announced-bytes", False, where, "a read that may return fewer or more bytes than were announced: " + op)
            return
        if is_call(fut, *PUT):
            b = self.get(st, "body")
            v = V(fut.args[1][1])
            fine = b is not None and self.good(st, b[1]) and any(x is b[2] for x in walk(v)) and self.whole(v, b[2])
            self.req("C20", "what-was-read-is-delivered", fine, where, "what is handed on is not exactly the frame that was read")
            self.req("C23", "every-frame-is-delivered", self.get(st, "sent") is None, where, "a frame is delivered twice")
            h = self.head(st)
            need = self.pool(st)
            if need is not False:
                p = [m for m in st.aut or () if m[0] == "permit"]
                fine = any(self.good(st, m[1]) and any(okval(x)[0] is m[1] for x in walk(v)) for m in p)
                self.req("C21", "permit-travels-with-the-bytes", need is None and not p or fine, where, "a message is handed on without the permit for its memory")
            self.add(st, "sent", fut)
            self.count("sent")
            return
        if is_call(fut, *ACQUIRE):
            n = fut.args[1][1] if len(fut.args[1]) > 1 else None
            h = self.head(st)
            self.req("C21", "permit-for-the-announced-size", n is not None and self.is_size(n, h), where, "the memory that is reserved is not the announced length of the message")
            self.req("C21", "limit-before-memory", h is not None and self.limited(st, h), where, "memory is reserved before the announced length was checked")
            self.add(st, "permit", fut)
            self.count("permit")
            return
        self.req("C22", "nothing-else-holds-up-the-stream", fut.op in ("guard",), where, "the reading task waits for something else: " + show(fut)[:120])

    def buffer(self, t):
        t = bare_bytes(t)
        n = 0
        while t.op in ("mod", "upd") and n < 8:
            t, n = bare_bytes(t.args[0]), n + 1
        return t

    def whole(self, v, buf):
        """Is the buffer itself handed on, not a part of it?"""
        v = V(v)
        if self.buffer(v) is buf:
            return True
        if v.op == "agg":
            return any(self.whole(x, buf) for x in v.args[3])
        return False

    def limited(self, st, h):
        for k, f in st.facts.items():
            if f[0] == "I" and self.is_size(k, h):
                return f[2] == LIMIT
        return False

    def pool(self, st):
        """Is there a memory pool on this path? None: not known."""
        for k, f in st.facts.items():
            if f[0] == "V" and k.op == "fld" and "limiter" in show(k) and "pool" in str(k.args[3]):
                return "Some" in f[1]
        return None

    def on_call(self, eng, c):
        if "::" + REXT + "read_" in c.decl and (c.decl.endswith("::read_u32") or c.decl.endswith("::read_exact") and self.is_header(eng.strip_ptr(c.st, c.args[1]))):
            h = self.head(c.st)
            s = self.get(c.st, "sent")
            self.req("C20", "a-failed-read-ends-the-stream", not self.get(c.st, "cut"), c.where(), "the next frame is read although reading the last one was given up")
            self.req("C23", "every-frame-is-delivered", h is None or s is not None and self.good(c.st, s[1]), c.where(), "the next frame is read although the last one was not delivered")
            c.st.aut = ()
        elif c.matches(*GROW):
            h = self.head(c.st)
            if h is not None and any(any(self.is_size(x, h) for x in walk(V(eng.strip_ptr(c.st, a)))) for a in c.args):
                self.count("buffer")
                self.req("C20", "limit-before-memory", self.limited(c.st, h), c.where(), "a buffer is made before the announced length was compared with the limit on messages")
                if self.what == "C21":
                    need = self.pool(c.st)
                    p = [m for m in c.st.aut or () if m[0] == "permit"]
                    self.req("C21", "permit-before-memory", need is False or any(self.good(c.st, m[1]) for m in p), c.where(), "a buffer is made before its memory was reserved")
        return None


class Ends(Rule):
    """Values at the ends of a connection: what its functions put in and take out."""

    opaque = ("mnemonic::mnemonic",)
    aut_live = True

    def __init__(self, ctx, variant="default", opaque=()):
        super().__init__(ctx, variant)
        self.opaque = Ends.opaque + tuple(opaque)
        self.spawns = []

    def on_await(self, eng, st, fut, frame, block):
        st.aut = (st.aut or ()) + (("await", fut),)

    def on_spawn(self, eng, st, fut, frame, block):
        st.aut = (st.aut or ()) + (("spawn", fut),)

    def on_call(self, eng, c):
        if c.matches("async_channel::Receiver::try_recv", "async_channel::Receiver::recv_blocking", "async_channel::Sender::try_send", "async_channel::Sender::force_send", "async_channel::Sender::send_blocking"):
            c.st.aut = (c.st.aut or ()) + (("direct", c.path.rsplit("::", 1)[1]),)
        return None


def parts_of(t):
    """Everything a value contains, through the tasks it was made from as well."""
    return list(walk(t))


def channel_end(t):
    """(channel, which end)"""
    t = V(t)
    if t.op == "fld" and V(t.args[0]).op == "call" and V(t.args[0]).args[0].endswith(("async_channel::bounded", "async_channel::unbounded")):
        return V(t.args[0]), t.args[2]
    return None


def ends_in(t):
    out = set()
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        e = channel_end(x)
        if e:
            out.add(e)
            continue
        for a in x.args:
            if isinstance(a, T):
                stack.append(a)
            elif isinstance(a, (tuple, frozenset)):
                stack.extend(a)
    return out


def make_bodies(g):
    """Functions that start the tasks of a connection."""
    ws, rs = stream_tasks(g, "w"), stream_tasks(g, "r")
    return sorted({b.path for r in ws + rs for b, _ in g.spawned[r]}), ws, rs


def structure(ctx, what, g):
    makers, ws, rs = make_bodies(g)
    for m in makers:
        ck = Ends(ctx)
        outs = ctx.run(m, ck)
        where = m
        ctx.need(outs, "the ends of a connection")
        for v, st in outs:
            sp = [x[1] for x in st.aut or () if x[0] == "spawn"]
            w = [f for f in sp if f.op == "cor" and f.args[0] in ws]
            r = [f for f in sp if f.op == "cor" and f.args[0] in rs]
            conn = V(v)
            if conn.op == "agg" and conn.args[0] == RESULT:
                conn = V(conn.args[3][0])
            mine = ends_in(T("tup", tuple(x for x in leaves(conn) if not spawned_handle(x))))
            if what == "C23":
                ctx.ob("one-writer-one-reader", len(w) == 1 and len(r) == 1 and w[0] is not r[0], where, "a connection is not served by exactly one task that writes and one that reads")
            if len(w) != 1 or len(r) != 1:
                continue
            we, re_ = ends_in(T("tup", w[0].args[1])), ends_in(T("tup", r[0].args[1]))
            # the writer takes from the channel the connection puts into, the reader puts where the connection takes from
            out_ok = any((c, 1) in we and (c, 0) in mine for c, _ in we)
            in_ok = any((c, 0) in re_ and (c, 1) in mine for c, _ in re_)
            if what == "C23":
                ctx.ob("queues-are-joined-up", out_ok and in_ok and not any((c, i) in re_ for c, i in we), where, "the connection's queues are not joined to its writing and reading task")
            if what == "C22":
                # the reader's end is its own: when it ends, receivers are told
                own = [c for c, i in re_ if i == 0]
                ctx.ob("reader-owns-its-end", all((c, 0) not in mine and (c, 0) not in we for c in own), where, "receivers do not learn that the reading task has ended: somebody else holds its end of the queue")
                ctx.ob("writer-owns-its-end", all((c, 1) not in mine for c, i in we if i == 1), where, "senders do not learn that the writing task has ended: somebody else holds its end of the queue")
                hs = [x for x in walk(conn) if x.op == "call" and x.args[0].endswith("tokio::spawn")]
                ctx.ob("tasks-are-owned", all(any(h.args[1][0] is f for h in hs) for f in (w[0], r[0])), where, "a connection does not hold the handle of each of its tasks")
            if what == "C21":
                ctx.ob("reader-has-the-limiter", any(x.op == "param" and "Limiter" in str(x.args[1]) for x in walk(T("tup", r[0].args[1]))), where, "the reading task does not get the limiter of the connection")


def leaves(t):
    t = V(t)
    if t.op == "agg":
        return [y for x in t.args[3] for y in leaves(x)]
    if t.op in ("tup", "arr"):
        return [y for x in t.args[0] for y in leaves(x)]
    return [t]


def spawned_handle(t):
    return any(x.op == "call" and x.args[0].endswith("tokio::spawn") for x in walk(t))


WT = T("wit", "task")


class Dropped(Rule):
    """What happens to a connection's tasks when its last handle goes away."""

    opaque = ("mnemonic::mnemonic",)
    witness = True
    anonymous = True
    aut_live = True

    def wit_in(self, eng, st, coll):
        r, fs = fields(coll)
        return bool(fs) and bool(re.search(r"param|deref", r.op)) or None

    def wit_single(self, eng, st, coll):
        return True

    def wit_of(self, eng, st, coll):
        return WT

    def on_call(self, eng, c):
        if c.matches("AbortHandle::abort", "JoinHandle::abort"):
            v = V(eng.strip_ptr(c.st, c.args[0]))
            if any(x is WT for x in walk(v)):
                c.st.aut = (c.st.aut or ()) + (("abort",),)
            return [(UNIT, c.st)]
        return None


def teardown(ctx, g):
    prog = g.prog
    holders = sorted(p for p, a in prog.adts.items() if a.get("local") and a.get("drop") and any("AbortHandle" in f[1] or "JoinHandle" in f[1] for v in a["variants"] for f in v[2]))
    conn = [p for p in holders if "connection::protocols::" in p and p.rsplit("::", 1)[0].endswith("protocols")]
    ctx.need(conn, "the type that owns a connection's tasks")
    for p in conn:
        d = prog.adts[p]["drop"]
        many = any("Vec<" in f[1] and "AbortHandle" in f[1] for v in prog.adts[p]["variants"] for f in v[2])
        if d not in prog.bodies:
            d = next((b for b in prog.bodies if b.startswith(f"<{p} as ") and b.endswith("Drop>::drop")), d)
        outs = ctx.run(d, Dropped(ctx))
        for v, st in outs:
            ctx.ob("dropping-stops-the-tasks", ("abort",) in (st.aut or ()), d, "a connection that is dropped does not stop its tasks")
    # nothing else may stop the drop from happening
    for p in prog.bodies:
        pass


def end_of_writer(ctx, g, outs, root):
    for v, st in outs:
        closed = any(m[0] == "closed" for m in st.aut or ())
        order = [m[0] for m in st.aut or () if m[0] in ("closed", "drain")]
        errs = [k for k, f in st.facts.items() if is_call(k, "Receiver::try_recv") and f[0] == "V" and f[1] == {"Err"}]
        fine = closed and errs and "drain" in order and order.index("closed") < len(order) - 1 - order[::-1].index("drain")
        ctx.ob("queue-is-emptied-at-the-end", bool(fine), root, "a task that stops writing leaves what is queued in place: a soft close that is queued then waits for ever")


def api(ctx, g):
    """send_message_raw, recv_message_raw, soft_close."""
    for name in ("Connection::send_message_raw", "Connection::recv_message_raw", "Connection::soft_close", "Connection::send_message", "Connection::recv_message"):
        ps = [p for p in g.prog.bodies if path_is(p, name) and "::tests::" not in p]
        ctx.need(ps, name)
        for p in ps:
            ck = Ends(ctx, opaque=CODEC)
            for v, st in ctx.run(p, ck):
                aw = [x[1] for x in st.aut or () if x[0] == "await"]
                puts = [a for a in aw if is_call(a, *PUT)]
                takes = [a for a in aw if is_call(a, *TAKE)]
                past = [x for x in st.aut or () if x[0] == "direct"]
                ctx.ob("received-as-delivered" if "recv" in name else "sent-once", not past, p, "a queue of the connection is changed in passing")
                v = V(v)
                okret = v.op == "agg" and v.args[1] == "Ok" or v.op == "call"
                if "send" in name and okret:
                    ctx.ob("sent-once", len(puts) == 1 and variant_of(st, puts[0]) == {"Ok"}, p, "sending succeeds without the message having been queued exactly once")
                    for q in puts:
                        x = T("tup", (q.args[1][1],))
                        if name.endswith("_raw"):
                            fine = any(y.op == "param" and "Allocation" in str(y.args[1]) for y in pay(q.args[1][1]))
                        else:
                            fine = any(is_call(okval(y)[0], "Message::serialize") and okval(y)[1] == ["Ok"] and V(okval(y)[0].args[1][0]).op == "param" for y in pay(q.args[1][1]))
                        ctx.ob("sent-as-given", fine, p, "what is queued is not exactly the message that was given")
                elif "recv" in name and okret:
                    t, vs = okval(v.args[3][0]) if v.op == "agg" else (v, [])
                    if is_call(t, "Message::deserialize"):
                        t, vs = okval(bare_bytes(t.args[1][0]))
                    ctx.ob("received-as-delivered", is_call(t, *TAKE) and len(takes) == 1, p, "what is received is not exactly the next frame")
                elif "soft" in name and okret:
                    ws = [a for a in aw if a.op == "fld" and is_call(a.args[0], "oneshot::channel")]
                    fine = len(puts) == 1 and any(w.args[0] in parts_of(puts[0]) and variant_of(st, T("out", w)) == {"Ok"} for w in ws)
                    ctx.ob("soft-close-waits", fine and variant_of(st, puts[0]) == {"Ok"} if puts else False, p, "a soft close returns before it was acknowledged")


def pay(t):
    """The payload of a queued item, through wrappers."""
    out = []
    t = V(t)
    out.append(t)
    if t.op == "agg":
        for x in t.args[3]:
            out += pay(x)
    return out


def soft_closes(ctx, g, rule):
    n = 0
    for p in g.prog.bodies:
        if path_is(p, "SoftClose::soft_close") and "::tests::" not in p:
            ck = Bounded(ctx)
            ctx.run(p, ck)
            n += 1
    ctx.need(n, "soft closes of the transports")


class Bounded(Rule):
    opaque = ()

    def on_await(self, eng, st, fut, frame, block):
        d = unelapsed(eng)
        self.ctx.ob("stream-waits-are-bounded", fut.op == "guard" or d is not None and 0 < d <= 5000, site(frame, block), "closing a stream waits " + ("without a deadline" if d is None else f"for up to {d} ms"))


def detached(ctx, g):
    """Messages are sent from the tasks that decided to, in the order in which they did."""
    from .route import session_roots

    for r, k in session_roots(ctx, g):
        reach = g.reach([r])
        for t, sites in sorted(g.spawned.items()):
            if t in prod([t]) and any(b.path in reach for b, _ in sites):
                sends = [s for n in SEND for s in g.calls(n) if s[0].path in g.reach([t])]
                ctx.ob("sends-are-not-detached", not sends, t, "a session hands a message to a task of its own, which loses the order of messages")
        ctx.ob("sends-are-not-detached", True, r, "")


# ---------------------------------------------------------------- memory
def allocation(ctx, g):
    prog = g.prog
    al = [p for p, a in prog.adts.items() if p.endswith("pool::Allocation")]
    ctx.need(al, "the type of counted bytes")
    for p in al:
        a = prog.adts[p]
        pf = [f[0] for f in a["variants"][0][2] if "Permit" in f[1]]
        df = [f[0] for f in a["variants"][0][2] if f[0] not in pf]
        ctx.ob("permit-is-part-of-the-bytes", len(pf) == 1, p, "counted bytes do not hold their permit")
        ctx.ob("bytes-are-encapsulated", not any(f[2] for f in a["variants"][0][2]), p, "the parts of counted bytes can be taken apart from outside")
        if len(pf) != 1:
            continue
        mod = p.rsplit("::", 1)[0]
        for b in prod(sorted(prog.bodies)):
            body = prog.bodies[b]
            if mod not in b or body.kind == "Closure" or "Coroutine" in body.kind:
                continue
            ps = [body.locals[i][0] for i in range(1, body.argc + 1)]
            ret = body.locals[0][0]
            takes = any(mod + "::Allocation<" in x for x in ps)
            gives = mod + "::Allocation<" in ret and not ret.startswith("&")
            if ret.startswith("&") or ret in ("()", "bool") or not (takes or gives):
                continue
            for v, st in ctx.run(b, Ends(ctx)):
                inner = [x for x in walk(V(v)) if x.op == "fld" and str(x.args[3]) in df and roots_in_param(x)]
                perm = [x for x in walk(V(v)) if x.op == "fld" and str(x.args[3]) in pf and roots_in_param(x)]
                if takes:
                    ctx.ob("bytes-keep-their-permit", not inner or bool(perm), b, "the bytes of a message can outlive its permit")
                given = [T for T in param_terms(prog, body) if "Permit" in T.args[1]]
                for q in given:
                    none = variant_of(st, q) == {"None"}
                    ctx.ob("permit-goes-into-the-bytes", none or any(x is q or okval(x)[0] is q for x in walk(V(v))), b, "a permit that was given is not kept with the bytes")
    bad = ("Semaphore::add_permits", "Semaphore::forget_permits", "OwnedSemaphorePermit::forget", "SemaphorePermit::forget", "OwnedSemaphorePermit::split", "mem::forget", "ManuallyDrop::new", "Arc::into_raw", "Box::leak", "Vec::leak")
    for b, i, f, t in g.calls(*bad):
        if b.path in prod([b.path]) and "cdn_proto::connection" in b.path:
            ctx.ob("permits-are-given-back-once", False, b.path, "a permit for memory is leaked or given back without its bytes being gone")
    ctx.ob("permits-are-given-back-once", True, "cdn_proto::connection", "")


def param_terms(prog, body):
    return [T("param", body.names.get(i, str(i)), body.locals[i][0]) for i in range(1, body.argc + 1)]


def roots_in_param(x):
    r, fs = fields(x)
    while r.op in ("deref", "clone"):
        r, fs = fields(r.args[0])
    return r.op == "param"


class Flow(Rule):
    """Which limiter a connection gets."""

    events = ("Protocol::connect", "UnfinalizedConnection::finalize", "Connection::from_streams", "Limiter::new")

    def __init__(self, ctx, where, good, variant="default"):
        super().__init__(ctx, variant)
        self.k, self.ok = where, good
        self.n = 0

    def _inline(self, path):
        if any(path_is(path, x) for x in ("Protocol::connect", "UnfinalizedConnection::finalize", "Connection::from_streams", "Limiter::new", "Limiter::none", "Listener::accept")):
            return False
        return super()._inline(path)

    def on_call(self, eng, c):
        if c.matches(*self.k):
            for a, ty in zip(c.args, c.argtys):
                if "Limiter" in ty:
                    self.n += 1
                    v = V(eng.strip_ptr(c.st, a))
                    while v.op == "clone":
                        v = V(v.args[0])
                    self.ctx.ob("one-limiter-for-all", self.ok(v), c.where(), "a connection does not get the limiter that all connections share: " + show(v)[:120])
        return None


def limiters(ctx, g):
    servers = [r for r in roots_of(g, "Protocol::connect", "UnfinalizedConnection::finalize") if r.startswith(("cdn_broker::", "cdn_marshal::"))]
    ctx.need(len(servers) >= 4, "where the broker and the marshal set up connections")
    field = lambda v: v.op == "fld" and fields(v)[0].op == "param"
    n = 0
    for r in servers:
        ck = Flow(ctx, ("Protocol::connect", "UnfinalizedConnection::finalize"), lambda v: field(v) or v.op == "param")
        ctx.run(r, ck)
        n += ck.n
    ctx.need(n >= 4, "limiters of the connections")
    # the transports hand it on
    tr = [p for p in prod(g.prog.bodies) if path_is(p, "Protocol::connect") or path_is(p, "UnfinalizedConnection::finalize")]
    n = 0
    for p in tr:
        ck = Flow(ctx, ("Connection::from_streams",), lambda v: v.op == "param")
        ctx.run(p, ck)
        n += ck.n
    ctx.need(n >= 8, "the transports' connections")
    # and it is made from the configured size
    for p in prod(g.prog.bodies):
        if path_is(p, "Limiter::new"):
            for v, st in ctx.run(p, Ends(ctx)):
                q = next((x for x in walk(V(v)) if x.op == "call" and x.args[0].endswith(("Semaphore::const_new", "Semaphore::new"))), None)
                size = next((k for k, f in st.facts.items() if k.op == "param" and f[0] == "V" and "global" in str(k.args[0])), None)
                given = size is None or "Some" in st.facts[size][1]
                fine = q is not None and okval(q.args[1][0])[0] is size if given else q is None
                ctx.ob("pool-of-the-configured-size", fine, p, "the memory pool is not of the size that was asked for")
    for b, i, f, t in g.calls("Limiter::new"):
        if b.path.startswith(("cdn_broker::", "cdn_marshal::")) and b.path in prod([b.path]):
            roots = [b.path]
            for r in roots:
                ck = Made(ctx)
                ctx.run(r, ck)
                ctx.need(ck.n, "the shared limiter")


class Made(Rule):
    events = ("Limiter::new",)

    def __init__(self, ctx):
        super().__init__(ctx)
        self.n = 0

    def _inline(self, path):
        return False if path_is(path, "Limiter::new") else super()._inline(path)

    def on_call(self, eng, c):
        if c.matches("Limiter::new"):
            self.n += 1
            r, fs = fields(V(eng.strip_ptr(c.st, c.args[0])))
            self.ctx.ob("pool-of-the-configured-size", r.op == "param" and bool(fs) and "memory" in fs[-1][1], c.where(), "the limiter is not made with the configured size of the memory pool: " + show(c.args[0])[:100])
        return None


def tasks(ctx, what, g):
    out = []
    for k, R in (("w", Writer), ("r", Reader)):
        rs = stream_tasks(g, k)
        ctx.need(rs, "the task that " + ("writes" if k == "w" else "reads") + " a stream")
        for r in rs:
            ck = R(ctx, what)
            outs = ctx.run(r, ck)
            for x in ("take", "frame") if k == "w" else ("head", "body", "sent"):
                ctx.need(ck.n.get(x), "the frames of a stream: " + x)
            out.append((k, r, ck, outs))
    return out


@check("C20", "typestate over MIR of the tasks that serve a stream: what is written and read per message, symbolic lengths, the limit before the buffer")
def c20(ctx):
    g = ctx.graph()
    tasks(ctx, "C20", g)
    halves(ctx, g)


@check("C21", "typestate and value flow over MIR: a permit for exactly the announced size before the buffer exists, kept with every copy of the bytes; one limiter for all connections")
def c21(ctx):
    g = ctx.graph()
    for k, r, ck, outs in tasks(ctx, "C21", g):
        if k == "r":
            ctx.need(ck.n.get("permit"), "the reservation of memory")
            ctx.need(ck.n.get("buffer"), "the buffer of a message")
    structure(ctx, "C21", g)
    allocation(ctx, g)
    limiters(ctx, g)


@check("C22", "timeout-scope and ownership dataflow over MIR: deadlines around every stream operation, who holds the ends of the queues and the handles of the tasks")
def c22(ctx):
    g = ctx.graph()
    tasks(ctx, "C22", g)
    soft_closes(ctx, g, "C22")
    structure(ctx, "C22", g)
    teardown(ctx, g)


@check("C23", "typestate over MIR of the tasks that serve a stream and of the connection's functions: one message at a time, each exactly once, soft close after all of them")
def c23(ctx):
    g = ctx.graph()
    for k, r, ck, outs in tasks(ctx, "C23", g):
        if k == "w":
            end_of_writer(ctx, g, outs, r)
    structure(ctx, "C23", g)
    api(ctx, g)
    detached(ctx, g)


class Halves(Rule):
    """The two directions of a connection belong to one stream."""

    opaque = ()

    def __init__(self, ctx):
        super().__init__(ctx)
        self.n = 0

    def _inline(self, path):
        return False if path_is(path, "Connection::from_streams") else super()._inline(path)

    def on_call(self, eng, c):
        if c.matches("Connection::from_streams"):
            self.n += 1
            w, r = (V(eng.strip_ptr(c.st, a)) for a in c.args[:2])
            a, b = path_of(w), path_of(r)
            same = a[0] is b[0] and a[1] and b[1] and a[1] != b[1]
            if "::memory::" in c.frame.body.path:
                same = w is not r
            self.ctx.ob("both-directions-of-one-stream", bool(same), c.where(), "the two directions of a connection are not those of one stream: " + show(w)[:80] + " / " + show(r)[:80])
        return None


def path_of(t):
    """fields(), of a value that may have been used since it was made."""
    out = []
    t = V(t)
    while t.op in ("fld", "upd", "mod"):
        if t.op == "fld":
            out.append((t.args[1], str(t.args[3])))
        t = V(t.args[0])
    return t, out[::-1]


def halves(ctx, g):
    tr = [p for p in prod(g.prog.bodies) if path_is(p, "Protocol::connect") or path_is(p, "UnfinalizedConnection::finalize")]
    n = 0
    for p in tr:
        ck = Halves(ctx)
        ctx.run(p, ck)
        n += ck.n
    ctx.need(n >= 8, "the transports' streams")
