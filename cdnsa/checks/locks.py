"""Locks: what is held while something else is waited for."""
from . import check
from .common import Rule, prod, V
from ..ctx import site
from ..mir import head, targs
from ..models import guard_of, lock_place, LOCKS

BLOCKS = (
    "thread::sleep", "Handle::block_on", "Runtime::block_on", "executor::block_on", "block_in_place", "Thread::park", "thread::park", "thread::functions::park", "thread::functions::sleep",
    "mpsc::Receiver::recv", "Receiver::blocking_recv", "Sender::blocking_send", "RwLock::blocking_read", "RwLock::blocking_write", "Mutex::blocking_lock",
    "JoinHandle<T>::join", "std::thread::JoinHandle::join", "Condvar::wait", "Condvar::wait_for", "Barrier::wait", "Receiver::recv_timeout",
)


def bare(t):
    t = t.strip()
    while t.startswith("&"):
        t = t[1:].lstrip()
        if t.startswith("mut "):
            t = t[4:]
        if t.startswith("'"):
            t = t.split(" ", 1)[1]
    return t


def guarded(t):
    """The type of what a lock guards."""
    t = bare(t)
    while head(t).endswith(("::Arc", "::Box", "::Rc")) and targs(t):
        t = bare(targs(t)[0])
    a = targs(t)
    return a[-1] if a else t


class Locks(Rule):
    """Marks: ("held", guard, what it guards, blocks the thread)."""

    aut_live = True
    events = LOCKS

    def __init__(self, ctx, out, variant="default"):
        super().__init__(ctx, variant)
        self.cls = {}
        self.out = out

    def held(self, st):
        return [m for m in st.aut or () if m[0] == "held"]

    def on_call(self, eng, c):
        if c.path in LOCKS and c.argtys:
            self.cls[lock_place(eng, c.st, c.args[0])] = guarded(c.argtys[0])
        hs = self.held(c.st)
        if hs and c.matches(*BLOCKS):
            self.ctx.ob("not-held-while-waiting", False, c.where(), "a task blocks its thread while it holds a lock")
        return None

    def on_lock(self, eng, st, g, inner, frame, block):
        k = self.cls.get(g.args[1][0], "?")
        w = site(frame, block)
        good = True
        for m in self.held(st):
            if "::try_" in g.args[0]:
                continue
            if m[2] == k:
                good = False
            else:
                self.out["edges"].setdefault((m[2], k), w)
        self.ctx.ob("never-waits-for-itself", good, w, "a task waits for a lock that it holds already: " + short(k))
        self.out["n"] += 1
        sync = not g.args[0].startswith("tokio::") or "::blocking_" in g.args[0]
        st.aut = tuple(m for m in st.aut or () if m[0] != "held" or m[1] is not g) + (("held", g, k, sync),)

    def on_drop(self, eng, st, ty, val, frame, block):
        v = V(val)
        if v.op == "agg" and v.args[3] and v.args[1] in ("Ok", "Some"):
            v = V(v.args[3][0])
        g = guard_of(v) if "Guard<" in ty and "Coroutine" not in ty and "{closure" not in head(ty) else None
        if g is not None:
            st.aut = tuple(m for m in st.aut or () if m[0] != "held" or m[1] is not g)

    def on_await(self, eng, st, fut, frame, block):
        hs = [m for m in self.held(st) if m[3]]
        self.out["waits"] += 1
        self.ctx.ob("not-held-while-waiting", not hs, site(frame, block), "a task waits while it holds a lock for which others block their threads: " + ", ".join(sorted({short(m[2]) for m in hs})))


def short(k):
    return head(k).split("::")[-1] + ("<" + ", ".join(short(x) for x in targs(k)) + ">" if targs(k) else "")


@check("C30", "typestate dataflow over MIR: which locks every path holds where it acquires one or waits; the order of acquisition between locks has no cycle")
def c30(ctx):
    g = ctx.graph()
    sinks = prod({b.path for b, _, _, _ in g.calls(*LOCKS)})
    out = {"edges": {}, "n": 0, "waits": 0}
    roots = prod(g.roots(sinks))
    for r in sorted(roots):
        ctx.run(r, Locks(ctx, out))
    ctx.need(out["n"] > 0, "locks")
    nxt = {}
    for a, b in out["edges"]:
        nxt.setdefault(a, set()).add(b)
    for (a, b), w in sorted(out["edges"].items()):
        seen, work = set(), [b]
        while work:
            x = work.pop()
            if x not in seen:
                seen.add(x)
                work += nxt.get(x, ())
        ctx.ob("one-order", a not in seen, w, f"the locks of {short(a)} and {short(b)} are acquired in both orders: two tasks can wait for each other")
    ctx.notes.append("orders: " + "; ".join(f"{short(a)} before {short(b)}" for a, b in sorted(out["edges"])))
