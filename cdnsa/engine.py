"""Path-sensitive typestate dataflow over MIR (property simulation in the style of ESP).

Abstract states are (memory of provenance terms, branch facts over a finite domain, property automaton).  States
that reach the same block are deduplicated after dead locals and dead facts are dropped; loops run to a fixpoint.
Workspace callees, closures and awaited async bodies are analysed in the caller's context (virtual inlining);
everything else is an opaque call whose result is a fresh provenance term.  No solver, no execution.
"""
import re
import sys

from .terms import *
from .mir import head, targs

sys.setrecursionlimit(20000)


class Budget(Exception):
    pass


class State:
    __slots__ = ("mem", "facts", "rel", "heap", "aut", "trace")

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.rel = {}
        self.heap = {}
        self.aut = None
        self.trace = None

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.rel = dict(self.rel)
        s.heap = dict(self.heap)
        s.aut = self.aut
        s.trace = self.trace
        return s

    def key(self):
        return (
            frozenset(self.mem.items()),
            frozenset(self.facts.items()),
            frozenset(self.rel.items()),
            frozenset(self.heap.items()),
            self.aut,
        )

    def note(self, text):
        self.trace = (text, self.trace)

    def path(self, n=14):
        out, t = [], self.trace
        while t and len(out) < n:
            out.append(t[0])
            t = t[1]
        return out[::-1]


class Frame:
    __slots__ = ("id", "body", "parent", "block", "depth", "tag")

    def chain(self):
        f, out = self, []
        while f:
            out.append(f.body.path)
            f = f.parent
        return out[::-1]


class Call:
    """A call event."""

    __slots__ = ("path", "decl", "fn", "args", "argtys", "destty", "frame", "block", "span", "st", "self_ty")

    def where(self):
        b = self.frame.body
        return f"{shortfile(self.span[0])}:{self.span[1]} in {b.path}"

    def in_macro(self, prefix):
        return len(self.span) > 2 and any(x.startswith(prefix) for x in self.span[2])

    def matches(self, *names):
        return any(path_is(self.path, n) or path_is(self.decl, n) for n in names)


def shortfile(f):
    i = f.find("/ws/")
    return f[i + 4 :] if i >= 0 else f


def path_is(path, name):
    """True when path ends with the name at a segment boundary; '<T as Tr>::m' also matches 'Tr::m'."""
    if path == name:
        return True
    if path.endswith("::" + name):
        return True
    if path.startswith("<") and "::" in name:
        # <Self as Trait<..>>::method
        i = path.rfind(">::")
        if i > 0:
            inner = path[1:i]
            j = inner.find(" as ")
            if j > 0:
                tr = inner[j + 4 :].split("<")[0]
                full = tr + path[i + 1 :]
                if full == name or full.endswith("::" + name):
                    return True
                full = inner[:j].split("<")[0] + path[i + 1 :]
                if full == name or full.endswith("::" + name):
                    return True
    return False


class Checker:
    """Base of the property automata."""

    max_depth = 14
    loop_marks = False
    aut_live = False  # what a path's marks mention counts as alive
    cancel_all = False

    def keep(self, term):
        return False

    def inline(self, path, frame):
        return True

    def on_call(self, eng, call):
        return None

    def on_await(self, eng, st, fut, frame, block):
        return None

    def on_drop(self, eng, st, ty, val, frame, block):
        return None

    def on_store(self, eng, st, place, val, frame, block):
        return None

    def on_assert(self, eng, st, kind, cond, frame, block):
        return None

    def on_assume(self, eng, st, term, val, frame, block):
        return None

    def on_spawn(self, eng, st, fut, frame, block):
        return None

    def enter_spawned(self, path):
        """Is a task analysed where it is spawned, with what it was given?"""
        return False

    def on_task_end(self, eng, st, fut, val, frame, block):
        return None

    def on_bin(self, eng, st, op, a, b, frame, block):
        return None

    def on_panic(self, eng, st, kind, call):
        return None

    # following one arbitrary element ("witness") through collections; see models.wit_next
    witness = False
    tabs = False  # maps and sets are followed as values: the entry of the witness, and whether there are others
    anonymous = False  # elements that are not the witness are not told apart

    def marked(self, st, m):
        return (m,) in (st.aut or ())

    def mark(self, st, m):
        if not self.marked(st, m):
            st.aut = (st.aut or ()) + ((m,),)

    def unmark(self, st, m):
        st.aut = tuple(x for x in st.aut or () if x != (m,))

    def wit_in(self, eng, st, coll):
        """Does a collection of the program's state hold the witness?"""
        return False

    def wit_single(self, eng, st, coll):
        """At most once?"""
        return False

    def wit_of(self, eng, st, coll):
        return T("wit", "")

    def on_next(self, eng, st, it, item, frame, block):
        """An element is taken from an iterator (None: it is exhausted)."""
        return None

    def on_timeout(self, eng, st, fut, frame, block):
        return None

    def on_lock(self, eng, st, guard, inner, frame, block):
        """A lock was acquired; inner is the place it guards."""
        return None

    def on_elapsed(self, eng, st, fut, frame, block):
        """The deadline of a timeout passed; what it guarded was dropped half done."""
        return None

    def on_loop(self, eng, st, frame, loop, head):
        """A loop is about to start another round; the facts of this round are still there."""
        return None


def norm_bool(t):
    """(atom, polarity)"""
    pol = True
    while t.op == "not":
        t = t.args[0]
        pol = not pol
    return t, pol


def mknot(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.args[0]
    return T("not", t)


INF = 1 << 130


class Engine:
    def __init__(self, prog, checker, models=None, budget=400000):
        from . import models as M

        self.prog = prog
        self.ck = checker
        self.models = M.TABLE
        self.prefix_models = M.PREFIX
        self.lookup_extra = M.lookup_extra
        self.table_call = M.table_call
        self.frames = {}
        self.framelist = []
        self.steps = 0
        self.budget = budget
        self.tmo = []  # enclosing timeouts
        self.tasks = 0  # how deep in tasks that are analysed where they are spawned
        self.cancel = []  # snapshots for cancellation
        self.stats = {"blocks": 0, "bodies": set(), "calls": 0, "opaque": set(), "inlined": 0, "states": 0, "widened": 0}
        self._livecache = {}
        self.stack = []

    # ---- frames
    def frame(self, body, parent, block, tag=""):
        k = (parent.id if parent else -1, block, body.path, tag)
        f = self.frames.get(k)
        if f is None:
            f = Frame()
            f.id = len(self.framelist)
            f.body, f.parent, f.block, f.tag = body, parent, block, tag
            f.depth = parent.depth + 1 if parent else 0
            self.frames[k] = f
            self.framelist.append(f)
        return f

    # ---- memory
    def field_of(self, v, idx, name=None, variant=None, adt=None):
        op = v.op
        if op == "agg":
            fs = v.args[3]
            return fs[idx] if idx < len(fs) else TOP
        if op in ("tup", "arr"):
            return v.args[0][idx] if idx < len(v.args[0]) else TOP
        if op in ("clo", "cor"):
            return v.args[1][idx] if idx < len(v.args[1]) else TOP
        if op in ("top", "moved", "wide"):
            return TOP if op != "wide" else T("fld", v, variant or "", idx, name if name is not None else idx)
        return T("fld", v, variant or "", idx, name if name is not None else idx)

    def proj1(self, st, v, e):
        k = e[0]
        op = v.op
        if op == "mod" and k != "*":
            # (base, key, val): a partially overwritten value
            base, key, val = v.args
            if key[0] == e:
                return val if len(key) == 1 else T("mod", self.proj1(st, base, e), key[1:], val)
            return self.proj1(st, base, e)
        if k == "*":
            if op == "ref":
                return self.load(st, v.args[0], v.args[1])
            if op == "addr":
                t = v.args[0]
                return self.H(st, t) if st.heap else t
            if op == "agg" and v.args[0].endswith("::Box"):
                return v.args[3][0]
            if op in ("top", "moved"):
                return TOP
            t = T("deref", v)
            return self.H(st, t) if st.heap else t
        if k == "v":
            if op == "agg" or op == "as":
                return v
            return T("as", v, e[2])
        if k == "f":
            variant = None
            if op == "as":
                variant = v.args[1]
                v = v.args[0]
            t = self.field_of(v, e[1], e[2] if len(e) > 2 else e[1], variant)
            if t.op == "fld" and st.heap:
                return self.H(st, t)
            return t
        if k == "c":
            if op == "arr" and not e[2] and e[1] < len(v.args[0]):
                return v.args[0][e[1]]
            return T("elem", v, mkint(e[1]))
        if k == "i":
            if op == "arr" and e[1].op == "int" and 0 <= e[1].args[0] < len(v.args[0]):
                return v.args[0][e[1].args[0]]
            return T("elem", v, e[1])
        if k == "m":
            return v.args[2] if op == "tab" and v.args[2] is not None else TOP
        if k == "s":
            return T("slice", v, mkint(e[1]), mkint(e[2]))
        return T("proj", v, str(e))

    def load(self, st, root, proj):
        v = st.mem.get(root)
        if v is None:
            v = T("uninit", root) if False else TOP
        for e in proj:
            v = self.proj1(st, v, e)
        return v

    def setp(self, st, v, proj, new):
        """v with the sub-value at proj replaced."""
        if not proj:
            return new
        e = proj[0]
        k = e[0]
        if k == "v":
            if v.op == "agg":
                return self.setp(st, v, proj[1:], new)
            inner = proj[1] if len(proj) > 1 else None
            return self.mod(v, proj, new)
        if k == "f":
            if v.op == "agg":
                fs = list(v.args[3])
                if e[1] < len(fs):
                    fs[e[1]] = self.setp(st, fs[e[1]], proj[1:], new)
                    return T("agg", v.args[0], v.args[1], v.args[2], tuple(fs))
            elif v.op == "tup":
                fs = list(v.args[0])
                if e[1] < len(fs):
                    fs[e[1]] = self.setp(st, fs[e[1]], proj[1:], new)
                    return T("tup", tuple(fs))
            elif v.op in ("clo", "cor"):
                fs = list(v.args[1])
                if e[1] < len(fs):
                    fs[e[1]] = self.setp(st, fs[e[1]], proj[1:], new)
                    return T(v.op, v.args[0], tuple(fs))
        if k == "*":
            return v  # handled by store
        if k == "m":
            # the followed entry of a table
            return T("tab", v.args[0], v.args[1], self.setp(st, v.args[2], proj[1:], new), v.args[3]) if v.op == "tab" and v.args[1] is not None else v
        return self.mod(v, proj, new)

    def mod(self, v, proj, new):
        # normalise: one override per key
        if v.op == "mod" and v.args[1] == tuple(proj):
            v = v.args[0]
        if v.op in ("top", "moved"):
            return v
        return T("mod", v, tuple(proj), new)

    def pe(self, st, frame, e):
        if e == "*":
            return ("*",)
        if e[0] == "f":
            return ("f", e[1], e[2] if len(e) > 2 else e[1], e[3] if len(e) > 3 else "")
        if e[0] == "v":
            return ("v", e[1], e[2])
        if e[0] == "i":
            return ("i", self.load(st, (frame.id, e[1]), ()))
        if e[0] == "c":
            return ("c", e[1], e[2])
        if e[0] == "s":
            return ("s", e[1], e[2], e[3])
        return ("o",)

    def locate(self, st, frame, place):
        """('mem', root, proj) | ('val', term): the place, following references."""
        root = (frame.id, place[0])
        proj = []
        val = None  # opaque place term once we left memory
        for e in place[1:]:
            if val is None:
                if e == "*":
                    v = self.load(st, root, tuple(proj))
                    if v.op == "ref":
                        root, proj = v.args[0], list(v.args[1])
                    elif v.op == "agg" and v.args[0].endswith("::Box"):
                        proj.append(("f", 0, "0", ""))
                    elif v.op == "addr":
                        val = v.args[0]
                    else:
                        val = T("deref", v)
                else:
                    proj.append(self.pe(st, frame, e))
            else:
                if e == "*":
                    v = self.H(st, val)
                    if v.op == "ref":
                        root, proj, val = v.args[0], list(v.args[1]), None
                    elif v.op == "addr":
                        val = v.args[0]
                    elif v.op == "agg" and v.args[0].endswith("::Box"):
                        val = v.args[3][0]
                    else:
                        val = T("deref", v)
                else:
                    v = self.H(st, val)
                    e = self.pe(st, frame, e)
                    if v.op in ("agg", "tup") and v is not val and e[0] in ("f", "v"):
                        # part of a value that was stored here
                        val = self.place1(st, val, e)
                    else:
                        val = self.place1(st, v, e)
        if val is None:
            return ("mem", root, tuple(proj))
        return ("val", val)

    def place1(self, st, v, e):
        """Sub-place term without reading heap overrides of the result."""
        k = e[0]
        if k == "f":
            variant = None
            if v.op == "as":
                variant = v.args[1]
                v = v.args[0]
            if v.op == "mod":
                return self.proj1(st, v, e)
            return self.field_of(v, e[1], e[2], variant)
        return self.proj1(st, v, e)

    def read(self, st, frame, place):
        loc = self.locate(st, frame, place)
        if loc[0] == "mem":
            return self.load(st, loc[1], loc[2])
        return self.H(st, loc[1])

    def H(self, st, t):
        """What a place holds: what was stored there, or in what it is part of."""
        if not st.heap:
            return t
        v = st.heap.get(t)
        if v is not None:
            return v
        if t.op == "fld":
            base = t.args[0]
            b = self.H(st, base)
            if b is not base and b.op in ("agg", "tup"):
                return self.field_of(b, t.args[2])
        return t

    def holder(self, st, place):
        """(place, projection) of the stored value that the place is part of."""
        proj = []
        t = place
        while t.op == "fld":
            proj.append(("f", t.args[2], t.args[3]))
            t = t.args[0]
            v = st.heap.get(t)
            if v is not None:
                return (t, proj[::-1]) if v.op in ("agg", "tup") else None
        return None

    def write(self, st, frame, place, v, block):
        loc = self.locate(st, frame, place)
        self.write_loc(st, loc, v, frame, block)

    def write_loc(self, st, loc, v, frame, block):
        if loc[0] == "mem":
            root, proj = loc[1], loc[2]
            if not proj:
                st.mem[root] = v
            else:
                base = st.mem.get(root, TOP)
                if base.op in ("top", "moved") and v is not MOVED:
                    pass
                st.mem[root] = self.setp(st, base, proj, v)
        else:
            place = loc[1]
            if v is MOVED:
                return
            if place.op in ("top", "moved"):
                return
            dead = [k for k in st.heap if k is not place and any(x is place for x in walk(k))]
            for k in dead:
                del st.heap[k]
            if self.ck.on_store(self, st, place, v, frame, block) is True:
                return
            h = self.holder(st, place)
            if h is not None:
                st.heap[h[0]] = self.setp(st, st.heap[h[0]], h[1], v)
            else:
                st.heap[place] = v

    def write_ptr(self, st, ptr, v, frame, block):
        """*ptr = v"""
        if ptr.op == "ref":
            self.write_loc(st, ("mem", ptr.args[0], ptr.args[1]), v, frame, block)
        elif ptr.op == "addr":
            self.write_loc(st, ("val", ptr.args[0]), v, frame, block)
        else:
            self.write_loc(st, ("val", T("deref", ptr)), v, frame, block)

    def deref(self, st, ptr):
        return self.proj1(st, ptr, ("*",))

    def strip_ptr(self, st, v, n=8):
        """Follows pointers to the value."""
        while n and v.op in ("ref", "addr"):
            v = self.proj1(st, v, ("*",))
            n -= 1
        return v

    def ptr_field(self, st, ptr, e):
        """&(*ptr).e"""
        if ptr.op == "ref":
            return T("ref", ptr.args[0], ptr.args[1] + (e,))
        v = self.deref(st, ptr)
        return T("addr", self.place1(st, v, e))

    def addr_of(self, st, frame, place):
        loc = self.locate(st, frame, place)
        if loc[0] == "mem":
            return T("ref", loc[1], loc[2])
        return T("addr", loc[1])

    # ---- operands
    def const_value(self, v):
        if "b" in v:
            return mkbool(v["b"])
        if "i" in v:
            return mkint(v["i"]) if v["t"][0] in "uic" else T("cst", str(v["i"]), v["t"], "")
        if "s" in v:
            return mkstr(v["s"])
        fs = tuple(self.const_value(x) for x in v["f"])
        if v.get("tup"):
            return T("tup", fs) if fs else UNIT
        if v.get("arr"):
            return T("arr", fs)
        if v["a"] == "core::time::Duration":
            secs, nanos = (x.args[0] if x.op == "int" else x.args[3][0].args[0] for x in fs)
            return T("dur", secs * 1000 + (nanos // 1000000 if nanos % 1000000 == 0 else nanos / 1000000))
        return T("agg", v["a"], v["n"], v["vi"], fs)

    def const(self, k):
        if "fn" in k:
            f = k["fn"]
            return T("fn", f["p"], f.get("r", ""), Hash(f))
        t = k["t"]
        if "b" in k:
            return mkbool(k["b"])
        if "i" in k:
            if t in ("char",):
                return T("int", k["i"])
            if t[0] in "ui" and not t.startswith("unit"):
                return mkint(k["i"])
            return T("cst", f"{t}:{k['i']}", t, k.get("named", ""))
        if "s" in k:
            return mkstr(k["s"])
        if "static" in k:
            return T("addr", T("static", k["static"]))
        if "bytes" in k:
            return T("addr", mkstr(k["bytes"])) if False else mkstr(k["bytes"])
        if t == "()":
            return UNIT
        if "v" in k:
            return self.const_value(k["v"])
        if "named" in k:
            return T("cst", k.get("d", k["named"]), t, k["named"])
        if "d" in k:
            return T("cst", k["d"], t, "")
        if k.get("zst"):
            h = head(t)
            a = self.prog.adts.get(h)
            if t.startswith("{closure:"):
                return T("clo", t[9:-1], ())
            if a and a["kind"] == "struct":
                return T("agg", h, a["variants"][0][0], 0, ())
            return T("cst", t, t, "")
        return T("cst", k.get("ct", "?"), t, "")

    def operand(self, st, frame, o, block=None):
        if "c" in o:
            return self.read(st, frame, o["c"])
        if "m" in o:
            v = self.read(st, frame, o["m"])
            if v.op not in ("int", "bool", "unit") :
                loc = self.locate(st, frame, o["m"])
                # references and scalars are Copy: keep them
                if loc[0] == "mem" and v.op not in ("ref", "addr"):
                    self.write_loc(st, loc, MOVED, frame, block)
            return v
        if "k" in o:
            return self.const(o["k"])
        return T("cst", "runtime-check", "bool", "")

    # ---- rvalues
    def rvalue(self, st, frame, r, block):
        k = r[0]
        if k == "use":
            return self.operand(st, frame, r[1], block)
        if k == "ref":
            return self.addr_of(st, frame, r[2])
        if k == "agg":
            ak = r[1]
            ops = tuple(self.operand(st, frame, o, block) for o in r[2])
            if ak[0] == "tuple":
                return T("tup", ops) if ops else UNIT
            if ak[0] == "array":
                return T("arr", ops)
            if ak[0] == "adt":
                if ak[5] is not None:
                    return T("agg", ak[1], ak[4][ak[5]], 0, ops)
                return T("agg", ak[1], ak[3], ak[2], ops)
            if ak[0] == "closure":
                return T("clo", ak[1], ops)
            if ak[0] == "coroutine":
                return T("cor", ak[1], ops)
            return T("tup", ops)
        if k == "bin":
            a = self.operand(st, frame, r[2], block)
            b = self.operand(st, frame, r[3], block)
            self.ck.on_bin(self, st, r[1], a, b, frame, block)
            return self.binop(st, r[1], a, b, r[4])
        if k == "un":
            a = self.operand(st, frame, r[2], block)
            if r[1] == "Not":
                if len(r) > 3 and r[3] == "bool":
                    return mknot(a)
                return T("un", "Not", a)
            if r[1] == "PtrMetadata":
                return self.length(st, a)
            if a.op == "int" and r[1] == "Neg":
                return mkint(-a.args[0])
            return T("un", r[1], a)
        if k == "discr":
            v = self.read(st, frame, r[1])
            return T("discr", v, r[2])
        if k == "cast":
            v = self.operand(st, frame, r[2], block)
            return self.cast(v, r[1], r[4] if len(r) > 4 else "", r[3])
        if k == "rep":
            v = self.operand(st, frame, r[1], block)
            return T("repeat", v, mkint(r[2]) if r[2] is not None else TOP)
        if k == "tls":
            return T("addr", T("static", r[1]))
        return T("rv", str(r)[:200])

    def length(self, st, v):
        v = self.strip_ptr(st, v)
        if v.op == "arr":
            return mkint(len(v.args[0]))
        if v.op == "repeat":
            return v.args[1]
        return T("len", v)

    SIZES = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128, "bool": 1, "char": 32}

    def cast(self, v, kind, src, dst):
        if kind.startswith("IntToInt"):
            if v.op == "int":
                n = self.SIZES.get(dst, 64)
                x = v.args[0] & ((1 << n) - 1)
                if dst[0] == "i" and x >> (n - 1):
                    x -= 1 << n
                return mkint(x)
            if v.op == "bool":
                return mkint(1 if v is TRUE else 0)
            s, d = self.SIZES.get(src, 64), self.SIZES.get(dst, 64)
            if src[:1] == "u" and d >= s:
                return v  # value preserving
            if src[:1] == dst[:1] and d >= s:
                return v
            return T("cast", v, src, dst)
        if kind.startswith(("Float", "IntToFloat")):
            return T("cast", v, src, dst)
        return v

    def binop(self, st, op, a, b, ty):
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if op.endswith("WithOverflow"):
            val = self.binop(st, base, a, b, ty)
            if a.op == "int" and b.op == "int":
                return T("tup", (val, FALSE))
            return T("tup", (val, T("ovf", base, a, b)))
        if a.op == "int" and b.op == "int":
            x, y = a.args[0], b.args[0]
            if base == "Add":
                return mkint(x + y)
            if base == "Sub":
                return mkint(x - y)
            if base == "Mul":
                return mkint(x * y)
            if base == "Div" and y:
                return mkint(x // y)
            if base == "Rem" and y:
                return mkint(x % y)
            if base == "Shl":
                return mkint(x << y)
            if base == "Shr":
                return mkint(x >> y)
            if base == "BitAnd":
                return mkint(x & y)
            if base == "BitOr":
                return mkint(x | y)
            if base in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                return mkbool({"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y, "Eq": x == y, "Ne": x != y}[base])
        if b.op == "int" and b.args[0] == 0 and base in ("Add", "Sub", "BitOr", "BitXor", "Shl", "Shr"):
            return a
        if a.op == "int" and a.args[0] == 0 and base in ("Add", "BitOr", "BitXor"):
            return b
        if base in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            return self.compare(st, base, a, b, ty)
        if base in ("BitAnd", "BitOr") and ty == "bool":
            for x, y in ((a, b), (b, a)):
                if x is TRUE:
                    return y if base == "BitAnd" else TRUE
                if x is FALSE:
                    return FALSE if base == "BitAnd" else y
            return T("band" if base == "BitAnd" else "bor", a, b)
        return T("bin", base, a, b)

    def compare(self, st, op, a, b, ty=""):
        """Normal form: Eq(sorted) / Lt(a,b), possibly negated."""
        a, b = self.cmpval(st, a), self.cmpval(st, b)
        if a is b and a.op not in ("top",):
            return mkbool(op in ("Eq", "Le", "Ge"))
        if a.op == "int" and b.op == "int" or (a.op == "str" and b.op == "str"):
            x, y = a.args[0], b.args[0]
            return mkbool({"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y, "Eq": x == y, "Ne": x != y}[op])
        if a.op == "tab" and b.op == "tab" and op in ("Eq", "Ne"):
            if a.args[1] is not b.args[1] or a.args[2] is not b.args[2] and {a.args[2].op, b.args[2].op} <= {"unit"}:
                return mkbool(op == "Ne")
            if not a.args[3] and not b.args[3] and a.args[2] is b.args[2]:
                return mkbool(op == "Eq")
        if a.op == "bool" and op in ("Eq", "Ne"):
            r = b if a is TRUE else mknot(b)
            return r if op == "Eq" else mknot(r)
        if b.op == "bool" and op in ("Eq", "Ne"):
            r = a if b is TRUE else mknot(a)
            return r if op == "Eq" else mknot(r)
        if a.op == "agg" and b.op == "agg" and op in ("Eq", "Ne") and a.args[0] == b.args[0]:
            if a.args[1] != b.args[1]:
                return mkbool(op == "Ne")
            if not a.args[3]:
                return mkbool(op == "Eq")
            if len(a.args[3]) == 1:
                return self.compare(st, op, a.args[3][0], b.args[3][0], ty)
        if op in ("Eq", "Ne"):
            for x, y in ((a, b), (b, a)):
                if x.op == "agg" and not x.args[3] and self.is_enum(x.args[0]):
                    t = T("isvar", y, x.args[1], x.args[0])
                    return t if op == "Eq" else T("not", t)
        u = "u" if ty[:1] == "u" else ""
        if op == "Eq" or op == "Ne":
            if id(a) > id(b):
                a, b = b, a
            t = T("cmp", "Eq", a, b, u)
            return t if op == "Eq" else T("not", t)
        if op == "Lt":
            return T("cmp", "Lt", a, b, u)
        if op == "Gt":
            return T("cmp", "Lt", b, a, u)
        if op == "Ge":
            return T("not", T("cmp", "Lt", a, b, u))
        if op == "Le":
            return T("not", T("cmp", "Lt", b, a, u))

    def is_enum(self, adt):
        a = self.prog.adts.get(adt)
        return adt in VARIANTS or (a is not None and a["kind"] == "enum")

    def cmpval(self, st, v):
        v = self.strip_ptr(st, v)
        n = 6
        while n and v.op in ("conv",):
            v = self.strip_ptr(st, v.args[0])
            n -= 1
        return v

    # ---- facts
    def variants(self, adt):
        if adt in VARIANTS:
            return VARIANTS[adt]
        a = self.prog.adts.get(adt)
        if a and a["kind"] == "enum":
            return [v[0] for v in a["variants"]]
        return None

    def variant_of_discr(self, adt, val):
        a = self.prog.adts.get(adt)
        if a and a["kind"] == "enum":
            for i, v in enumerate(a["variants"]):
                d = v[1] if v[1] is not None else i
                if d == val:
                    return v[0]
            return None
        vs = VARIANTS.get(adt)
        if vs:
            if adt == ORDERING:
                return vs[val + 1] if -1 <= val <= 1 else None
            return vs[val] if val < len(vs) else None
        return None

    def vdom(self, st, t, adt):
        if t.op == "agg":
            return frozenset([t.args[1]])
        f = st.facts.get(t)
        if f and f[0] == "V":
            return f[1]
        vs = self.variants(adt)
        return frozenset(vs) if vs else None

    def set_variant(self, st, t, adt, names):
        """Restrict the variants of t; False when impossible."""
        if t.op == "agg":
            return t.args[1] in names
        d = self.vdom(st, t, adt)
        nd = frozenset(names) if d is None else d & frozenset(names)
        if not nd:
            return False
        if t.op not in ("top", "moved") and not is_level(t):
            st.facts[t] = ("V", nd)
        return True

    def idom(self, st, t, u=""):
        if t.op == "int":
            return (t.args[0], t.args[0], frozenset())
        f = st.facts.get(t)
        if f and f[0] == "I":
            return f[1:]
        if t.op == "len" or u == "u":
            return (0, INF, frozenset())
        return (-INF, INF, frozenset())

    def set_idom(self, st, t, lo, hi, ex):
        while lo in ex:
            lo += 1
        while hi in ex:
            hi -= 1
        if lo > hi:
            return False
        ex = frozenset(x for x in ex if lo < x < hi)
        if t.op == "int":
            return lo <= t.args[0] <= hi and t.args[0] not in ex
        if t.op not in ("top", "moved"):
            st.facts[t] = ("I", lo, hi, ex)
        return True

    def relkey(self, a, b):
        return (a, b, False) if id(a) <= id(b) else (b, a, True)

    def getrel(self, st, a, b, u=""):
        x, y, sw = self.relkey(a, b)
        r = st.rel.get((x, y), frozenset("<=>"))
        da, db = self.idom(st, x, u), self.idom(st, y, u)
        if da[1] < db[0]:
            r = r & frozenset("<")
        elif da[0] > db[1]:
            r = r & frozenset(">")
        else:
            if da[1] <= db[0]:
                r = r & frozenset("<=")
            if da[0] >= db[1]:
                r = r & frozenset(">=")
            if da[0] == da[1] and da[0] in db[2] or db[0] == db[1] and db[0] in da[2]:
                r = r - frozenset("=")
        if sw:
            r = frozenset({"<": ">", ">": "<", "=": "="}[c] for c in r)
        return r

    def setrel(self, st, a, b, allowed, u=""):
        r = self.getrel(st, a, b, u) & frozenset(allowed)
        if not r:
            return False
        x, y, sw = self.relkey(a, b)
        rr = frozenset({"<": ">", ">": "<", "=": "="}[c] for c in r) if sw else r
        if x.op not in ("top", "moved") and y.op not in ("top", "moved"):
            if x.op != "int" and y.op != "int":
                st.rel[(x, y)] = rr
        for p, q, rel in ((a, b, r), (b, a, frozenset({"<": ">", ">": "<", "=": "="}[c] for c in r))):
            if q.op == "int" and p.op != "int":
                c = q.args[0]
                lo, hi, ex = self.idom(st, p, u)
                if rel == frozenset("<"):
                    hi = min(hi, c - 1)
                elif rel == frozenset(">"):
                    lo = max(lo, c + 1)
                elif rel == frozenset("="):
                    lo, hi = max(lo, c), min(hi, c)
                elif rel == frozenset("<="):
                    hi = min(hi, c)
                elif rel == frozenset(">="):
                    lo = max(lo, c)
                elif rel == frozenset("<>"):
                    ex = ex | {c}
                if not self.set_idom(st, p, lo, hi, ex):
                    return False
        return True

    def eval_bool(self, st, t):
        t, pol = norm_bool(t)
        v = None
        if t.op == "bool":
            v = t.args[0]
        elif t.op == "cmp":
            r = self.getrel(st, t.args[1], t.args[2], t.args[3])
            if t.args[0] == "Eq":
                v = True if r == frozenset("=") else (False if "=" not in r else None)
            else:
                v = True if r == frozenset("<") else (False if "<" not in r else None)
            if v is None:
                f = st.facts.get(t)
                if f and f[0] == "B":
                    v = f[1]
        elif t.op == "isvar":
            d = self.vdom(st, t.args[0], t.args[2])
            if d is not None:
                v = True if d == frozenset([t.args[1]]) else (False if t.args[1] not in d else None)
        elif t.op == "band":
            a, b = self.eval_bool(st, t.args[0]), self.eval_bool(st, t.args[1])
            v = False if a is False or b is False else (True if a and b else None)
        elif t.op == "bor":
            a, b = self.eval_bool(st, t.args[0]), self.eval_bool(st, t.args[1])
            v = True if a or b else (False if a is False and b is False else None)
        else:
            f = st.facts.get(t)
            if f and f[0] == "B":
                v = f[1]
        return v if v is None or pol else (not v)

    def assume(self, st, t, val, frame=None, block=None):
        t, pol = norm_bool(t)
        if not pol:
            val = not val
        cur = self.eval_bool(st, t)
        if cur is not None:
            return cur == val
        okk = True
        if t.op == "cmp":
            if t.args[0] == "Eq":
                okk = self.setrel(st, t.args[1], t.args[2], "=" if val else "<>", t.args[3])
            else:
                okk = self.setrel(st, t.args[1], t.args[2], "<" if val else "=>", t.args[3])
        elif t.op == "isvar":
            vs = self.variants(t.args[2]) or []
            okk = self.set_variant(st, t.args[0], t.args[2], [t.args[1]] if val else [v for v in vs if v != t.args[1]])
        elif t.op == "band" and val:
            okk = self.assume(st, t.args[0], True) and self.assume(st, t.args[1], True)
        elif t.op == "bor" and not val:
            okk = self.assume(st, t.args[0], False) and self.assume(st, t.args[1], False)
        elif t.op == "band":
            a, b = self.eval_bool(st, t.args[0]), self.eval_bool(st, t.args[1])
            if a is True:
                okk = self.assume(st, t.args[1], False)
            elif b is True:
                okk = self.assume(st, t.args[0], False)
        elif t.op == "bor":
            a, b = self.eval_bool(st, t.args[0]), self.eval_bool(st, t.args[1])
            if a is False:
                okk = self.assume(st, t.args[1], True)
            elif b is False:
                okk = self.assume(st, t.args[0], True)
        elif t.op not in ("top", "moved"):
            st.facts[t] = ("B", val)
        if okk:
            self.ck.on_assume(self, st, t, val, frame, block)
        return okk

    def fork_bool(self, st, t, frame=None, block=None):
        """[(bool, state)]"""
        v = self.eval_bool(st, t)
        if v is not None:
            return [(v, st)]
        out = []
        for b in (True, False):
            s2 = st.copy()
            if self.assume(s2, t, b, frame, block):
                out.append((b, s2))
        return out

    def fork_variant(self, st, v, adt, frame=None, block=None):
        """[(variant name, state)] of an enum value."""
        if v.op == "agg":
            return [(v.args[1], st)]
        d = self.vdom(st, v, adt)
        names = [n for n in (self.variants(adt) or []) if n in d]
        if len(names) == 1:
            return [(names[0], st)]
        out = []
        for n in names:
            s2 = st.copy()
            if self.set_variant(s2, v, adt, [n]):
                self.ck.on_assume(self, s2, T("isvar", v, n, adt), True, frame, block)
                out.append((n, s2))
        return out

    def payload(self, st, v, variant, i=0, name=None):
        if v.op == "agg":
            return v.args[3][i] if i < len(v.args[3]) else TOP
        return self.proj1(st, self.proj1(st, v, ("v", 0, variant)), ("f", i, str(i) if name is None else name, ""))

    # ---- fresh results
    def fresh(self, st, path, args, frame, block, op="call", extra=()):
        site = (frame.id, block) + extra
        t = T(op, path, tuple(args), site)
        self.make_stale(st, t)
        return t

    def make_stale(self, st, t):
        """Values of an earlier execution of the same site are renamed."""
        path, args, site = t.args
        old = set()
        for v in st.mem.values():
            for s in v.syms:
                if s.args[-1] == site and s.args[0] == path:
                    old.add(s)
        for v in st.heap:
            for s in v.syms | st.heap[v].syms:
                if s.args[-1] == site and s.args[0] == path:
                    old.add(s)
        for x in walk(st.aut) if isinstance(st.aut, (tuple, frozenset, T)) else ():
            if x.op in ("call", "item", "sym", "guard") and x.args[-1] == site and x.args[0] == path:
                old.add(x)
        for k in list(st.facts):
            for s in k.syms:
                if s.args[-1] == site and s.args[0] == path:
                    old.add(s)
        if not old:
            return
        mp = {o: T("stale", o) for o in old}
        memo = {}
        for k, v in list(st.mem.items()):
            if v.syms & old:
                st.mem[k] = subst(v, mp, memo)
        if st.heap:
            nh = {}
            for k, v in st.heap.items():
                nh[subst(k, mp, memo)] = subst(v, mp, memo)
            st.heap = nh
        st.aut = subst(st.aut, mp, memo)
        if isinstance(st.aut, tuple) and len(st.aut) > 1:
            st.aut = tuple(dict.fromkeys(st.aut))
        for k in [k for k in st.facts if k.syms & old]:
            del st.facts[k]
        for k in [k for k in st.rel if (k[0].syms | k[1].syms) & old]:
            del st.rel[k]

    # ---- liveness
    def liveness(self, body):
        r = self._livecache.get(body.path)
        if r is not None:
            return r
        n = len(body.blocks)
        borrowed = set()
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]

        def u(i, place, d):
            if place[0] not in dfn[i]:
                use[i].add(place[0])
            for e in place[1:]:
                if e != "*" and e[0] == "i" and e[1] not in dfn[i]:
                    use[i].add(e[1])

        def op(i, o):
            if "c" in o:
                u(i, o["c"], 0)
            elif "m" in o:
                u(i, o["m"], 0)

        def df(i, place):
            if len(place) == 1:
                if place[0] not in use[i]:
                    dfn[i].add(place[0])
            else:
                u(i, place, 0)

        for i, (st, t, sp, cl) in enumerate(body.blocks):
            for s in st:
                if s[0] == "=":
                    r = s[2]
                    k = r[0]
                    if k == "use":
                        op(i, r[1])
                    elif k == "ref":
                        u(i, r[2], 0)
                        if "*" not in r[2][1:]:
                            borrowed.add(r[2][0])
                    elif k == "agg":
                        for o in r[2]:
                            op(i, o)
                    elif k == "bin":
                        op(i, r[2])
                        op(i, r[3])
                    elif k == "un":
                        op(i, r[2])
                    elif k == "discr":
                        u(i, r[1], 0)
                    elif k == "cast":
                        op(i, r[2])
                    elif k == "rep":
                        op(i, r[1])
                    df(i, s[1])
            k = t[0]
            if k == "switch":
                op(i, t[1])
            elif k == "call":
                op(i, t[1])
                for o in t[2]:
                    op(i, o)
                df(i, t[3])
            elif k == "drop":
                u(i, t[1], 0)
            elif k == "assert":
                op(i, t[1])
            elif k == "ret":
                use[i].add(0)
        live_in = [set() for _ in range(n)]
        succ = [body.succ(i) for i in range(n)]
        preds = [[] for _ in range(n)]
        for i in range(n):
            for j in succ[i]:
                preds[j].append(i)
        work = list(range(n))[::-1]
        inw = set(work)
        while work:
            i = work.pop(0)
            inw.discard(i)
            lo = set()
            for j in succ[i]:
                lo |= live_in[j]
            ni = use[i] | (lo - dfn[i])
            if ni != live_in[i]:
                live_in[i] = ni
                for p in preds[i]:
                    if p not in inw:
                        inw.add(p)
                        work.append(p)
        npred = [len(p) for p in preds]
        # loop heads: targets of back edges of a DFS
        heads = {}
        color = [0] * n
        stack = [(0, iter(succ[0]))] if n else []
        if n:
            color[0] = 1
        while stack:
            i, it = stack[-1]
            for j in it:
                if color[j] == 0:
                    color[j] = 1
                    stack.append((j, iter(succ[j])))
                    break
                if color[j] == 1:
                    heads.setdefault(j, set()).add(i)
            else:
                color[i] = 2
                stack.pop()
        loops = {}
        for h, ends in heads.items():
            # the natural loop: what reaches a back edge without passing the head
            inl, w = {h}, []
            for e in ends:
                if e not in inl:
                    inl.add(e)
                    w.append(e)
            while w:
                for j in preds[w.pop()]:
                    if j not in inl:
                        inl.add(j)
                        w.append(j)
            loops[h] = inl
        r = (live_in, borrowed, npred, loops)
        self._livecache[body.path] = r
        return r

    def prune(self, st, frame, block, live, borrowed):
        fid = frame.id
        for k in [k for k in st.mem if k[0] == fid and k[1] not in live and k[1] not in borrowed]:
            del st.mem[k]
        self.prune_facts(st)

    def prune_facts(self, st):
        if not st.facts and not st.rel and not st.heap:
            return
        syms = set()
        for v in st.mem.values():
            syms |= v.syms
        for x in walk(st.aut) if isinstance(st.aut, (tuple, frozenset, T)) else ():
            syms |= x.syms
        if st.heap:
            for k in [k for k in st.heap if k.syms and not (k.syms <= syms)]:
                del st.heap[k]
            for v in st.heap.values():
                syms |= v.syms
        keep = self.ck.keep
        for k in [k for k in st.facts if k.syms and not (k.syms <= syms) and not keep(k)]:
            del st.facts[k]
        for k in [k for k in st.rel if not (k[0].syms | k[1].syms) <= syms and not (keep(k[0]) or keep(k[1]))]:
            del st.rel[k]

    # ---- execution
    def run(self, path, args=None, aut=None, st=None):
        """Analyse a function (an async fn: its body) from its entry; returns the exits."""
        body = self.prog.bodies.get(path)
        if body is None:
            raise KeyError(path)
        if st is None:
            st = State()
        if aut is not None:
            st.aut = aut
        if args is None:
            args = []
            for i in range(1, body.argc + 1):
                ty = body.locals[i][0]
                args.append(T("param", body.names.get(i, str(i)), ty))
        fr = self.frame(body, None, -1)
        outs = self.exec_body(body, args, st, fr)
        # an async fn returns its future: await it
        res = []
        for v, s in outs:
            w = self.strip_ptr(s, v)
            while w.op == "agg" and w.args[0].endswith(("::Box", "::Pin")) and w.args[3]:
                w = self.strip_ptr(s, w.args[3][0])
            if w.op == "cor":
                for pv, s2 in self.poll(w, s, fr, -2):
                    res.append((pv.args[3][0] if pv.op == "agg" else pv, s2))
            else:
                res.append((v, s))
        return res

    def run_root(self, path, aut=None, st=None):
        """Analyse a root: a spawned task's coroutine, an async fn or a plain function."""
        body = self.prog.bodies[path]
        if "Coroutine" not in body.kind:
            return self.run(path, aut=aut, st=st)
        if st is None:
            st = State()
        if aut is not None:
            st.aut = aut
        ups = []
        for i in range(len(body.upvars)):
            ups.append(T("param", body.upvars[str(i)] if isinstance(body.upvars, dict) else str(body.upvars[i]), path))
        fr = self.frame(body, None, -1)
        return self.exec_body(body, [T("cor", path, tuple(ups)), T("cst", "resume", "", "")], st, fr)

    def exec_body(self, body, args, st, frame):
        self.stats["bodies"].add(body.path)
        self.stats["inlined"] += 1
        fid = frame.id
        for i, a in enumerate(args):
            st.mem[(fid, i + 1)] = a
        live_in, borrowed, npred, heads = self.liveness(body)
        visited = {}
        headcount = {}
        counted = {}
        exits = {}
        work = [(0, st, -1)]
        while work:
            b, s, pb = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.budget:
                    raise Budget(f"more than {self.budget} steps (in {body.path})")
                if npred[b] > 1:
                    if b in heads and pb in heads[b]:
                        self.ck.on_loop(self, s, frame, heads[b], b)
                    self.prune(s, frame, b, live_in[b], borrowed)
                    if b in heads:
                        if self.ck.witness:
                            for k, v in s.mem.items():
                                if v.op == "lcoll" and len(v.args[1]) > 1:
                                    s.mem[k] = deep(v)
                        self.counters(s, frame, b, counted)
                        self.loop_facts(s, frame, heads[b])
                        c = headcount.get(b, 0)
                        headcount[b] = c + 1
                        if c > (400 if self.ck.witness else 150):
                            self.widen(s, frame, b)
                    k = s.key()
                    vs = visited.setdefault(b, set())
                    if k in vs:
                        break
                    vs.add(k)
                    self.stats["states"] += 1
                nxt = self.step(body, frame, b, s, exits)
                if not nxt:
                    break
                pb = b
                for x in nxt[1:]:
                    work.append((x[0], x[1], pb))
                b, s = nxt[0]
        return list(exits.values())

    def in_loop(self, sym, frame, loop):
        """Was this value produced in the loop of this frame?"""
        at = sym.args[-1] if sym.args else None
        if not isinstance(at, tuple) or len(at) < 2:
            return False
        fid, blk = at[0], at[1]
        f = self.framelist[fid] if isinstance(fid, int) and fid < len(self.framelist) else None
        while f is not None and f is not frame:
            blk = f.block
            f = f.parent
        if f is None:
            return False
        while isinstance(blk, tuple):
            blk = blk[0]
        return blk in loop

    def loop_facts(self, st, frame, loop):
        """What earlier iterations established about values that are gone says nothing about the next one."""
        live = None
        memo = {}

        def gone(syms):
            nonlocal live
            if not syms:
                return False
            if live is None:
                live = set()
                for v in st.mem.values():
                    live |= v.syms
                for k, v in st.heap.items():
                    live |= v.syms
                if self.ck.aut_live and isinstance(st.aut, tuple):
                    for m in st.aut:
                        for x in m if isinstance(m, tuple) else ():
                            if isinstance(x, T):
                                live |= x.syms
            for s in syms:
                if s in live:
                    continue
                r = memo.get(s)
                if r is None:
                    r = memo[s] = self.in_loop(s, frame, loop)
                if r:
                    return True
            return False

        anon = others if self.ck.anonymous else (lambda t: False)
        for k in [k for k in st.facts if anon(k) or gone(k.syms)]:
            del st.facts[k]
        for k in [k for k in st.rel if anon(k[0]) or anon(k[1]) or gone(k[0].syms | k[1].syms)]:
            del st.rel[k]
        if self.ck.loop_marks and isinstance(st.aut, tuple):
            st.aut = tuple(m for m in st.aut if not (isinstance(m, tuple) and any(isinstance(x, T) and gone(x.syms) for x in m)))

    def counters(self, st, frame, block, counted):
        """A counter that took many values at the head of a loop can have any value there."""
        for k, v in list(st.mem.items()):
            if k[0] != frame.id:
                continue
            w = T("sym", "wide", k, (frame.id, block))
            if v.op == "int":
                seen = counted.setdefault((block, k), set())
                seen.add(v.args[0])
                if len(seen) <= (40 if self.ck.witness else 12):
                    continue
            elif not (v.op == "bin" and v.args[0] in ("Add", "Sub") and v.args[1] is w):
                continue
            self.stats["widened"] += 1
            for m in (st.facts, st.heap):
                for x in [x for x in m if w in x.syms]:
                    del m[x]
            for x in [x for x in st.rel if w in x[0].syms or w in x[1].syms]:
                del st.rel[x]
            st.mem[k] = w

    def widen(self, st, frame, block):
        self.stats["widened"] += 1
        for k, v in list(st.mem.items()):
            if v.depth > 12 and k[0] == frame.id:
                st.mem[k] = T("wide", (frame.id, block), k)
        for k in [k for k in st.facts if k.depth > 14]:
            del st.facts[k]
        for k in [k for k in st.heap if k.depth > 16 or st.heap[k].depth > 16]:
            del st.heap[k]

    def step(self, body, frame, b, st, exits):
        self.stats["blocks"] += 1
        stmts, t, span, _ = body.blocks[b]
        fid = frame.id
        for s in stmts:
            k = s[0]
            if k == "=":
                v = self.rvalue(st, frame, s[2], b)
                self.write(st, frame, s[1], v, b)
            elif k == "D":
                st.mem.pop((fid, s[1]), None)
            elif k == "L":
                st.mem.pop((fid, s[1]), None)
            elif k == "setd":
                pass
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "switch":
            return self.switch(st, frame, b, t)
        if k == "ret":
            v = st.mem.get((fid, 0), UNIT)
            for key in [x for x in st.mem if x[0] == fid]:
                del st.mem[key]
            self.prune_exit(st, v)
            exits.setdefault((v, st.key()), (v, st))
            return []
        if k == "drop":
            v = self.read(st, frame, t[1])
            if v is not MOVED and v.op != "top":
                self.drop_value(st, t[3], v, frame, b)
            # the place is now uninitialised
            loc = self.locate(st, frame, t[1])
            if loc[0] == "mem":
                self.write_loc(st, loc, MOVED, frame, b)
            return [(t[2], st)]
        if k == "assert":
            c = self.operand(st, frame, t[1], b)
            want = t[2]
            v = self.eval_bool(st, c)
            if v is not None and v != want:
                self.ck.on_assert(self, st, t[3], c, frame, b)
                return []
            if v is None:
                self.ck.on_assert(self, st, t[3], c, frame, b)
                if not self.assume(st, c, want, frame, b):
                    return []
            return [(t[4], st)]
        if k == "call":
            return self.call(st, frame, b, t, body)
        if k == "yield":
            return [(t[1], st)]
        if k in ("unreachable", "resume", "codrop", "other"):
            return []
        raise AssertionError(k)

    def prune_exit(self, st, v):
        if st.facts or st.rel or st.heap:
            m = st.mem
            m[("ret", 0)] = v
            self.prune_facts(st)
            del m[("ret", 0)]

    def drop_value(self, st, ty, v, frame, block):
        if v is MOVED:
            return
        self.ck.on_drop(self, st, ty, v, frame, block)

    def switch(self, st, frame, b, t):
        d = self.operand(st, frame, t[1], b)
        ty = t[4]
        if d.op == "discr":
            x, adt = d.args
            dom = self.vdom(st, x, adt)
            if x.op == "agg":
                for val, tgt in t[2]:
                    if self.variant_of_discr(adt, val) == x.args[1]:
                        return [(tgt, st)]
                return [(t[3], st)]
            if dom is None:
                out = [(tgt, st.copy()) for _, tgt in t[2]] + [(t[3], st.copy())]
                return out
            out = []
            rest = set(dom)
            for val, tgt in t[2]:
                n = self.variant_of_discr(adt, val)
                rest.discard(n)
                if n in dom:
                    s2 = st.copy()
                    if self.set_variant(s2, x, adt, [n]):
                        if len(dom) > 1:
                            self.ck.on_assume(self, s2, T("isvar", x, n, adt), True, frame, b)
                        out.append((tgt, s2))
            if rest:
                s2 = st.copy()
                if self.set_variant(s2, x, adt, rest):
                    if len(rest) == 1 and len(dom) > 1:
                        self.ck.on_assume(self, s2, T("isvar", x, next(iter(rest)), adt), True, frame, b)
                    elif len(dom) > len(rest):
                        for n in dom - rest:
                            self.ck.on_assume(self, s2, T("isvar", x, n, adt), False, frame, b)
                    out.append((t[3], s2))
            return out
        if ty == "bool":
            out = []
            for v, s2 in self.fork_bool(st, d, frame, b):
                tgt = t[3]
                for val, x in t[2]:
                    if bool(val) == v:
                        tgt = x
                        break
                out.append((tgt, s2))
            return out
        if d.op == "int":
            for val, tgt in t[2]:
                if val == d.args[0]:
                    return [(tgt, st)]
            return [(t[3], st)]
        if d.op == "cst" or d.op in ("top",):
            return [(tgt, st.copy()) for _, tgt in t[2]] + [(t[3], st.copy())]
        u = "u" if ty[:1] == "u" else ""
        out = []
        rest = st.copy()
        feasible = True
        for val, tgt in t[2]:
            s2 = st.copy()
            if self.setrel(s2, d, mkint(val), "=", u):
                self.ck.on_assume(self, s2, T("cmp", "Eq", d, mkint(val), u), True, frame, b)
                out.append((tgt, s2))
            if feasible:
                feasible = self.setrel(rest, d, mkint(val), "<>", u)
        if feasible:
            out.append((t[3], rest))
        return out

    # ---- calls
    def call(self, st, frame, b, t, body):
        fo = t[1]
        self.stats["calls"] += 1
        span = t[5]
        if "k" in fo and "fn" in fo["k"]:
            f = fo["k"]["fn"]
            args = [self.operand(st, frame, o, b) for o in t[2]]
            outs = self.invoke(st, f, args, t[7], t[6], frame, b, span)
        else:
            fv = self.operand(st, frame, fo, b)
            args = [self.operand(st, frame, o, b) for o in t[2]]
            outs = self.call_value(fv, args, st, frame, b, span, t[6])
        res = []
        for v, s in outs:
            if t[4] is None:
                continue
            self.write(s, frame, t[3], v, b)
            res.append((t[4], s))
        return res

    def mkcall(self, st, f, args, argtys, destty, frame, b, span):
        c = Call()
        c.decl = f["p"]
        c.path = f.get("r") or f["p"]
        c.fn = f
        c.args = args
        c.argtys = argtys
        c.destty = destty
        c.frame = frame
        c.block = b
        c.span = span
        c.st = st
        c.self_ty = f.get("self", "")
        return c

    def invoke(self, st, f, args, argtys, destty, frame, b, span):
        c = self.mkcall(st, f, args, argtys, destty, frame, b, span)
        r = self.ck.on_call(self, c)
        if r is not None:
            return r
        if self.ck.tabs:
            r = self.table_call(self, c)
            if r is not None:
                return r
        st = c.st
        if "ctor_adt" in f:
            return [(T("agg", f["ctor_adt"], f.get("ctor_var") or f["ctor_adt"].split("::")[-1], f["ctor_vi"], tuple(args)), st)]
        m = self.models.get(c.path) or self.lookup_extra(self, c) or self.models.get(c.decl)
        if m is None:
            for pre, fn in self.prefix_models:
                if c.path.startswith(pre) or c.decl.startswith(pre):
                    m = fn
                    break
        if m is not None:
            r = m(self, c)
            if r is not None:
                return r
        # closures
        if f["p"] in ("core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut", "core::ops::function::FnOnce::call_once"):
            tupv = args[1]
            inner = list(tupv.args[0]) if tupv.op == "tup" else ([] if tupv is UNIT else None)
            if inner is not None:
                fv = self.strip_ptr(st, args[0])
                return self.call_value(fv, inner, st, frame, b, span, destty, selfref=args[0])
        target = self.prog.bodies.get(c.path)
        if target is None and "trait" in f:
            target = self.devirtualise(st, c)
        if target is not None and self.can_inline(target, frame):
            return self.inline(target, args, st, frame, b)
        return self.opaque(c)

    def devirtualise(self, st, c):
        """A trait method whose receiver's aggregate is known."""
        if not c.args:
            return None
        v = self.strip_ptr(st, c.args[0])
        if v.op == "agg":
            for h, p in self.prog.impl_methods.get(c.decl, ()):
                if h == v.args[0]:
                    return self.prog.bodies.get(p)
        return None

    def can_inline(self, body, frame):
        if frame.depth + 1 > self.ck.max_depth:
            return False
        f = frame
        n = 0
        while f:
            if f.body is body:
                n += 1
            f = f.parent
        if n >= 1 and body.kind != "AssocFn" or n >= 2:
            return False
        return self.ck.inline(body.path, frame)

    def inline(self, body, args, st, frame, b, tag=""):
        fr = self.frame(body, frame, b, tag)
        return self.exec_body(body, args, st, fr)

    def opaque(self, c, pure=False, op="call"):
        st = c.st
        self.stats["opaque"].add(c.path)
        # the arguments as values
        args = [self.argval(st, a, ty) for a, ty in zip(c.args, c.argtys)]
        r = self.fresh(st, c.path, args, c.frame, c.block)
        for i, (a, ty) in enumerate(zip(c.args, c.argtys)):
            if ty.startswith("&mut ") and a.op == "ref":
                old = self.load(st, a.args[0], a.args[1])
                if old.op not in ("cor", "clo", "call", "addr", "ref", "moved", "top", "iter"):
                    new = T("upd", self.updbase(old), r.args[2])
                    self.write_loc(st, ("mem", a.args[0], a.args[1]), new, c.frame, c.block)
                    self.kill_facts(st, new)
            elif ty.startswith("&mut ") and a.op == "addr":
                dead = [k for k in st.heap if any(x is a.args[0] for x in walk(k))]
                for k in dead:
                    del st.heap[k]
                self.kill_facts(st, a.args[0])
        return [(r, st)]

    def kill_facts(self, st, t):
        for k in [k for k in st.facts if any(x is t for x in walk(k))]:
            del st.facts[k]
        for k in [k for k in st.rel if any(x is t for x in walk(k[0])) or any(x is t for x in walk(k[1]))]:
            del st.rel[k]

    def updbase(self, old):
        while old.op == "upd":
            old = old.args[0]
        return old

    def argval(self, st, a, ty):
        """What is recorded of an argument: references are resolved to the value they point to."""
        n = 4
        while n and a.op == "ref":
            v = self.load(st, a.args[0], a.args[1])
            if v.op in ("top", "moved"):
                break
            if ty.startswith("&mut "):
                v = self.updbase(v)
            a = T("addr", v)
            if v.op in ("ref",):
                a = v
                n -= 1
                continue
            break
        return a

    def call_value(self, fv, args, st, frame, b, span, destty="", selfref=None):
        fv = self.strip_ptr(st, fv)
        if fv.op == "clo":
            body = self.prog.bodies.get(fv.args[0])
            if body is not None and self.can_inline(body, frame):
                selfty = body.locals[1][0]
                if selfty.startswith("&"):
                    me = selfref if selfref is not None and selfref.op in ("ref", "addr") and self.deref(st, selfref).op == "clo" else T("addr", fv)
                else:
                    me = fv
                return self.inline(body, [me] + args, st, frame, b, "clo")
        if fv.op == "fn":
            f = fv.args[2].d
            tys = ["?"] * len(args)
            body = self.prog.bodies.get(self.mkcall(st, f, args, tys, destty, frame, b, span).path)
            if body is not None and body.argc == len(args):
                tys, destty = [body.locals[i + 1][0] for i in range(body.argc)], destty or body.locals[0][0]
            return self.invoke(st, f, args, tys, destty, frame, b, span)
        r = self.fresh(st, "<fnptr>", [fv] + [self.argval(st, a, "") for a in args], frame, b)
        return [(r, st)]

    # ---- futures
    def poll(self, fut, st, frame, b, destty=""):
        v = self.strip_ptr(st, fut)
        if v.op == "agg" and v.args[0].endswith("::Box"):
            v = v.args[3][0]
        if v.op == "cor":
            body = self.prog.bodies.get(v.args[0])
            if body is not None and self.can_inline(body, frame):
                outs = self.inline(body, [v, T("cst", "resume", "", "")], st, frame, b, "await")
                return [(ready(r), s) for r, s in outs]
            r = self.fresh(st, "<await>" + v.args[0], list(v.args[1]), frame, b)
            return [(ready(r), st)]
        if v.op == "timeout":
            dur, inner = v.args
            self.ck.on_timeout(self, st, v, frame, b)
            s0 = st.copy()
            self.tmo.append(dur)
            self.cancel.append([])
            outs = self.poll(inner, st, frame, b)
            snaps = self.cancel.pop()
            self.tmo.pop()
            res = []
            for pv, s in outs:
                val = pv.args[3][0] if pv.op == "agg" else pv
                res.append((ready(ok(val)), s))
            el = self.fresh(s0, "tokio::time::error::Elapsed", (dur,), frame, b)
            res.append((ready(err(el)), s0))
            if self.ck.cancel_all:
                seen = {s0.aut}
                for s in snaps:
                    if s.aut in seen:
                        continue
                    seen.add(s.aut)
                    s3 = s0.copy()
                    s3.aut = s.aut
                    s3.trace = s.trace
                    res.append((ready(err(el)), s3))
            for pv, s in res[len(outs):]:
                self.ck.on_elapsed(self, s, v, frame, b)
            return res
        if v.op == "pollfn":
            outs = self.call_value(v.args[0], [T("cst", "cx", "", "")], st, frame, b, ["?", 0])
            res = []
            for r, s in outs:
                if r.op == "agg" and r.args[1] == "Pending":
                    continue
                res.append((r, s))
            return res
        if v.op == "joinall":
            # every future of the tuple runs
            states = [([], st)]
            for i, f in enumerate(v.args[0]):
                nxt = []
                for vals, s in states:
                    for pv, s2 in self.poll(f, s, frame, (b, i)):
                        nxt.append((vals + [pv.args[3][0]], s2))
                states = nxt
            return [(ready(tup(*vals)), s) for vals, s in states]
        for snaps in self.cancel:
            snaps.append(st.copy())
        r = self.ck.on_await(self, st, v, frame, b)
        if r is not None:
            return [(ready(x), s) for x, s in r]
        if v.op == "call":
            return [(ready(v), st)]
        if v.op in ("top", "moved"):
            return [(ready(self.fresh(st, "<await>", (), frame, b)), st)]
        if v.op == "guard":
            # others have had the lock meanwhile
            inner = T("locked", v.args[1][0])
            for k in [k for k in st.heap if any(x is inner for x in walk(k))]:
                del st.heap[k]
            self.ck.on_lock(self, st, v, inner, frame, b)
            return [(ready(v), st)]
        return [(ready(T("out", v)), st)]


_OTHERS = {}


def others(t):
    """Is it about an element that is not told apart from others?"""
    r = _OTHERS.get(t)
    if r is None:
        if t.op == "others":
            r = True
        elif t.op == "lcoll":
            r = False
        else:
            r = any(others(x) if isinstance(x, T) else isinstance(x, tuple) and any(isinstance(y, T) and others(y) for y in x) for x in t.args)
        _OTHERS[t] = r
    return r


def is_level(t):
    """The level of a log statement decides nothing but what is logged."""
    while t.op == "fld":
        t = t.args[0]
    return t.op == "cst" and any(isinstance(x, str) and x.startswith("tracing") for x in t.args)


class Hash:
    """A callee record as a hashable term argument."""

    __slots__ = ("d", "_k")

    def __init__(self, d):
        self.d = d
        self._k = repr(d)

    def __hash__(self):
        return hash(self._k)

    def __eq__(self, o):
        return isinstance(o, Hash) and self._k == o._k

    def __repr__(self):
        return self.d["p"]
