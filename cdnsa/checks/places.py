"""Types of places, from the declarations in the analysed source: which table of the broker a lookup is about."""
import re

from ..mir import head, targs
from ..terms import *
from .common import CONN_TY, V, path_is, is_call

WRAP = ("alloc::rcs::arc::Arc", "alloc::sync::Arc", "alloc::boxed::Box", "core::pin::Pin", "alloc::rc::Rc")
LOCK = ("RwLock", "Mutex")
MAPS = ("std::collections::hash::map::HashMap", "alloc::collections::btree::map::BTreeMap")
SETS = ("std::collections::hash::set::HashSet", "alloc::collections::btree::set::BTreeSet")
GETS = ("HashMap::get", "HashMap::get_mut", "HashMap::remove", "BTreeMap::get", "BTreeMap::get_mut", "BTreeMap::remove", "HashMap::insert", "BTreeMap::insert")
USER_KEY = "alloc::rcs::arc::Arc<alloc::vec::Vec<u8"


def bare(ty):
    while ty.startswith("&"):
        ty = ty[1:]
        if ty.startswith("'"):
            ty = ty.split(" ", 1)[1]
        if ty.startswith("mut "):
            ty = ty[4:]
    return ty


def unwrap(ty):
    """Through references, smart pointers and locks; the user key is itself an Arc and stays."""
    while True:
        ty = bare(ty)
        if ty.startswith(USER_KEY):
            return ty
        h = head(ty)
        if h in WRAP:
            ty = targs(ty)[0]
        elif h.endswith(LOCK):
            ty = targs(ty)[-1]
        else:
            return ty


def subst_ty(ty, names, args):
    mp = dict(zip(names, args))
    return re.sub(r"param:(\w+)", lambda m: mp.get(m.group(1), m.group(0)), ty)


class Places:
    def __init__(self, prog):
        self.prog = prog
        self.byname = {}
        for p, a in prog.adts.items():
            if not a.get("local") or "Archived" in p or "Resolver" in p or "::tests::" in p:
                continue
            for v in a["variants"]:
                for i, f in enumerate(v[2]):
                    if "param:" not in f[1] or "Arc<lock_api" in f[1]:
                        self.byname.setdefault((i, f[0]), set()).add(f[1])
        self.memo = {}

    def field(self, ty, variant, idx):
        ty = unwrap(ty)
        if ty.startswith("("):
            a = targs("x<" + ty[1:-1] + ">")
            return a[idx] if idx < len(a) else None
        h = head(ty)
        if h == OPTION:
            return targs(ty)[0]
        a = self.prog.adts.get(h)
        if not a:
            return None
        vs = [v for v in a["variants"] if v[0] == variant] or a["variants"][:1]
        fs = vs[0][2]
        if idx >= len(fs):
            return None
        return subst_ty(fs[idx][1], a.get("generics") or [], targs(ty))

    def ty(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._ty(t) or ""
        return r

    def _ty(self, t):
        op = t.op
        if op in ("addr", "conv", "as", "upd", "mod", "locked", "stale", "deref", "place"):
            x = t.args[0]
            return self.ty(x) if isinstance(x, T) else None
        if op == "fld":
            base, variant, idx, name = t.args
            b = V(base)
            if is_call(b, *GETS) and variant == "Some":
                m = unwrap(self.ty(b.args[1][0]))
                if head(m) in MAPS:
                    return targs(m)[1]
            bt = self.ty(b)
            if bt:
                r = self.field(bt, variant, idx if isinstance(idx, int) else 0)
                if r:
                    return r
            c = self.byname.get((idx, name), ())
            if len(c) == 1:
                return next(iter(c))
            return None
        if op == "call":
            if is_call(t, "Entry::or_default", "Entry::or_insert_with", "Entry::or_insert") and t.args[1]:
                e = V(t.args[1][0])
                if is_call(e, "HashMap::entry", "BTreeMap::entry"):
                    m = unwrap(self.ty(e.args[1][0]))
                    if head(m) in MAPS:
                        return targs(m)[1]
            return None
        if op == "item":
            src = t.args[1][0] if isinstance(t.args[1], tuple) else None
            if isinstance(src, T):
                s = unwrap(self.ty(src))
                if head(s) in SETS or head(s) == "alloc::vec::Vec":
                    return targs(s)[0]
                if head(s) in MAPS:
                    return "(" + ", ".join(targs(s)[:2]) + ")"
            return None
        return None

    def table(self, t):
        """Which table the place is: 'user'/'broker' (sessions), 'location', 'interest-user'/'interest-broker'
        (topic -> parties), 'topics-user'/'topics-broker' (party -> topics), 'interest' (what others are told)."""
        return self.kind(self.ty(V(t)))

    def kind(self, ty):
        ty = unwrap(ty)
        if head(ty) not in MAPS:
            return None
        k, v = targs(ty)[:2]
        isuser, isbroker = k.startswith(USER_KEY), "BrokerIdentifier" in k and "Vec" not in k
        if isuser or isbroker:
            who = "user" if isuser else "broker"
            if self.holds_conn(v):
                return who
            if head(v) in SETS or head(v) == "alloc::vec::Vec":
                if targs(v)[0] in ("u8", "param:V"):
                    return "topics-" + who
            if isuser and "BrokerIdentifier" in v:
                return "location"
        if k == "u8":
            if head(v) in SETS:
                e = targs(v)[0]
                if e.startswith(USER_KEY):
                    return "interest-user"
                if "BrokerIdentifier" in e:
                    return "interest-broker"
            if "SubscriptionStatus" in v:
                return "topic-sync"
        return None

    def holds_conn(self, v):
        if CONN_TY in v:
            return True
        a = self.prog.adts.get(head(v))
        return bool(a) and any(CONN_TY in f[1] for var in a["variants"] for f in var[2])
