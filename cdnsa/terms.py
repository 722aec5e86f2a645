"""Hash-consed abstract values (provenance terms)."""


class T:
    __slots__ = ("op", "args", "_h", "syms", "depth", "__weakref__")
    table = {}

    def __new__(cls, op, *args):
        key = (op, args)
        t = cls.table.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            t._h = hash(key)
            syms = None
            depth = 0
            for a in args:
                if isinstance(a, T):
                    if a.depth > depth:
                        depth = a.depth
                    if a.syms:
                        syms = a.syms if syms is None else (syms if a.syms <= syms else syms | a.syms)
                elif isinstance(a, tuple):
                    for b in a:
                        if isinstance(b, T):
                            if b.depth > depth:
                                depth = b.depth
                            if b.syms:
                                syms = b.syms if syms is None else (syms if b.syms <= syms else syms | b.syms)
            t.depth = depth + 1
            cls.table[key] = t
            if op in ("call", "item", "sym", "guard"):
                syms = (syms or frozenset()) | {t}
            t.syms = frozenset() if op == "stale" else (syms or frozenset())
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return repr(self) < repr(o)


def tname(p):
    """Short form of a path."""
    return "::".join(p.replace("<", "").replace(">", "").split(" as ")[0].split("::")[-2:])


def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 7:
        return "…"
    a = t.args
    op = t.op
    s = lambda x: show(x, d + 1)
    if op == "int":
        return str(a[0])
    if op == "bool":
        return str(a[0]).lower()
    if op == "str":
        return repr(a[0])
    if op == "unit":
        return "()"
    if op == "agg":
        n = a[0].split("::")[-1] + ("::" + a[1] if a[1] and a[1] != a[0].split("::")[-1] else "")
        return n + ("(" + ", ".join(s(x) for x in a[3]) + ")" if a[3] else "")
    if op in ("tup", "arr"):
        return "(" + ", ".join(s(x) for x in a[0]) + ")"
    if op in ("clo", "cor"):
        return f"{op}:{a[0].split('::', 2)[-1]}"
    if op == "ref":
        return f"&local{a[0]}" + "".join("." + str(x[2] if len(x) > 2 else x[-1]) for x in a[1])
    if op == "addr":
        return "&" + s(a[0])
    if op == "deref":
        return "*" + s(a[0])
    if op == "fld":
        return s(a[0]) + (f"<{a[1]}>" if a[1] else "") + "." + str(a[3])
    if op == "call":
        return tname(a[0]) + "(" + ", ".join(s(x) for x in a[1]) + ")"
    if op == "bin":
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    return f"{op}(" + ", ".join(s(x) if isinstance(x, T) else (str([s(y) for y in x]) if isinstance(x, tuple) else str(x)) for x in a) + ")"


def subst(t, mp, memo):
    """Replace sub-terms."""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(subst(x, mp, memo) for x in t)
        if isinstance(t, frozenset):
            return frozenset(subst(x, mp, memo) for x in t)
        return t
    if t in mp:
        return mp[t]
    if not t.syms and t.op != "ref":
        return t
    r = memo.get(t)
    if r is None:
        na = tuple(subst(x, mp, memo) for x in t.args)
        if na == t.args:
            r = t
        elif t.op in ("call", "item", "sym", "guard"):
            # a result that was computed from a value that is now stale keeps its identity
            r = T(t.op, *na)
        else:
            r = T(t.op, *na)
        memo[t] = r
    return r


class Pin:
    """A term that is remembered as it is: no renaming, no liveness."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        return hash(self.t) + 1

    def __eq__(self, o):
        return isinstance(o, Pin) and self.t is o.t

    def __repr__(self):
        return "pin(" + show(self.t) + ")"


_deep = {}


def deep(t):
    """The term with values of earlier rounds of a loop named like those of the current one."""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(deep(x) for x in t)
        if isinstance(t, frozenset):
            return frozenset(deep(x) for x in t)
        return t
    if not t.syms and t.op != "ref":
        return t
    r = _deep.get(t)
    if r is None:
        r = deep(t.args[0]) if t.op == "stale" else T(t.op, *[deep(x) for x in t.args])
        _deep[t] = r
    return r


def walk(t, seen=None):
    """All sub-terms."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(x.args)
        elif isinstance(x, (tuple, frozenset)):
            stack.extend(x)


UNIT = T("unit")
TOP = T("top")
MOVED = T("moved")
TRUE = T("bool", True)
FALSE = T("bool", False)


def mkint(v):
    return T("int", v)


def mkbool(b):
    return TRUE if b else FALSE


def mkstr(s):
    return T("str", s)


OPTION = "core::option::Option"
RESULT = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"
POLL = "core::task::poll::Poll"
ORDERING = "core::cmp::Ordering"
VARIANTS = {
    OPTION: ["None", "Some"],
    RESULT: ["Ok", "Err"],
    CF: ["Continue", "Break"],
    POLL: ["Ready", "Pending"],
    ORDERING: ["Less", "Equal", "Greater"],
}


def agg(adt, variant, vi, *fields):
    return T("agg", adt, variant, vi, tuple(fields))


def some(x):
    return agg(OPTION, "Some", 1, x)


NONE = agg(OPTION, "None", 0)


def ok(x):
    return agg(RESULT, "Ok", 0, x)


def err(x):
    return agg(RESULT, "Err", 1, x)


def ready(x):
    return agg(POLL, "Ready", 0, x)


def tup(*xs):
    return T("tup", tuple(xs)) if xs else UNIT


def is_call(t, *names):
    return isinstance(t, T) and t.op == "call" and any(t.args[0] == n or t.args[0].endswith("::" + n) for n in names)
