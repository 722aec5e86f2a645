"""The discovery backends: what every command sent to the store says (Redis commands, SQL statements)."""
import re

from . import check
from .common import *

TR = "DiscoveryClient::"
RAND_OS = ("SeedableRng::from_entropy", "rngs::thread::thread_rng", "thread_rng", "OsRng", "rand::rng")


# ---------------------------------------------------------------- text
def deep(eng, st, v, n=8):
    """The value with references into memory resolved."""
    if n == 0:
        return v
    if v.op == "ref":
        return deep(eng, st, eng.load(st, v.args[0], v.args[1]), n - 1)
    if v.op == "addr":
        return deep(eng, st, v.args[0], n - 1)
    if v.op in ("arr", "tup"):
        return T(v.op, tuple(deep(eng, st, x, n - 1) for x in v.args[0]))
    return v


def template(s):
    """The pieces of a compiled format string: literals and None for placeholders."""
    out, i = [], 0
    while i < len(s):
        n = ord(s[i])
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(s[i : i + n])
            i += n
        elif n == 0x80:
            n = ord(s[i]) | (ord(s[i + 1]) << 8)
            i += 2
            out.append(s[i : i + n])
            i += n
        else:
            out.append(None)
    return out


def text(t):
    """A piece of text as a tuple of literal strings and printed values."""
    t = V(t)
    if t.op == "str":
        return (t.args[0],)
    if t.op == "disp":
        return text(t.args[0])
    if t.op == "fmt":
        xs = t.args[0]
        tm = V(xs[0])
        if tm.op != "str":
            return (t,)
        vals = list(xs[1:])
        out = []
        if len(xs) == 1:
            p = template(tm.args[0])
            return (p[0],) if p and p[0] is not None and "\x00" in tm.args[0] else (tm.args[0],)
        for p in template(tm.args[0]):
            if p is None:
                if not vals:
                    return (t,)
                out += list(text(vals.pop(0)))
            else:
                out.append(p)
        return join(out)
    if t.op in ("clone",):
        return text(t.args[0])
    return (t,)


def join(ps):
    out = []
    for p in ps:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    return tuple(out)


def showp(ps):
    return "".join(p if isinstance(p, str) else "{" + show(p) + "}" for p in ps)


def textual(t):
    """The literal when t is one, else None."""
    p = text(t)
    return p[0] if len(p) == 1 and isinstance(p[0], str) else None


# ---------------------------------------------------------------- SQL
TOK = re.compile(r"\s*(?:('(?:[^']|'')*')|(\?\d*|\$\d+)|([A-Za-z_][A-Za-z_0-9]*)|(\d+)|(<=|>=|<>|!=|==|.))", re.S)


def tokens(sql):
    out, i = [], 0
    sql = sql.strip()
    while i < len(sql):
        m = TOK.match(sql, i)
        if not m:
            break
        i = m.end()
        s, par, w, n, o = m.groups()
        if s:
            out.append(("s", s[1:-1]))
        elif par:
            out.append(("?", par))
        elif w:
            out.append(("w", w.lower()))
        elif n:
            out.append(("n", int(n)))
        elif o and o.strip():
            out.append(("o", o))
    return out


class Sql:
    """One statement: verb, table, columns, conditions, with bound values."""

    def __init__(self, toks, binds):
        self.toks = toks
        self.binds = binds
        self.auto = 0
        self.verb = self.table = None
        self.values = {}
        self.where = []
        self.ok = True
        self.flags = set()
        self.cols = []
        try:
            self.parse()
        except IndexError:
            self.ok = False

    def w(self, i):
        return self.toks[i][1] if i < len(self.toks) and self.toks[i][0] == "w" else None

    def bind(self, tok):
        k, v = tok
        if k == "?":
            if len(v) > 1:
                n = int(v[1:]) - 1
            else:
                n = self.auto
            self.auto = max(self.auto, n + 1)
            return self.binds[n] if n < len(self.binds) else None
        if k == "n":
            return mkint(v)
        if k == "s":
            return mkstr(v)
        return None

    def parse(self):
        t = self.toks
        i = 1
        self.verb = self.w(0)
        if self.verb in ("insert", "replace"):
            if self.verb == "replace" or self.w(i) == "or":
                self.flags.add("replace" if self.verb == "replace" else self.w(i + 1))
                if self.w(i) == "or":
                    i += 2
            self.verb = "insert"
            if self.w(i) != "into":
                self.ok = False
                return
            self.table = self.w(i + 1)
            i += 2
            cols = []
            if t[i][1] == "(":
                i += 1
                while t[i][1] != ")":
                    if t[i][0] == "w":
                        cols.append(t[i][1])
                    i += 1
                i += 1
            self.cols = cols
            if i < len(t) and self.w(i) == "values":
                i += 2
                vals = []
                while t[i][1] != ")":
                    if t[i][1] != ",":
                        vals.append(self.bind(t[i]))
                    i += 1
                if len(vals) != len(cols):
                    self.ok = False
                self.values = dict(zip(cols, vals))
            return
        if self.verb == "delete":
            if self.w(1) != "from":
                self.ok = False
                return
            self.table = self.w(2)
            i = 3
        elif self.verb == "select":
            while self.w(i) != "from":
                self.cols.append(t[i][1])
                i += 1
            self.table = self.w(i + 1)
            i += 2
        elif self.verb in ("drop", "create"):
            if self.w(1) != "table":
                self.ok = False
                return
            i = 2
            while self.w(i) in ("if", "not", "exists"):
                i += 1
            self.table = self.w(i)
            return
        elif self.verb == "update":
            self.table = self.w(1)
            self.ok = self.w(2) == "set"
            i = 3
            while i + 2 < len(t) and t[i][0] == "w" and t[i + 1][1] == "=":
                self.values[t[i][1]] = self.bind(t[i + 2])
                i += 3
                if i < len(t) and t[i][1] == ",":
                    i += 1
        else:
            self.ok = False
            return
        if i < len(t) and self.w(i) == "where":
            i += 1
            while i < len(t):
                col = self.w(i)
                op = t[i + 1][1]
                j = i + 2
                par = t[j][1] == "("
                if par:
                    j += 1
                v = self.bind(t[j])
                j += 2 if par else 1
                self.where.append((col, "=" if op == "==" else op, v))
                i = j
                if i < len(t) and self.w(i) == "and":
                    i += 1
                    continue
                break
        if i < len(t) and self.w(i) == "returning":
            self.flags.add("returning")
            i = len(t)
        if i < len(t) and t[i][1] != ";":
            self.flags.add("more")
            self.ok = self.ok and self.verb == "select"

    def cond(self, col, op="="):
        for c, o, v in self.where:
            if c == col and o == op:
                return v
        return None


def statements(sql, binds):
    out, cur = [], []
    for t in tokens(sql):
        if t == ("o", ";"):
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return [Sql(c, binds) for c in out]


# ---------------------------------------------------------------- commands
class Store(Rule):
    """Collects the commands of one backend method. Values: rcmd (a Redis command), rpipe, sql."""

    opaque = ()

    def __init__(self, ctx, variant="default"):
        super().__init__(ctx, variant)
        self.unknown = []

    def mark(self, st, x):
        st.aut = (st.aut or ()) + (x,) if x not in (st.aut or ()) else st.aut

    def on_call(self, eng, c):
        p = c.path
        st = c.st
        if c.matches("redis::cmd::cmd", "redis::cmd"):
            return [(T("rcmd", (deep(eng, st, c.args[0]),)), st)]
        if c.matches("Cmd::new") and "redis" in p:
            return [(T("rcmd", ()), st)]
        if c.matches("redis::cmd::pipe", "redis::pipe", "redis::pipeline::pipe", "redis::pipeline::Pipeline::new"):
            return [(T("rpipe", False, ()), st)]
        if "redis::" in p and c.args:
            name = p.split("::")[-1]
            v = deep(eng, st, c.args[0])
            if v.op == "rcmd" and name in ("arg",):
                return self.put(eng, c, T("rcmd", v.args[0] + self.flat(deep(eng, st, c.args[1]))))
            if v.op == "rpipe":
                if name == "atomic":
                    return self.put(eng, c, T("rpipe", True, v.args[1]))
                if name == "cmd":
                    return self.put(eng, c, T("rpipe", v.args[0], v.args[1] + (T("rcmd", (deep(eng, st, c.args[1]),)),)))
                if name == "arg" and v.args[1]:
                    last = v.args[1][-1].args[0] + self.flat(deep(eng, st, c.args[1]))
                    return self.put(eng, c, T("rpipe", v.args[0], v.args[1][:-1] + (T("rcmd", last),)))
                if name == "ignore":
                    return self.put(eng, c, v)
                if name == "add_command":
                    w = deep(eng, st, c.args[1])
                    return self.put(eng, c, T("rpipe", v.args[0], v.args[1] + (w,))) if w.op == "rcmd" else None
            if name in ("query_async", "exec_async") and v.op in ("rcmd", "rpipe"):
                t = eng.fresh(st, p, (v,), c.frame, c.block)
                return [(t, st)]
        if c.matches("sqlx_core::query::query", "sqlx::query", "sqlx_core::query_as::query_as", "sqlx_core::query_scalar::query_scalar", "query_as::query_as", "query::query", "query_scalar::query_scalar"):
            return [(T("sql", deep(eng, st, c.args[0]), ()), st)]
        if "sqlx" in p and c.args:
            name = p.split("::")[-1]
            v = deep(eng, st, c.args[0])
            if v.op == "sql":
                if name == "bind":
                    return [(T("sql", v.args[0], v.args[1] + (deep(eng, st, c.args[1]),)), st)]
                if name in ("execute", "fetch_one", "fetch_all", "fetch_optional", "fetch"):
                    ex = deep(eng, st, c.args[1]) if len(c.args) > 1 else UNIT
                    t = eng.fresh(st, p, (v, ex), c.frame, c.block)
                    return [(t, st)]
                if name in ("build", "into_sql", "sql", "persistent"):
                    return [(v, st)]
            if name == "new" and "QueryBuilder" in p:
                return [(T("sql", deep(eng, st, c.args[0]), ()), st)]
            if v.op == "sql" and name in ("push_values", "push", "push_bind", "separated"):
                x = T("pushed", name, deep(eng, st, c.args[1]) if len(c.args) > 1 else UNIT)
                return self.put(eng, c, T("sql", v.args[0], v.args[1] + (x,)))
            if name in ("begin", "commit", "rollback"):
                return [(eng.fresh(st, p, (deep(eng, st, c.args[0]),), c.frame, c.block), st)]
        return None

    def flat(self, v):
        if v.op in ("arr", "tup"):
            return tuple(v.args[0])
        return (v,)

    def put(self, eng, c, v):
        eng.write_ptr(c.st, c.args[0], v, c.frame, c.block)
        return [(c.args[0], c.st)]

    def keep(self, t):
        return True


def commands(fut):
    """('redis', atomic, [[texts..]..]) or ('sql', [Sql..], executor) of an awaited command."""
    if fut.op != "call" or not fut.args[1]:
        return None
    v = fut.args[1][0]
    if not isinstance(v, T):
        return None
    if v.op == "rcmd":
        return ("redis", True, [v.args[0]])
    if v.op == "rpipe":
        return ("redis", v.args[0], [c.args[0] for c in v.args[1]])
    if v.op == "sql":
        s = text(v.args[0])
        if not all(isinstance(x, str) for x in s):
            return ("sql", None, fut.args[1][1] if len(fut.args[1]) > 1 else UNIT, s)
        return ("sql", statements("".join(s), list(v.args[1])), fut.args[1][1] if len(fut.args[1]) > 1 else UNIT, s)
    return None


class Log(Store):
    """Every path's sequence of commands, with what became of them."""

    aut_live = True

    def on_await(self, eng, st, fut, frame, block):
        x = commands(fut)
        if x is not None:
            self.mark(st, ("cmd", fut, site(frame, block)))
            return None
        if fut.op == "call" and fut.args[0].split("::")[-1] in ("begin", "commit", "rollback"):
            self.mark(st, ("tx", fut, site(frame, block)))
        elif any(y.op in ("rcmd", "rpipe", "sql") for y in walk(fut)):
            self.unknown.append(site(frame, block))
        return None


def succeeded(st, fut):
    return st.facts.get(fut) == ("V", frozenset(["Ok"]))


def methods(g, name):
    """(backend, path) of every implementation in the product."""
    out = []
    for p in g.prog.bodies:
        if path_is(p, TR + name) and p.startswith("<") and "::tests::" not in p:
            out.append((p[1:].split(" as ")[0].split("::")[-1], p))
    return sorted(out)


def explore(ctx, path, variant):
    ck = Log(ctx, variant)
    outs = ctx.run(path, ck, variant)
    for w in ck.unknown:
        ctx.violate("command-understood", "a command reaches the store in a way the analysis does not follow", w)
    res = []
    for v, st in outs:
        log = [m for m in (st.aut or ()) if m[0] in ("cmd", "tx")]
        res.append((v, st, log))
    return res


def param(t, name):
    t = V(t)
    return t.op == "param" and t.args[0] == name


def pname(t):
    t = V(t)
    while t.op in ("conv", "clone", "deref", "disp"):
        t = V(t.args[0])
    return t.args[0] if t.op == "param" else None


def under(t):
    """Through references, clones and conversions."""
    t = V(t)
    while t.op in ("conv", "clone", "deref"):
        t = V(t.args[0])
    return t


def same_text(x, t):
    """Is x exactly the printed form of t?"""
    p = text(x)
    return len(p) == 1 and not isinstance(p[0], str) and under(p[0]) is under(t)


def params_of(prog, path):
    b = prog.bodies[path]
    return [b.names.get(i, str(i)) for i in range(1, b.argc + 1)]


def narrow(t):
    """Through lossless or checked integer conversions."""
    while True:
        t = V(t)
        c, vs = okval(t)
        if t.op == "fld" and c.op in ("pure", "call") and ("try_from" in c.args[0] or "try_into" in c.args[0]):
            t = c.args[1][0]
        elif t.op in ("cast",):
            t = t.args[0]
        elif t.op == "pure" and t.args[0].endswith(("From::from", "::from")):
            t = t.args[1][0]
        else:
            return t


# ---------------------------------------------------------------- permits
def expiry_text(t, exp):
    """Does the text print the whole seconds (or milliseconds) of the expiry parameter?"""
    p = text(t)
    if len(p) != 1 or isinstance(p[0], str):
        return None
    v = V(p[0])
    if v.op == "pure" and V(v.args[1][0]) is exp:
        return v.args[0].split("::")[-1]
    return None


def random_permit(ctx, st, t, w, pid_rule="permit"):
    """A permit drawn from the operating system's entropy, never a response code."""
    t = narrow(t)
    if t.op == "pure" and t.args[0].endswith("::max"):
        a, b = [V(x) for x in t.args[1]]
        lo = b.args[0] if b.op == "int" else a.args[0] if a.op == "int" else 0
        t = a if b.op == "int" else b
        rng = t
        hi = 1 << 64
    elif is_call(t, "Rng::gen_range"):
        r = V(t.args[1][1])
        lo, hi = 0, 0
        if (is_call(r, "RangeInclusive::new") or r.op == "pure" and r.args[0].endswith("RangeInclusive::new")):
            a, b = [V(x) for x in r.args[1]]
            lo, hi = (a.args[0] if a.op == "int" else 0), (b.args[0] if b.op == "int" else 0)
        elif r.op == "agg" and r.args[0].endswith("::Range"):
            a, b = [V(x) for x in r.args[3]]
            lo, hi = (a.args[0] if a.op == "int" else 0), (b.args[0] - 1 if b.op == "int" else 0)
        elif r.op == "agg" and r.args[0].endswith("::RangeFrom"):
            a = V(r.args[3][0])
            lo, hi = (a.args[0] if a.op == "int" else 0), 1 << 64
        rng = t
    elif is_call(t, "Rng::gen", "RngCore::next_u64", "RngCore::next_u32", "Rng::random"):
        lo, hi = int_bounds(st, t)
        rng = t
    else:
        ctx.ob("permit-random", False, w, "a permit is not a random number: " + show(t))
        return
    src = [x for x in walk(rng) if x.op in ("call", "cst") and any(n.split("::")[-1] in str(x.args[0]) for n in RAND_OS)]
    seeded = [x for x in walk(rng) if x.op == "call" and ("from_seed" in x.args[0] or "seed_from_u64" in x.args[0])]
    ctx.ob("permit-from-entropy", bool(src) and not seeded, w, "a permit is not drawn from the operating system's entropy: " + show(t))
    ctx.ob("permit-not-a-code", lo >= 2, w, f"a permit can be {lo}, which is a response code")
    ctx.ob("permit-space", hi - lo >= (1 << 32) - 3, w, f"permits are drawn from {lo}..={hi} only")


def keypat(ps, names):
    """A key's pieces with parameters named by role."""
    out = []
    for p in ps:
        if isinstance(p, str):
            out.append(p)
        else:
            v = under(narrow(p))
            out.append(("role", names.get(v, show(v))))
    return tuple(out)


@check("C05", "command dataflow over MIR: Redis commands and parsed SQL statements with the origin of every key and bound value, on every path of both backends")
def c05(ctx):
    for variant in ("default", "global-permits"):
        prog, g = ctx.prog(variant), ctx.graph(variant)
        iss, val = dict(methods(g, "issue_permit")), dict(methods(g, "validate_permit"))
        ctx.need(len(iss) >= 2 and set(iss) == set(val), "both discovery backends")
        for be in sorted(iss):
            pat = issue(ctx, prog, be, iss[be], variant)
            validate(ctx, prog, be, val[be], variant, pat)


def pget(prog, path, k):
    """The k-th parameter (0 = self) as the term the analysis uses."""
    b = prog.bodies[path]
    return T("param", b.names.get(k + 1, str(k + 1)), b.locals[k + 1][0])


def issue(ctx, prog, be, path, variant):
    n = prog.bodies[path].argc
    key = pget(prog, path, n - 1)
    exp = pget(prog, path, n - 2)
    broker = pget(prog, path, 1) if n == 4 else None
    ctx.need(n == (4 if variant == "default" else 3), "the parameters of issue_permit")
    pats = set()
    good = 0
    for v, st, log in explore(ctx, path, variant):
        if not (v.op == "agg" and v.args[1] == "Ok"):
            continue
        good += 1
        permit = V(v.args[3][0])
        w = log[-1][2] if log else path
        random_permit(ctx, st, permit, w)
        core = narrow(permit)
        writes = []
        for m in log:
            x = commands(m[1])
            if x is None:
                continue
            if x[0] == "redis":
                for cmd in x[2]:
                    verb = (textual(cmd[0]) or "?").upper()
                    if verb in ("SET", "SETEX", "PSETEX"):
                        writes.append((m, verb, cmd))
            elif x[1]:
                for s in x[1]:
                    if s.verb in ("insert", "update"):
                        writes.append((m, "sql", s))
        ctx.ob("permit-stored", len(writes) == 1 and succeeded(st, writes[0][0][1]), w, "a permit can be returned that was not stored")
        for m, verb, cmd in writes:
            w = m[2]
            if verb != "sql":
                ps = text(cmd[1])
                vals = [x for x in ps if not isinstance(x, str)]
                if broker is not None:
                    ctx.ob("permit-scoped-to-broker", any(under(x) is broker for x in vals), w, "a permit is not stored for its broker: " + showp(ps))
                ctx.ob("permit-stored-under-itself", any(narrow(x) is core for x in vals), w, "the stored permit is not the returned one: " + showp(ps))
                pats.add(keypat(ps, {broker: "broker", core: "permit"}))
                if verb == "SET":
                    rest = [textual(x) for x in cmd[3:]]
                    opt = None
                    for i, x in enumerate(rest[:-1]):
                        if x and x.upper() in ("EX", "PX"):
                            opt = (x.upper(), expiry_text(cmd[3 + i + 1], exp))
                    value = cmd[2]
                else:
                    opt = ("EX" if verb == "SETEX" else "PX", expiry_text(cmd[2], exp))
                    value = cmd[3]
                ctx.ob("permit-expires", opt in (("EX", "as_secs"), ("PX", "as_millis")), w, "a permit does not expire after the requested time")
                ctx.ob("permit-holds-the-key", V(value) is key, w, "a permit is not stored with the client's key: " + show(V(value)))
            else:
                s = cmd
                ctx.ob("permit-insert-understood", s.ok and s.verb == "insert" and s.table == "permits", w, "the statement that stores a permit is malformed")
                ctx.ob("permit-does-not-replace-another", not s.flags, w, "storing a permit can replace another client's permit")
                roles = {}
                for col, x in s.values.items():
                    if x is None:
                        continue
                    if broker is not None and same_text(x, broker):
                        roles[col] = "broker"
                    elif narrow(x) is core:
                        roles[col] = "permit"
                    elif V(x) is key:
                        roles[col] = "key"
                    elif expires_at(x, exp):
                        roles[col] = "expiry"
                want = {"permit", "key", "expiry"} | ({"broker"} if broker is not None else set())
                ctx.ob("permit-row-complete", want <= set(roles.values()), w, f"the stored permit lacks {sorted(want - set(roles.values()))}")
                pats.add(tuple(sorted((r, c) for c, r in roles.items())))
    ctx.need(good, f"the success path of issue_permit ({be})")
    ctx.ob("one-permit-format", len(pats) == 1, path, "permits are stored in more than one format")
    return next(iter(pats)) if pats else None


def expires_at(x, exp):
    """now + expiry in seconds"""
    x = V(x)
    if not (x.op == "pure" and x.args[0].endswith(("as_secs_f64", "as_secs"))):
        return False
    d = V(x.args[1][0])
    return any(y is exp for y in walk(d)) and any(now_dur(y) for y in walk(d) if y.op in ("fld", "call")) and ("Sub" not in repr(d))


def is_now(x):
    x = V(x)
    return x.op == "pure" and x.args[0].endswith(("as_secs_f64", "as_secs")) and now_dur(x.args[1][0])


def expired_rows(s):
    """DELETE FROM t WHERE expiry < now: the table."""
    if s.ok and s.verb == "delete" and len(s.where) == 1:
        c, o, v = s.where[0]
        if c == "expiry" and o in ("<", "<=") and v is not None and is_now(v):
            return s.table
    return None


def validate(ctx, prog, be, path, variant, pat):
    n = prog.bodies[path].argc
    permit = pget(prog, path, n - 1)
    broker = pget(prog, path, 1) if n == 3 else None
    some = 0
    for v, st, log in explore(ctx, path, variant):
        if not (v.op == "agg" and v.args[1] == "Ok"):
            continue
        r = V(v.args[3][0])
        if r.op == "agg" and r.args[1] == "None":
            continue
        some += 1
        w = log[-1][2] if log else path
        # the command the answer comes from
        src = [m for m in log if m[0] == "cmd" and any(x is m[1] for x in walk(r))]
        ctx.ob("redeemed-key-from-store", len(src) == 1, w, "the redeemed key does not come from the stored permit: " + show(r))
        if len(src) != 1:
            continue
        m = src[0]
        w = m[2]
        x = commands(m[1])
        others = [o for o in log if o[0] == "cmd" and o is not m]
        if x[0] == "redis":
            cmds = [[textual(c[0]) or "?"] + list(c[1:]) for c in x[2]]
            verbs = [c[0].upper() for c in cmds]
            ctx.ob("redeeming-is-atomic", verbs == ["GETDEL"] or x[1] and len(x[2]) == 2 and verbs in (["GET", "DEL"],), w, f"reading and removing a permit is not one atomic step: {verbs}")
            for c in cmds:
                kp = keypat(text(c[1]), {broker: "broker", narrow(permit): "permit"})
                ctx.ob("redeems-what-was-issued", kp == pat, w, f"permits are looked up under {showk(kp)} but stored under {showk(pat)}")
            ctx.ob("redeems-once", not any(self_cmd(o) for o in others), w, "a permit is looked up more than once")
            ctx.ob("redeemed-key-is-whole-answer", okval(r)[0] is m[1] or okval(V(r.args[0]) if r.op == "elem" else r)[0] is m[1], w, "the redeemed key is not the stored value: " + show(r))
        else:
            ss = x[1]
            good = ss is not None and len(ss) == 1 and ss[0].ok and ss[0].verb == "delete" and "returning" in ss[0].flags
            ctx.ob("redeeming-is-atomic", good, w, "reading and removing a permit is not one atomic statement")
            if not good:
                continue
            s = ss[0]
            roles = dict((r_, c) for r_, c in (pat or ()))
            ctx.ob("redeems-what-was-issued", s.table == "permits", w, "permits are looked up in another table")
            wanted = {roles.get("permit"): narrow(permit)}
            if broker is not None:
                wanted[roles.get("broker")] = broker
            have = {}
            for col, op, val in s.where:
                if op == "=" and val is not None:
                    tv = text(val)
                    have[col] = under(narrow(tv[0])) if not isinstance(tv[0], str) else None
            for col, t in wanted.items():
                ctx.ob("redeems-own-permit", have.get(col) is t, w, f"a permit is redeemed without comparing its {col}")
            # the answer is the stored key
            col = [textual(z.args[1][1]) for z in walk(r) if z.op == "call" and z.args[0].endswith(("Row::get", "Row::try_get")) and len(z.args[1]) > 1]
            ctx.ob("redeemed-key-is-stored-key", col == [roles.get("key")], w, f"the answer is the column {col}, the key is stored in {roles.get('key')}")
            # expired permits are gone before
            pruned = any(any(expired_rows(q) == "permits" for q in (commands(o[1])[1] or [])) and succeeded(st, o[1]) for o in log[: log.index(m)] if o[0] == "cmd" and commands(o[1])[0] == "sql")
            guard = any(c == "expiry" and o in (">", ">=") and vv is not None and is_now(vv) for c, o, vv in s.where)
            ctx.ob("expired-permits-rejected", pruned or guard, w, "an expired permit can still be redeemed")
    ctx.need(some, f"the success path of validate_permit ({be})")


def self_cmd(o):
    x = commands(o[1])
    return x is not None and x[0] == "redis" and any((textual(c[0]) or "").upper().startswith("GET") for c in x[2])


def showk(k):
    return "".join(p if isinstance(p, str) else "{" + str(p[1]) + "}" for p in (k or ()))


# ---------------------------------------------------------------- whitelist
PART = ("filter", "filter_map", "part", "zip", "flatten", "flat_map")


def unstale(t):
    while t.op == "stale":
        t = t.args[0]
    return t


def fact_of(st, fut):
    """'yes' | 'no' | None: what the path established about the number, flag or row a command answered with."""
    out = set()
    for k, f in st.facts.items():
        if fut not in k.syms or k is fut:
            continue
        if f[0] == "B":
            out.add("yes" if f[1] else "no")
        elif f[0] == "I":
            if f[2] <= 0:
                out.add("no")
            elif f[1] >= 1:
                out.add("yes")
        elif f[0] == "V":
            if f[1] == frozenset(["Some"]):
                out.add("yes")
            elif f[1] == frozenset(["None"]):
                out.add("no")
    return out.pop() if len(out) == 1 else None


ROW = T("cst", "row of push_values", "", "")


class Whitelist(Log):
    """Writes of the whole list: which elements of the argument were taken, and whether all were."""

    def __init__(self, ctx, users, variant="default"):
        super().__init__(ctx, variant)
        self.users = users

    def on_next(self, eng, st, it, item, frame, block):
        src = eng.strip_ptr(st, it.args[0])
        if src.op == "lcoll" and src.args[1] == frozenset([T("spread", self.users)]):
            src = self.users
        if src is not self.users:
            return
        if any(k in PART for k, _ in it.args[1]):
            self.mark(st, ("part", site(frame, block)))
        if item is None:
            self.mark(st, ("end",))
        else:
            self.mark(st, ("took", item))

    def on_call(self, eng, c):
        st = c.st
        if "sqlx" in c.path and c.args:
            name = c.path.split("::")[-1]
            if name == "push_values":
                v = deep(eng, st, c.args[0])
                if v.op == "sql":
                    from ..models import to_iter, next_item

                    out = []
                    for r, s in next_item(eng, c, to_iter(eng, st, c.args[1]), st.copy(), "pv"):
                        if r is None:
                            eng.write_ptr(s, c.args[0], T("sql", v.args[0], v.args[1] + (T("rows", ()),)), c.frame, c.block)
                            out.append((c.args[0], s))
                            continue
                        for _, s2 in eng.call_value(c.args[2], [ROW, r], s, c.frame, (c.block, "pv"), c.span):
                            bs = tuple(m[1] for m in (s2.aut or ()) if m[0] == "bind")
                            s2.aut = tuple(m for m in s2.aut or () if m[0] != "bind")
                            eng.write_ptr(s2, c.args[0], T("sql", v.args[0], v.args[1] + (T("rows", bs),)), c.frame, c.block)
                            # the rows are all taken here
                            self.mark(s2, ("end",))
                            out.append((c.args[0], s2))
                    return out
            if name == "push_bind" and deep(eng, st, c.args[0]) is ROW:
                self.mark(st, ("bind", deep(eng, st, c.args[1])))
                return [(c.args[0], st)]
        if c.matches("redis::pipeline::Pipeline::cmd", "Pipeline::cmd") and c.args:
            v = deep(eng, st, c.args[0])
            if v.op == "rpipe":
                eng.write_ptr(st, c.args[0], T("rpipe", v.args[0], dedup(v.args[1])), c.frame, c.block)
        return super().on_call(eng, c)


def dedup(xs):
    out = []
    for x in xs:
        if not out or out[-1] is not x and out[-1] != x:
            out.append(x)
    return tuple(out)


def set_whitelist(ctx, be, path):
    users = pget(ctx.prog(), path, 1)
    ck = Whitelist(ctx, users)
    ok_ = 0
    name = None
    for v, st in ctx.run(path, ck):
        if not (v.op == "agg" and v.args[1] == "Ok"):
            continue
        ok_ += 1
        aut = st.aut or ()
        took = [m[1] for m in aut if m[0] == "took"]
        for m in aut:
            if m[0] == "part":
                ctx.ob("whole-list", False, m[1], "only part of the given users is put on the whitelist")
        ctx.ob("whole-list", ("end",) in aut, path, "setting the whitelist can succeed before all users were added")
        log = [m for m in aut if m[0] in ("cmd", "tx")]
        added = set()
        cleared = None
        for i, m in enumerate(log):
            if m[0] != "cmd":
                continue
            w = m[2]
            x = commands(m[1])
            ctx.ob("set-succeeds-only-if-stored", succeeded(st, m[1]), w, "setting the whitelist can succeed although a command failed")
            if x[0] == "redis":
                cmds = [c for c in x[2]]
                ctx.ob("replace-is-atomic", x[1] and sum(1 for o in log if o[0] == "cmd") == 1, w, "the whitelist is not replaced in one atomic step")
                for c in cmds:
                    verb = (textual(c[0]) or "?").upper()
                    if verb in ("DEL", "UNLINK"):
                        cleared = textual(c[1])
                        name = name or cleared
                        ctx.ob("old-list-goes-first", not added, w, "the whitelist is cleared after users were added")
                    elif verb == "SADD":
                        ctx.ob("old-list-goes-first", cleared is not None and textual(c[1]) == cleared, w, "users are added to a list that was not cleared")
                        added |= {unstale(y) for z in c[2:] for y in walk(z)} | {y.args[0] for z in c[2:] for y in walk(z) if y.op == "stale"}
                        for z in c[2:]:
                            ctx.ob("exactly-the-users", is_user(z, users), w, "something else than a given user is put on the whitelist: " + show(z))
            else:
                ex = x[2]
                began = [o for o in log[:i] if o[0] == "tx" and o[1].args[0].endswith("begin") and o[1] in ex.syms]
                ctx.ob("replace-is-atomic", bool(began), w, "the whitelist is not replaced in a transaction")
                after = [o for o in log[i:] if o[0] == "tx" and o[1].args[0].endswith("commit") and succeeded(st, o[1])]
                ctx.ob("set-commits", bool(after), w, "setting the whitelist can succeed without a commit")
                lits = "".join(p if isinstance(p, str) else " ? " for p in x[3])
                for s in statements(lits, [b for b in m[1].args[1][0].args[1] if b.op not in ("rows", "pushed")]):
                    if s.verb == "drop" or s.verb == "delete" and not s.where:
                        cleared = s.table
                        name = name or cleared
                        ctx.ob("old-list-goes-first", not added, w, "the whitelist is cleared after users were added")
                    elif s.verb == "insert":
                        ctx.ob("old-list-goes-first", cleared is not None and s.table == cleared, w, "users are added to a list that was not cleared")
                        vals = list(s.values.values()) + [y for b in m[1].args[1][0].args[1] if b.op == "rows" for y in b.args[0]]
                        for z in vals:
                            if z is None:
                                continue
                            ctx.ob("exactly-the-users", is_user(z, users), w, "something else than a given user is put on the whitelist: " + show(z))
                            added |= {unstale(y) for y in walk(z)} | {y.args[0] for y in walk(z) if y.op == "stale"}
                    elif s.verb != "create":
                        ctx.ob("whitelist-statement-understood", False, w, f"an unexpected statement: {s.verb}")
        ctx.ob("old-list-removed", cleared is not None, path, "setting the whitelist keeps the old one")
        for t in took:
            ctx.ob("every-user-added", any(y in added for y in (unstale(V(t)), V(t))), path, "a given user is not put on the whitelist")
    ctx.need(ok_, f"the success path of set_whitelist ({be})")
    return name


def is_user(z, users):
    """A value that is an element of the users argument, and nothing else."""
    z = V(z)
    while z.op in ("clone", "deref", "conv", "stale", "addr") or z.op == "call" and z.args[0].endswith(("as_ref", "to_vec")):
        z = z.args[1][0] if z.op == "call" else z.args[0]
    return z.op == "item" and V(z.args[1][0]) is users


def check_whitelist(ctx, be, path, name):
    user = pget(ctx.prog(), path, 1)
    ck = Log(ctx)
    outs = ctx.run(path, ck)
    n = {True: 0, False: 0}
    for v, st in outs:
        if not (v.op == "agg" and v.args[1] == "Ok"):
            continue
        for b, s2 in ctx.last.fork_bool(st.copy(), V(v.args[3][0])):
            n[b] += 1
            member = listed = None
            w = path
            for m in s2.aut or ():
                if m[0] != "cmd":
                    continue
                q, subj = question(m[1], name)
                if q is None:
                    continue
                f = fact_of(s2, m[1])
                w = m[2]
                if q == "member":
                    good = same_user(subj, user)
                    ctx.ob("asks-for-this-user", good, w, "the whitelist is searched for something else than the user: " + show(subj))
                    if good:
                        member = f or member
                else:
                    listed = f or listed
            if b:
                ctx.ob("admits-members-only", member == "yes" or listed == "no", w, "a user is reported as whitelisted that is not on the list")
            else:
                ctx.ob("rejects-non-members-only", member == "no" and listed != "no", w, "a user is reported as not whitelisted without the list saying so")
    ctx.need(n[True] and n[False], f"both answers of check_whitelist ({be})")


def same_user(z, user):
    z = V(z)
    while z.op in ("clone", "deref", "conv", "addr"):
        z = z.args[0]
    return z is user


def question(fut, name):
    """('list' | 'member', subject) of a whitelist query."""
    x = commands(fut)
    if x[0] == "redis":
        for c in x[2]:
            verb = (textual(c[0]) or "?").upper()
            key = textual(c[1]) if len(c) > 1 else None
            if key != name:
                return None, None
            if verb in ("SCARD", "EXISTS"):
                return "list", None
            if verb == "SISMEMBER":
                return "member", c[2]
        return None, None
    for s in x[1] or ():
        if s.verb != "select" or not s.ok:
            continue
        if s.table in ("sqlite_master", "sqlite_schema"):
            if textual(s.cond("name") or UNIT) == name and textual(s.cond("type") or mkstr("table")) == "table":
                return "list", None
        elif s.table == name:
            if not s.where:
                return "list", None
            if len(s.where) == 1 and s.where[0][1] == "=" and s.where[0][2] is not None:
                return "member", s.where[0][2]
    return None, None


@check("C09", "command dataflow over MIR (Redis commands, parsed SQL) for replacing and asking the whitelist, and path facts at the re-check that disconnects users")
def c09(ctx):
    g = ctx.graph()
    sets, chks = dict(methods(g, "set_whitelist")), dict(methods(g, "check_whitelist"))
    ctx.need(len(sets) >= 2 and set(sets) == set(chks), "both discovery backends")
    for be in sorted(sets):
        name = set_whitelist(ctx, be, sets[be])
        check_whitelist(ctx, be, chks[be], name)
    recheck(ctx, g)


WUSER = T("wit", "user")
AGAIN = 120000  # milliseconds: "about once a minute"


class Recheck(Rule):
    """Follows one arbitrary user that stays connected through the periodic re-check: the time between two checks of
    it, and that it is disconnected exactly when the list answered no for it."""

    witness = True
    events = ("DiscoveryClient::check_whitelist",)

    def extra_sinks(self, g):
        out = set()
        for b, i, f, t in g.calls(*MAP_REMOVE):
            if t[7] and session_map(g.prog, t[7][0]) == "user":
                out.add(b.path)
        return out

    def __init__(self, ctx):
        super().__init__(ctx)
        from .places import Places
        from .tasks import SLEEP, slept

        self.P, self.SLEEP, self.slept = Places(self.prog), SLEEP, slept
        self.asked = self.removed = self.waits = 0

    def wit_in(self, eng, st, coll):
        return self.P.table(coll) == "user"

    def wit_single(self, eng, st, coll):
        return True

    def wit_of(self, eng, st, coll):
        return wit_entry(coll, WUSER)

    # marks: how long ago the user was checked (None: too long) and the number of waits since; the last answer;
    # whether the user was disconnected since
    def get(self, st):
        m = {x[0]: x[1:] for x in st.aut or ()}
        return m.get("ago", (0, 0)), m.get("answer"), "gone" in m

    def set(self, st, ago, answer, gone):
        st.aut = tuple(m for m in st.aut or () if m[0] not in ("ago", "answer", "gone")) + (("ago",) + ago,) + ((("answer",) + answer,) if answer else ()) + ((("gone",),) if gone else ())

    def said_no(self, st, answer):
        """Did the list answer no?"""
        if answer is None or isinstance(answer[0], bool):
            return answer is not None and answer[0]
        no = any(k.syms and answer[0] in k.syms and f == ("B", False) for k, f in st.facts.items())
        return no and variant_of(st, answer[0]) != frozenset(["Err"])

    def on_loop(self, eng, st, frame, loop, head_):
        ago, answer, gone = self.get(st)
        if answer is not None:
            self.set(st, ago, (self.said_no(st, answer),), gone)

    def settle(self, eng, st, frame, block):
        ago, answer, gone = self.get(st)
        if self.said_no(st, answer):
            self.ctx.ob("unlisted-users-disconnected", gone, site(frame, block), "a user that is not on the whitelist stays connected")
        self.set(st, ago, None, False)

    def on_call(self, eng, c):
        st = c.st
        if len(c.args) > 1 and c.matches("HashMap::contains_key", "HashMap::get", *MAP_REMOVE):
            user = session_map(eng.prog, c.argtys[0]) == "user"
            key = under(eng.strip_ptr(st, c.args[1]))
            if user and c.matches(*MAP_REMOVE) and other(key):
                pass  # another user, for which the same holds
            elif user and c.matches(*MAP_REMOVE):
                self.removed += 1
                ago, answer, _ = self.get(st)
                good = key is WUSER and self.said_no(st, answer)
                self.ctx.ob("only-unlisted-users-disconnected", good, c.where(), "the whitelist re-check disconnects a user the list did not reject: " + show(key))
                self.set(st, ago, answer, True)
            elif user and key is WUSER:
                if c.matches("HashMap::contains_key"):
                    return [(TRUE, st)]
                return [(some(wit_entry(eng.strip_ptr(st, c.args[0]), key).args[0][1]), st)]
        return None

    def on_await(self, eng, st, fut, frame, block):
        w = site(frame, block)
        (ms, n), _, _ = self.get(st)
        if is_call(fut, "DiscoveryClient::check_whitelist"):
            if any(x is WUSER for x in walk(deep(eng, st, fut.args[1][1]))):
                self.settle(eng, st, frame, block)
                self.asked += 1
                self.set(st, (0, 0), (fut,), False)
        elif is_call(fut, *self.SLEEP):
            self.settle(eng, st, frame, block)
            self.waits += 1
            d = self.slept(fut)
            if ms is not None:
                ms = ms + d if d is not None and n < 4 and ms + d <= AGAIN else None
                self.ctx.ob("every-user-rechecked", ms is not None, w, "a connected user can go without a check against the whitelist for longer than two minutes")
            self.set(st, (ms, min(n + 1, 4)), None, False)


def other(key):
    """An element that is not the one followed."""
    key = under(key)
    while key.op == "fld":
        key = under(key.args[0])
    return key.op == "item"


def recheck(ctx, g):
    roots = [r for r in prod(g.roots(prod({b.path for b, _, _, _ in g.calls("DiscoveryClient::check_whitelist")}))) if "cdn_broker" in r]
    ctx.need(roots, "the broker's whitelist re-check")
    for r in roots:
        ck = Recheck(ctx)
        outs = ctx.run(r, ck)
        ctx.ob("recheck-never-ends", not outs, r, "the whitelist re-check ends")
        ctx.need(ck.asked, "whitelist queries about one arbitrary user")
        ctx.need(ck.removed, "disconnections in the re-check")
        ctx.ob("recheck-waits", ck.waits > 0, r, "the whitelist re-check does not wait between rounds")


# ---------------------------------------------------------------- registry
class Registry(Log):
    """Broker identifiers are printed and parsed as units; the last comparison of a path is remembered."""

    def on_call(self, eng, c):
        st = c.st
        if "BrokerIdentifier" in c.destty and c.destty.startswith(RESULT) and c.matches("TryFrom::try_from", "TryInto::try_into"):
            return [(eng.fresh(st, "parse-broker", (deep(eng, st, c.args[0]),), c.frame, c.block), st)]
        if c.matches("HashSet::remove", "BTreeSet::remove", "HashSet::take"):
            self.mark(st, ("removed", deep(eng, st, c.args[1])))
        if c.matches("HashSet::insert", "BTreeSet::insert", "Vec::push"):
            self.mark(st, ("inserted", deep(eng, st, c.args[1])))
        if c.matches("Iterator::collect") and c.args:
            from ..models import TABLE as models, to_iter

            it = to_iter(eng, st, c.args[0])
            if any(commands(x) for x in walk(eng.strip_ptr(st, it.args[0])) if x.op == "call"):
                outs = models["core::iter::traits::iterator::Iterator::collect"](eng, c)
                for v, s in outs:
                    if v.op != "agg" or v.args[1] != "Err":
                        # everything was taken
                        self.mark(s, ("end",))
                return outs
        if c.matches("Iterator::min_by_key"):
            from ..models import to_iter, next_item

            out = []
            for r, s in next_item(eng, c, to_iter(eng, st, c.args[0]), st, "mk"):
                if r is None:
                    out.append((NONE, s))
                    continue
                for k, s2 in eng.call_value(c.args[1], [T("addr", r)], s, c.frame, (c.block, "mk"), c.span):
                    self.mark(s2, ("min", r, deep(eng, s2, k)))
                    out.append((some(r), s2))
            return out
        return super().on_call(eng, c)

    def on_assume(self, eng, st, term, val, frame, block):
        if term.op == "cmp" and (sources(term.args[1]) or sources(term.args[2])):
            st.aut = tuple(m for m in st.aut or () if m[0] != "cmp") + (("cmp", term.args[0], term.args[1], term.args[2], val, site(frame, block)),)

    def on_next(self, eng, st, it, item, frame, block):
        src = eng.strip_ptr(st, it.args[0])
        if any(commands(x) for x in walk(src) if x.op == "call"):
            if any(k in PART for k, _ in it.args[1]) and any(k in ("part", "zip") for k, _ in it.args[1]):
                self.mark(st, ("part", site(frame, block)))
            if item is None:
                self.mark(st, ("end",))


def shallow(t):
    """Sub-terms, not looking into values of earlier iterations."""
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            if x.op != "stale":
                stack.extend(x.args)
        elif isinstance(x, (tuple, frozenset)):
            stack.extend(x)


def sources(t):
    """Commands whose answers t is computed from (including those of earlier iterations)."""
    return [x for x in walk(t) if x.op == "call" and commands(x)]


def subjects(t):
    """The registered brokers t is about: items (or items of earlier iterations) of the answer to a listing."""
    out = set()
    for x in shallow(t):
        if x.op == "item" or x.op == "stale" and x.args[0].op == "item":
            out.add(x)
        elif x.op == "stale":
            out |= {T("stale", y) for y in walk(x) if y.op == "item"}
    return out


def addends(t):
    t = narrow(t)
    if t.op == "bin" and t.args[0].startswith("Add"):
        return addends(t.args[1]) + addends(t.args[2])
    if t.op == "pure" and t.args[0].endswith(("::saturating_add", "::wrapping_add", "::checked_add")):
        return addends(t.args[1][0]) + addends(t.args[1][1])
    c, vs = okval(t)
    if vs and c.op == "pure" and c.args[0].endswith("::checked_add"):
        return addends(c)
    if t.op == "fld" and t.args[0].op == "bin":
        return addends(t.args[0])
    return [t]


REL = {"Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">=", "Eq": "=", "Ne": "<>"}


def self_id(t):
    """Is t this client's own identifier (or its printed form)?"""
    p = text(t)
    if len(p) == 1 and not isinstance(p[0], str):
        t = p[0]
    root, fs = fields(under(t))
    while root.op == "deref":
        root, more = fields(root.args[0])
        fs = more + fs
    return root.op == "param" and root.args[0] == "self" and [n for _, n in fs] == ["identifier"]


def keyshape(ps, is_broker):
    """A Redis key with the broker's identifier marked; None when something else is in it."""
    out = []
    for p in ps:
        if isinstance(p, str):
            out.append(p)
        elif is_broker(p):
            out.append(None)
        else:
            return None
    return tuple(out)


def kstr(k):
    return "".join("{broker}" if p is None else p for p in k) if k else str(k)


def heartbeat(ctx, prog, be, path):
    """What a heartbeat registers: (place of the list, place of the count)."""
    num, exp = pget(prog, path, 1), pget(prog, path, 2)
    ck = Registry(ctx)
    good = 0
    reg = None
    for v, st in ctx.run(path, ck):
        if not (v.op == "agg" and v.args[1] == "Ok"):
            continue
        good += 1
        listed = count = expires = None
        for m in st.aut or ():
            if m[0] != "cmd":
                continue
            w = m[2]
            x = commands(m[1])
            ctx.ob("heartbeat-succeeds-only-if-stored", succeeded(st, m[1]), w, "a heartbeat can succeed although a command failed")
            if x[0] == "redis":
                for c in x[2]:
                    verb = (textual(c[0]) or "?").upper()
                    if verb == "SADD":
                        ctx.ob("registers-itself", self_id(c[2]), w, "a heartbeat registers something else than this broker: " + show(c[2]))
                        listed = keyshape(text(c[1]), self_id)
                    elif verb == "EXPIREMEMBER":
                        ctx.ob("registration-expires", keyshape(text(c[1]), self_id) == listed and self_id(c[2]) and expiry_text(c[3], exp) == "as_secs", w, "the registration of this broker does not expire after the given time")
                        expires = True
                    elif verb in ("SET", "SETEX"):
                        rest = [textual(y) for y in c[3:]]
                        val, e = (c[2], c[3 + rest.index("EX") + 1] if "EX" in rest else None) if verb == "SET" else (c[3], c[2])
                        count = keyshape(text(c[1]), self_id)
                        tv = text(val)
                        ctx.ob("count-is-the-given-number", len(tv) == 1 and not isinstance(tv[0], str) and narrow(tv[0]) is num, w, "the stored number of connections is not the given one: " + show(val))
                        ctx.ob("count-expires", e is not None and expiry_text(e, exp) == "as_secs", w, "the stored number of connections does not expire after the given time")
                ctx.ob("heartbeat-is-atomic", x[1], w, "a heartbeat is not one atomic step")
            else:
                for s in x[1] or ():
                    if s.verb == "insert":
                        ctx.ob("heartbeat-refreshes", bool(s.flags & {"replace"}), w, "a second heartbeat of the same broker fails")
                        listed = s.table
                        cols = {c: y for c, y in s.values.items() if y is not None}
                        idc = [c for c, y in cols.items() if self_id(y)]
                        nc = [c for c, y in cols.items() if narrow(y) is num]
                        ec = [c for c, y in cols.items() if expires_at(y, exp)]
                        ctx.ob("registers-itself", idc == ["identifier"], w, "a heartbeat does not register this broker")
                        ctx.ob("count-is-the-given-number", nc == ["num_connections"], w, "the stored number of connections is not the given one")
                        ctx.ob("registration-expires", ec == ["expiry"], w, "the registration of this broker does not expire after the given time")
                        count, expires = "num_connections", True
        ctx.ob("heartbeat-registers", listed is not None and expires is not None, path, "a heartbeat can succeed without registering the broker for a limited time")
        ctx.ob("heartbeat-counts", count is not None, path, "a heartbeat can succeed without storing the number of connections")
        reg = (listed, count)
    ctx.need(good, f"the success path of perform_heartbeat ({be})")
    return reg


def listing(ctx, st, be, src, reg, w):
    """Does the command list the registered brokers?"""
    x = commands(src)
    if x[0] == "redis":
        return len(x[2]) == 1 and (textual(x[2][0][0]) or "").upper() == "SMEMBERS" and text(x[2][0][1]) == reg[0]
    if not x[1] or len(x[1]) != 1:
        return False
    s = x[1][0]
    if not (s.ok and s.verb == "select" and s.table == reg[0]):
        return False
    if any(c == "expiry" and o in (">", ">=") and v is not None and is_now(v) for c, o, v in s.where) and len(s.where) == 1:
        return True
    return not s.where and pruned_before(st, src, reg[0])


def pruned_before(st, fut, table):
    for m in st.aut or ():
        if m[0] != "cmd":
            continue
        if m[1] is fut:
            return False
        x = commands(unstale(m[1]))
        if x and x[0] == "sql" and any(expired_rows(q) == table for q in x[1] or ()) and (succeeded(st, m[1]) or m[1].op == "stale"):
            return True
    return False


def least(ctx, prog, be, path, reg, permits):
    ck = Registry(ctx)
    n = 0
    for v, st in ctx.run(path, ck):
        if v.op == "agg" and v.args[1] != "Ok":
            continue
        r = V(v.args[3][0]) if v.op == "agg" else v
        c, vs = okval(r)
        w = path
        if not is_call(c, "parse-broker"):
            ctx.ob("selects-a-registered-broker", False, w, "the selected broker is not parsed from the registry: " + show(r))
            continue
        t = under(c.args[1][0])
        subj = subjects(t)
        aut = st.aut or ()
        if not subj:
            # nothing was selected: this text must not parse as a broker
            ps = text(t)
            empty = t.op in ("str", "call", "lcoll") and (textual(t) in ("", None)) and (t.op != "call" or t.args[0].endswith("String::new"))
            ctx.ob("selects-a-registered-broker", empty, w, "the selected broker does not come from the registry: " + show(t))
            continue
        n += 1
        for x in subj:
            src = [y for y in walk(x) if y.op == "call" and commands(y)]
            ctx.ob("selects-a-registered-broker", len(src) == 1 and listing(ctx, st, be, src[0], reg, w), w, "the selected broker does not come from the list of live brokers")
        ctx.ob("every-broker-considered", ("end",) in aut and not any(m[0] == "part" for m in aut), w, "a broker can be selected before all were considered")
        cmps = [m for m in aut if m[0] in ("cmp", "min")]
        ctx.ob("selects-by-load", len(cmps) == 1, w, "a broker is selected without comparing loads")
        for m in cmps:
            if m[0] == "min":
                load(ctx, st, be, m[2], subj, reg, permits, w)
                ctx.ob("selects-least-loaded", subjects(m[1]) == subj, w, "the selected broker is not the least loaded one")
                continue
            _, op, a, b, val, w = m
            rel = set(REL[op]) if val else {"<", "=", ">"} - set(REL[op])
            sa, sb = subjects(a), subjects(b)
            if sa:
                load(ctx, st, be, a, sa, reg, permits, w)
            if sb:
                load(ctx, st, be, b, sb, reg, permits, w)
            both = sa and sb
            if both and (subj == sa or subj == sb):
                good = rel <= ({"<", "="} if subj == sa else {">", "="})
            elif sa and not sb:
                good = b.op == "int" and b.args[0] == (1 << 64) - 1 and subj == sa and "<" in rel
            elif sb and not sa:
                good = a.op == "int" and a.args[0] == (1 << 64) - 1 and subj == sb and ">" in rel
            else:
                good = False
            ctx.ob("selects-least-loaded", good, w, "the selected broker is not the one with the lower load")
    ctx.need(n, f"the selection of a broker ({be})")


def load(ctx, st, be, t, subj, reg, permits, w):
    """The load compared for a broker: its connections plus its outstanding permits."""
    conns = perms = other = 0
    for x in addends(t):
        x = unstale(x)
        src = [y for y in shallow(x) if y.op in ("call", "stale") and commands(unstale(y))]
        root, fs = fields(x)
        names = [nn for _, nn in fs]
        root = unstale(root)
        if root.op == "item" and names == ["num_connections"]:
            conns += 1
            continue
        hit = None
        for y in src:
            y = unstale(y)
            cm = commands(y)
            mine = lambda z: under(z).op in ("item", "stale", "fld") and bool({unstale(q) for q in subjects(under(z))} & {unstale(q) for q in subj})
            if cm[0] == "redis":
                for c in cm[2]:
                    verb = (textual(c[0]) or "?").upper()
                    k = keyshape(text(c[1]), mine)
                    if verb == "GET" and k == reg[1]:
                        hit = "conns"
                    elif verb == "SCARD":
                        hit = "perms"
                        written = permits is not None and k == permits
                        ctx.ob("counts-outstanding-permits", written, w, f"outstanding permits are counted under {kstr(k)}, where no permit is ever stored")
            elif cm[1] and len(cm[1]) == 1:
                s = cm[1][0]
                if s.ok and s.verb == "select" and s.table == "permits" and "count" in s.cols:
                    cond = [(c, o, vv) for c, o, vv in s.where]
                    if len(cond) == 1 and cond[0][0] == "identifier" and cond[0][1] == "=" and cond[0][2] is not None and mine(cond[0][2]):
                        hit = "perms"
                        ctx.ob("counts-live-permits", pruned_before(st, y, "permits") or any(unstale(mm[1]) is y and mm[1] is not y for mm in st.aut or () if mm[0] == "cmd"), w, "expired permits are counted as load")
        if hit == "conns":
            conns += 1
        elif hit == "perms":
            perms += 1
        else:
            other += 1
    ctx.ob("load-is-connections-plus-permits", (conns, perms, other) == (1, 1, 0), w, f"the compared load is not connections plus outstanding permits: {show(t)[:200]}")


def others(ctx, prog, be, path, reg):
    ck = Registry(ctx)
    n = 0
    for v, st in ctx.run(path, ck):
        if not (v.op == "agg" and v.args[1] == "Ok"):
            continue
        aut = st.aut or ()
        w = path
        for m in aut:
            if m[0] == "cmd":
                w = m[2]
        parsed = [x for x in shallow(v) if is_call(x, "parse-broker")]
        src = [x for x in shallow(v) if x.op == "call" and commands(x)]
        for m in aut:
            if m[0] == "inserted":
                parsed += [x for x in walk(m[1]) if is_call(x, "parse-broker")]
        for x in parsed:
            n += 1
            ls = [y for y in walk(x) if y.op == "call" and commands(y)]
            ctx.ob("others-are-registered", len(ls) == 1 and listing(ctx, st, be, ls[0], reg, w), w, "a broker is reported that is not on the list of live brokers")
        removed = any(m[0] == "removed" and self_id(m[1]) for m in aut)
        differs = all(any(self_id(a) or self_id(b) for (a, b), r in st.rel.items() if r <= frozenset("<>")) or any(f == ("B", False) and any(self_id(z) for z in walk(k) if z.op == "fld") for k, f in st.facts.items()) for x in parsed[:1])
        ctx.ob("others-exclude-self", removed or parsed and differs, w, "a broker can be told to connect to itself")
        ctx.ob("others-are-complete", ("end",) in aut and not any(m[0] == "part" for m in aut), w, "the list of other brokers can be incomplete")
    ctx.need(n, f"the list of other brokers ({be})")


class Ident(Rule):
    """How an identifier is printed and parsed."""

    opaque = ()

    def on_call(self, eng, c):
        st = c.st
        p = c.path
        if c.matches("str::split", "str::splitn", "str::split_terminator"):
            i = 2 if c.matches("str::splitn") else 1
            lim = c.args[1] if c.matches("str::splitn") else None
            return [(T("splititer", eng.strip_ptr(st, c.args[0]), deep(eng, st, c.args[i]), 0, lim), st)]
        if c.matches("str::split_once"):
            v, sep = eng.strip_ptr(st, c.args[0]), deep(eng, st, c.args[1])
            s2 = st.copy()
            return [(NONE, st), (some(tup(T("piece", v, sep, 0), T("piece", v, sep, 1))), s2)]
        if c.matches("Iterator::next", "Iterator::nth") and c.args:
            v = eng.strip_ptr(st, c.args[0])
            if v.op == "splititer":
                n = v.args[2]
                if c.matches("Iterator::nth"):
                    k = V(c.args[1])
                    n += k.args[0] if k.op == "int" else 99
                s2 = st.copy()
                eng.write_ptr(s2, c.args[0], T("splititer", v.args[0], v.args[1], n + 1, v.args[3]), c.frame, c.block)
                return [(NONE, st), (some(T("piece", v.args[0], v.args[1], n)), s2)]
        if c.matches("Iterator::collect") and c.args:
            v = eng.strip_ptr(st, c.args[0])
            if v.op == "splititer":
                return [(T("arr", tuple(T("piece", v.args[0], v.args[1], k) for k in range(2))), st), (T("arr", (T("piece", v.args[0], v.args[1], 0),)), st.copy())]
        if c.matches("Formatter::write_fmt", "Write::write_fmt", "fmt::write"):
            st.aut = (st.aut or ()) + (("w", deep(eng, st, c.args[1])),)
        if c.matches("Formatter::write_str", "Write::write_str", "Formatter::pad", "Formatter::write_char", "Write::write_char"):
            st.aut = (st.aut or ()) + (("w", deep(eng, st, c.args[1])),)
        if c.matches("Display::fmt") and len(c.args) > 1 and c.path not in eng.prog.bodies:
            st.aut = (st.aut or ()) + (("w", deep(eng, st, c.args[0])),)
        return None


def identifier_format(ctx, prog):
    pr = [p for p in prog.bodies if "BrokerIdentifier as " in p and path_is(p, "Display::fmt")]
    pa = [p for p in prog.bodies if "BrokerIdentifier as " in p and path_is(p, "TryFrom::try_from")]
    ctx.need(len(pr) == 1 and len(pa) >= 1, "printing and parsing of broker identifiers")
    shape = None
    for v, st in ctx.run(pr[0], Ident(ctx)):
        if v.op == "agg" and v.args[1] == "Err" or variant_of(st, v) == frozenset(["Err"]):
            continue
        ps = join([q for m in st.aut or () if m[0] == "w" for q in text(m[1])])
        names = []
        for q in ps:
            if isinstance(q, str):
                names.append(q)
            else:
                root, fs = fields(under(q))
                names.append((fs[-1][1],) if fs else ("?",))
        names = tuple(names)
        good = len(names) == 3 and isinstance(names[1], str) and {n[0] for n in names if not isinstance(n, str)} == {"public_advertise_endpoint", "private_advertise_endpoint"}
        ctx.ob("identifier-printed-with-both-endpoints", good, pr[0], f"a printed identifier is {names}")
        if good:
            shape = names
    if shape is None:
        ctx.need(False, "the printed form of broker identifiers")
        return
    a = prog.adts[[k for k in prog.adts if k.endswith("::BrokerIdentifier")][0]]
    order = [f[0] for f in a["variants"][0][2]]
    some_ = 0
    for p in pa:
        for v, st in ctx.run(p, Ident(ctx)):
            if not (v.op == "agg" and v.args[1] == "Ok"):
                continue
            x = V(v.args[3][0])
            if x.op != "agg":
                continue
            some_ += 1
            for i, want in ((0, shape[0][0]), (1, shape[2][0])):
                f = under(x.args[3][order.index(want)])
                f = under(f)
                sep = None
                if f.op == "piece":
                    s = V(f.args[1])
                    sep = chr(s.args[0]) if s.op == "int" else s.args[0] if s.op == "str" else None
                ctx.ob("identifier-parses-as-printed", f.op == "piece" and f.args[2] == i and sep == shape[1], p, f"parsing an identifier takes {show(f)[:80]} for its {want}")
    ctx.need(some_, "the success path of parsing an identifier")


def permit_sets(ctx, prog, g):
    """Redis sets of outstanding permits that issuing a permit adds to."""
    for be, path in methods(g, "issue_permit"):
        out = set()
        for v, st, log in explore(ctx, path, "default"):
            for m in log:
                x = commands(m[1])
                if x and x[0] == "redis":
                    for c in x[2]:
                        if (textual(c[0]) or "").upper() == "SADD":
                            b = pget(prog, path, 1)
                            out.add(keyshape(text(c[1]), lambda z: under(z) is b))
        yield be, (next(iter(out)) if len(out) == 1 else None)


@check("C10", "command dataflow over MIR (Redis commands, parsed SQL): what heartbeats write and selection reads, and the order relation on every path that picks a broker")
def c10(ctx):
    prog, g = ctx.prog(), ctx.graph()
    hb, ls, ot = dict(methods(g, "perform_heartbeat")), dict(methods(g, "get_with_least_connections")), dict(methods(g, "get_other_brokers"))
    ctx.need(len(hb) >= 2 and set(hb) == set(ls) == set(ot), "both discovery backends")
    ps = dict(permit_sets(ctx, prog, g))
    for be in sorted(hb):
        reg = heartbeat(ctx, prog, be, hb[be])
        if reg is None:
            continue
        least(ctx, prog, be, ls[be], reg, ps.get(be))
        others(ctx, prog, be, ot[be], reg)
    identifier_format(ctx, prog)
    from .tasks import heart

    heart(ctx)
