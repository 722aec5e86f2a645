"""Call graph over the extracted MIR: resolved calls, trait dispatch by class hierarchy, closures, spawned tasks."""
from .engine import path_is

SPAWNS = ("tokio::task::spawn::spawn", "tokio::runtime::handle::Handle::spawn", "tokio::task::join_set::JoinSet::spawn")


def op_fn(o):
    k = o.get("k")
    return k.get("fn") if k else None


def local_of(o):
    p = o.get("m") or o.get("c")
    return p[0] if p and len(p) == 1 else None


class Graph:
    def __init__(self, prog, tests=False):
        self.prog = prog
        self.out = {}
        self.inn = {}
        self.sites = {}  # callee path/decl -> [(body, block, fn, term)]
        self.spawned = {}  # coroutine path -> [(body, block)]
        for b in prog.bodies.values():
            outs = set()
            for i, (st, t, sp, cl) in enumerate(b.blocks):
                for s in st:
                    if s[0] == "=":
                        r = s[2]
                        if r[0] == "agg" and r[1][0] in ("closure", "coroutine"):
                            outs.add(r[1][1])
                        for o in self.rops(r):
                            f = op_fn(o)
                            if f:
                                outs |= self.targets(f)
                if t[0] == "call":
                    f = op_fn(t[1])
                    if f:
                        outs |= self.targets(f)
                        for n in {f["p"], f.get("r") or f["p"]}:
                            self.sites.setdefault(n, []).append((b, i, f, t))
                    for o in t[2]:
                        g = op_fn(o)
                        if g:
                            outs |= self.targets(g)
                    if f and (f.get("r") or f["p"]) in SPAWNS:
                        for c in self.future_of(b, t[2][-1]):
                            self.spawned.setdefault(c, []).append((b, i))
            self.out[b.path] = outs
            for o in outs:
                self.inn.setdefault(o, set()).add(b.path)

    def rops(self, r):
        if r[0] in ("use", "rep"):
            return [r[1]]
        if r[0] == "agg":
            return r[2]
        if r[0] == "cast":
            return [r[2]]
        return []

    def targets(self, f):
        r = f.get("r") or f["p"]
        if r in self.prog.bodies:
            return {r}
        out = set()
        for p in {f["p"], r}:
            for _, m in self.prog.impl_methods.get(p, ()):
                if m in self.prog.bodies:
                    out.add(m)
            if p in self.prog.bodies:
                out.add(p)
        return out

    def future_of(self, b, o):
        """The coroutines a spawned operand may hold."""
        l = local_of(o)
        res = set()
        seen = set()
        work = [l]
        while work:
            l = work.pop()
            if l is None or l in seen:
                continue
            seen.add(l)
            for st, t, sp, cl in b.blocks:
                for s in st:
                    if s[0] == "=" and s[1] == [l]:
                        r = s[2]
                        if r[0] == "agg" and r[1][0] == "coroutine":
                            res.add(r[1][1])
                        elif r[0] == "use":
                            work.append(local_of(r[1]))
                        elif r[0] == "cast":
                            work.append(local_of(r[2]))
                if t[0] == "call" and t[3] == [l]:
                    f = op_fn(t[1])
                    if f:
                        tg = self.targets(f)
                        if not tg:
                            for a in t[2]:
                                work.append(local_of(a))
                        for x in tg:
                            body = self.prog.bodies[x]
                            for st2, t2, _, _ in body.blocks:
                                for s2 in st2:
                                    if s2[0] == "=" and s2[2][0] == "agg" and s2[2][1][0] == "coroutine":
                                        res.add(s2[2][1][1])
        return res

    def calls(self, *names):
        """Call sites whose declared or resolved callee matches."""
        out, seen = [], set()
        for p, l in self.sites.items():
            if any(path_is(p, n) for n in names):
                for x in l:
                    k = (x[0].path, x[1])
                    if k not in seen:
                        seen.add(k)
                        out.append(x)
        return out

    def callers(self, paths):
        """All bodies from which one of the paths is reachable (including themselves)."""
        seen = set(paths)
        work = list(paths)
        while work:
            p = work.pop()
            for q in self.inn.get(p, ()):
                if q not in seen:
                    seen.add(q)
                    work.append(q)
        return seen

    def reach(self, paths):
        seen = set(paths)
        work = list(paths)
        while work:
            p = work.pop()
            for q in self.out.get(p, ()):
                if q not in seen:
                    seen.add(q)
                    work.append(q)
        return seen

    def roots(self, sinks):
        """Entry points whose analysis covers the sink bodies: spawned tasks and functions nobody calls."""
        seen, roots = set(sinks), set()
        work = list(sinks)
        while work:
            p = work.pop()
            if p in self.spawned:
                roots.add(p)
                continue
            ins = [q for q in self.inn.get(p, ()) if q != p]
            if not ins:
                roots.add(p)
            for q in ins:
                if q not in seen:
                    seen.add(q)
                    work.append(q)
        return sorted(roots)
