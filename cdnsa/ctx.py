"""What a check works with: programs, obligations, violations, evidence."""
import json
import os
import pickle
import re
import time
import traceback

from . import facts, mir
from .engine import Engine, Budget, shortfile
from .graph import Graph

VERIF = facts.VERIF


class Slice:
    """Which workspace bodies are analysed in context: those that can reach an event, and small helpers."""

    def __init__(self, graph, sinks, opaque=(), helpers=True, limit=60):
        self.g = graph
        self.reach = graph.callers(graph_sinks(graph, sinks))
        self.opaque = opaque
        self.helpers = helpers
        self.limit = limit

    def __call__(self, path, frame=None):
        if any(path_match(path, o) for o in self.opaque):
            return False
        if path in self.reach:
            return True
        return self.helpers


def path_match(path, name):
    from .engine import path_is

    return path_is(path, name)


def graph_sinks(graph, names):
    return {b.path for b, _, _, _ in graph.calls(*names)}


class Ctx:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.base = "default"
        self._progs = {}
        self._graphs = {}
        self.viol = {}
        self.obs = {}
        self.discharged = {}
        self.samples = {}
        self.bodies = set()
        self.n = {"roots": 0, "blocks": 0, "states": 0, "calls": 0}
        self.rootnames = []
        self.variants = []
        self.info = {}
        self.assumptions = []
        self.notes = []

    # ---- programs
    def prog(self, variant="default"):
        if variant == "default":
            variant = self.base
        p = self._progs.get(variant)
        if p is None:
            f, info = facts.extract(variant)
            p = mir.Program(f)
            p.variant = variant
            self._progs[variant] = p
            self.variants.append(variant)
            self.info[variant] = info
        return p

    def graph(self, variant="default"):
        if variant == "default":
            variant = self.base
        g = self._graphs.get(variant)
        if g is None:
            g = self._graphs[variant] = Graph(self.prog(variant))
        return g

    # ---- results
    def ob(self, rule, good, where="", msg="", key=None):
        """One obligation; a failed one is a violation. Counted once per (rule, where, key)."""
        k = (rule, str(where), key or "")
        self.obs[k] = self.obs.get(k, True) and bool(good)
        if len(self.samples) < 400:
            self.samples.setdefault(rule, set())
            if len(self.samples[rule]) < 6:
                self.samples[rule].add(clean_line(where))
        if not good:
            self.violate(rule + ("/" + key if key else ""), msg or rule, where)
        return good

    def violate(self, key, msg, where=""):
        k = f"{key}@{strip_closures(clean(where))}"
        if k not in self.viol:
            self.viol[k] = (msg, clean_line(where))

    def need(self, cond, what):
        """An anchor the rule speaks about must exist."""
        if not cond:
            self.violate("anchor:" + what, f"the analysis no longer finds: {what}", "")
        return bool(cond)

    def run(self, root, checker, variant="default", budget=3000000, aut=None, st=None):
        prog = self.prog(variant)
        e = Engine(prog, checker, budget=budget)
        outs = e.run_root(root, aut=aut, st=st)
        self.n["roots"] += 1
        self.n["blocks"] += e.stats["blocks"]
        self.n["states"] += e.stats["states"]
        self.n["calls"] += e.stats["calls"]
        self.bodies |= e.stats["bodies"]
        self.rootnames.append(root)
        self.last = e
        return outs

    # ---- many independent cases
    def shards(self, work, flags):
        """Runs work(mine) in several processes, where mine(k) tells whether the k-th case is for this one; what they
        found is put together. `flags` is a set of plain values that work() adds to."""
        n = min(8, os.cpu_count() or 1)
        if n < 2:
            work(lambda k: True)
            return
        kids = []
        for i in range(n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    try:
                        work(lambda k: k % n == i)
                        res = (None, self.viol, self.obs, self.samples, self.bodies, self.n, self.rootnames, flags)
                    except Budget as e:
                        res = (("budget", str(e)), self.viol, {}, {}, set(), dict.fromkeys(self.n, 0), [], set())
                    except BaseException as e:
                        res = (("error", traceback.format_exc()), {}, {}, {}, set(), dict.fromkeys(self.n, 0), [], set())
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(res, f)
                except BaseException:
                    code = 3
                os._exit(code)
            os.close(w)
            kids.append((pid, r))
        bad = None
        start = dict(self.n)
        for pid, r in kids:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            try:
                e, viol, obs, samples, bodies, cnt, names, fl = pickle.loads(data)
            except Exception:
                bad = bad or ("error", "a worker gave no answer")
                continue
            bad = bad or e
            for k, v in viol.items():
                self.viol.setdefault(k, v)
            for k, v in obs.items():
                self.obs[k] = self.obs.get(k, True) and v
            for k, v in samples.items():
                self.samples.setdefault(k, set()).update(v)
            self.bodies |= bodies
            for k in cnt:
                self.n[k] += max(0, cnt[k] - start[k])
            for x in names:
                if x not in self.rootnames:
                    self.rootnames.append(x)
            flags |= fl
        if bad:
            if bad[0] == "budget":
                raise Budget(bad[1])
            raise RuntimeError(bad[1])

    def evidence(self, violations, known, technique):
        rules = {}
        for (rule, where, key), good in self.obs.items():
            r = rules.setdefault(rule, {"obligations": 0, "discharged": 0})
            r["obligations"] += 1
            r["discharged"] += bool(good)
        tot = sum(r["obligations"] for r in rules.values())
        dis = sum(r["discharged"] for r in rules.values())
        return {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": "other",
            "coverage": {
                "explanation": technique,
                "obligations": tot,
                "discharged": dis,
                "rules": rules,
                "rule_sites": {k: sorted(v)[:6] for k, v in sorted(self.samples.items())},
                "functions_analysed": len(self.bodies),
                "roots": sorted(set(self.rootnames))[:40],
                "mir_blocks_interpreted": self.n["blocks"],
                "abstract_states": self.n["states"],
                "call_sites_interpreted": self.n["calls"],
                "feature_variants": self.variants,
                "source_hash": next(iter(self.info.values()))["hash"] if self.info else "",
                "notes": self.notes,
                "known_findings_reported": known,
            },
            "wall_s": round(time.time() - self.t0, 2),
            "violations": violations,
            "assumptions": BASE_ASSUMPTIONS + self.assumptions,
        }


BASE_ASSUMPTIONS = [
    "rustc's MIR (pre-state-transform, panics as the abort edge) is what runs; rustc and cargo are trusted",
    "external crates behave as their documented interfaces say (the models in cdnsa/models.py)",
    "jf-signature (a git dependency that is absent offline) is replaced by a type-only stub; its bodies are not analysed",
]


def clean(where):
    """A site without line numbers."""
    return re.sub(r":\d+ in ", " in ", str(where))


def clean_line(where):
    return str(where)


def strip_closures(s):
    return re.sub(r"(::\{closure#\d+\})+", "", s)


def site(frame, block, with_chain=False):
    b = frame.body
    while isinstance(block, tuple):
        block = block[0]
    sp = b.blocks[block][2] if isinstance(block, int) and 0 <= block < len(b.blocks) else b.span
    return f"{shortfile(sp[0])}:{sp[1]} in {b.path}"
