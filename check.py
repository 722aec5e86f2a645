#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decides one property from /repo's current source."""
import importlib
import json
import os
import sys
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

from cdnsa import checks  # noqa: E402
from cdnsa.ctx import Ctx  # noqa: E402
from cdnsa.facts import FactsError  # noqa: E402
from cdnsa.engine import Budget  # noqa: E402

KNOWN = os.path.join(VERIF, "known_findings.txt")


def known(pid):
    out = {}
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.rstrip("\n")
                if line.startswith("finding: "):
                    head, _, what = line[len("finding: "):].partition(" :: ")
                    p, _, key = head.partition(" ")
                    if p == "property=" + pid and key.startswith("key="):
                        out[key[4:]] = what
    except OSError:
        pass
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    fn, technique = checks.get(pid)
    ctx = Ctx(pid, tier, seed)
    try:
        fn(ctx)
        if tier == "thorough":
            # the same rules over the program as the other features build it
            for ctx.base in ("global-permits", "eventual"):
                if not (ctx.base in ctx.variants and ctx.base == "global-permits"):
                    fn(ctx)
    except FactsError as e:
        print(f"ERROR property={pid}: {e}", file=sys.stderr)
        return 2
    except Budget as e:
        # what was found on the paths that were seen stands
        if not any(k not in known(pid) for k in ctx.viol):
            print(f"ERROR property={pid}: the analysis did not finish: {e}", file=sys.stderr)
            return 2
    kn = known(pid)
    new, old = {}, {}
    for k, v in ctx.viol.items():
        (old if k in kn else new)[k] = v
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not ctx.obs:
        new["no-obligations"] = ("the analysis found nothing to decide", "")
    ev = ctx.evidence(len(new), sorted(old), technique)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in sorted(old):
        print(f"KNOWN-FINDING: property={pid} {kn[k]} [{k}]")
    if new:
        rp = os.path.join(VERIF, "evidence", pid + ".violation.txt")
        with open(rp, "w") as f:
            f.write(f"property {pid}; decided from the source of {ctx.variants}\n")
            for k, (m, w) in sorted(new.items()):
                f.write(f"\n{k}\n  {m}\n  at {w}\n")
                print(f"  {m}\n    at {w}\n    key {k}")
            f.write(f"\nto see it again: cd /verif && ./check.py {pid} --tier {tier}\n")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    c = ev["coverage"]
    print(f"OK property={pid} obligations={c['obligations']} functions={c['functions_analysed']} roots={len(ctx.rootnames)} states={c['abstract_states']} wall={ev['wall_s']}s")
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
