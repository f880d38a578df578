#!/usr/bin/env python3
"""Runs the static check of one property on the current source tree of /repo.

usage: check.py <property id> [--tier quick|thorough]
exit 0: the property's rules hold on everything analysed; 1: a VIOLATION line was printed;
2: the analysis could not be carried out (does not parse, an anchor vanished, a rule matched nothing).
"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
import facts  # noqa: E402
import engine  # noqa: E402
import common  # noqa: E402


def known():
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding:"):
                    # finding: property=<id> key=<rule|instance> :: <what fails>
                    head, _, what = line[len("finding:"):].partition(" :: ")
                    head = head.strip()
                    pid, _, key = head.partition(" key=")
                    out[(pid.split("=")[1].strip(), key.strip())] = what.strip()
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    ctx = None
    broken = None
    try:
        if tier == "thorough" and os.environ.get("SA_NOREBUILD") is None:
            facts.FRESH = True
        prog = engine.install(facts.load())
        mod = importlib.import_module("rules." + pid.lower())
        ctx = common.Ctx(prog, pid, tier)
        mod.check(ctx)
        ctx.finish_checks()
    except facts.AnalysisError as e:
        broken = str(e)
    except Exception:
        broken = traceback.format_exc()
    if broken is not None:
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, broken))
        if ctx is None or not ctx.violations:
            return 2
    kf = known()
    new, old = [], []
    for v in ctx.violations:
        k = (pid, v["rule"] + "|" + v["instance"])
        (old if k in kf else new).append((v, kf.get(k)))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    replay = os.path.join(HERE, "evidence", pid + ".violations.json")
    with open(replay, "w") as f:
        json.dump([v for v, _ in new], f, indent=1)
    cov = ctx.coverage()
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "other"), "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []) + common.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %s" % (pid, cov["explanation"]))
    for r, n in sorted(ctx.counts.items()):
        print("  rule %-34s instances %5d" % (r, n))
    if ctx.undet:
        print("  not decided: %d instance(s), listed in the evidence" % len(ctx.undet))
    seen = set()
    for v, what in old:
        if (v["rule"], v["instance"]) not in seen:
            seen.add((v["rule"], v["instance"]))
            print("KNOWN-FINDING: property=%s %s [%s %s]" % (pid, what, v["rule"], v["instance"]))
    for v, _ in new:
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        print("    %s: rule %s, instance %s: %s" % (v["loc"], v["rule"], v["instance"], v["msg"]))
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main())
