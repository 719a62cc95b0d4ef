#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decides one property for /repo's current tree."""
import argparse
import importlib
import json
import os
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "analysis"))
sys.setrecursionlimit(100000)
threading.stack_size(512 * 1024 * 1024)


def work(a, out):
    import build
    import core
    t0 = time.time()
    ctx = None
    try:
        ctx = core.Ctx()
    except build.BuildError as e:
        print(str(e)[-3000:])
        out["rc"] = 2
        return
    rc = 0
    for pid in a.ids:
        rc |= one(core, ctx, pid, a, t0)
        t0 = time.time()
    out["rc"] = rc


def one(core, ctx, pid, a, t0):
    ck = core.Check(pid, ctx)
    mod = importlib.import_module("rules." + pid.lower())
    mod.check(ck)
    known = core.known().get(pid, {})
    failed, seen = [], set()
    for o in ck.obs:
        if not o["ok"] and o["key"] not in seen:
            seen.add(o["key"])
            failed.append(o)
    viol = [o for o in failed if o["key"] not in known]
    for o in failed:
        if o["key"] in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[o["key"]]))
    evd = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(evd, exist_ok=True)
    replay = os.path.join(evd, pid + ".violations.txt")
    if viol:
        with open(replay, "w") as fh:
            for o in viol:
                fh.write("%s\n  at %s\n  %s\n\n" % (o["rule"], o["where"], o["detail"]))
    elif os.path.exists(replay):
        os.unlink(replay)
    for o in viol:
        print("  %s: %s: %s" % (o["rule"], o["where"], o["detail"][:1500]))
    for u in ck.und:
        print("  UNDECIDED %s: %s: %s" % (u["rule"], u["where"], u["why"]))
    rules = {}
    for o in ck.obs:
        rules.setdefault(o["rule"], [0, 0])
        rules[o["rule"]][0] += 1
        rules[o["rule"]][1] += o["ok"]
    distinct = {(o["rule"], o["where"]) for o in ck.obs}
    samples = [{k: o[k] for k in ("rule", "where", "ok")} for o in ck.obs[:: max(1, len(ck.obs) // 12)]][:14]
    ev = {"property": pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": {
              "explanation": (mod.__doc__ or "").strip(),
              "evaluations": len(ck.obs), "distinct_nontrivial": len(distinct),
              "rule": "one evaluation per obligation (a rule instance at a construct of /repo's source); distinct by rule and construct",
              "obligations": len(ck.obs), "discharged": sum(o["ok"] for o in ck.obs),
              "undecided": ck.und, "per_rule": {k: {"instances": v[0], "hold": v[1]} for k, v in sorted(rules.items())},
              "functions_in_crate": len(ctx.prog.fns), "functions_analysed": len(ck.seen), "counts": ck.counts,
              "analysed": sorted(ck.seen)[:200], "samples": samples,
              "violations": [{k: o[k] for k in ("rule", "where", "detail")} for o in viol][:20],
              "known_findings": [o["key"] for o in failed if o["key"] in known],
          },
          "assumptions": getattr(mod, "ASSUME", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(os.path.join(evd, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s: %d obligations, %d hold, %d undecided, %d functions analysed, %.1f s" % (
        pid, len(ck.obs), sum(o["ok"] for o in ck.obs), len(ck.und), len(ck.seen), time.time() - t0))
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="+")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    if a.ids == ["all"]:
        a.ids = [f[:-3].upper() for f in sorted(os.listdir(os.path.join(HERE, "analysis", "rules"))) if f.startswith("c") and f.endswith(".py")]
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    out = {"rc": 2}
    t = threading.Thread(target=work, args=(a, out))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out["rc"])


main()
