#!/usr/bin/env python3
"""check.py <property>: decides one property of /verif/properties.jsonl on /repo's working tree.

1. executable contracts on the real code (replay / bounded search for a counterexample);
2. the deductive engines: contracts woven into or generated from /repo's current source, discharged by
   Verus/Z3, Kani/CBMC or the real-arithmetic VC generator (see DESIGN.md).
Exit 0: held.  Exit 1 + VIOLATION line: broken."""
import json, os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import native
import registry
import deduct

VERIF = native.VERIF
EVID = os.path.join(VERIF, "evidence")


def main():
    pid = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    t0 = time.time()
    prop = registry.PROPS[pid]
    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join(EVID, "replay-%s.json" % pid)
    if os.path.exists(replay):
        os.remove(replay)

    native.build(pid)
    nat = native.run(pid, seed, tier, prop["files"], 400 if tier == "quick" else 780)
    if nat["status"] == "error":
        print("error: executable contracts of %s failed to run: %s" % (pid, json.dumps(nat)[:3000]))
        return 2
    violation = None
    if nat["status"] != "ok":
        violation = {"property": pid, "found_by": "executable contract on the real code", "result": nat}
    ded = deduct.run(pid, tier, skip=violation is not None)
    extra = []
    sure = [a for a in ded["alarms"] if a.get("confirmed")]
    if violation is None and sure:
        violation = {"property": pid, "found_by": "deductive verifier; counterexample replayed on the real code", "failed_obligations": ded["alarms"]}
    if violation is None and (ded["alarms"] or ded["suspect"]):
        # an obligation that is discharged on the unchanged tree now fails or cannot be decided: look harder for a failing input
        for s in range(seed + 101, seed + 101 + (4 if tier == "quick" else 8)):
            if time.time() - t0 > 420:
                break
            r = native.run(pid, s, "thorough", prop["files"], 200)
            extra.append({"seed": s, "status": r["status"], "evals": r.get("evals")})
            if r["status"] in ("fail", "crash"):
                violation = {"property": pid, "found_by": "executable contract on the real code, after a failed obligation",
                             "result": r, "failed_obligations": ded["alarms"], "undecided_obligations": ded["suspect"]}
                break
    tail = ""
    if violation is None and ded["alarms"]:
        violation = {"property": pid, "found_by": "deductive verifier", "failed_obligations": ded["alarms"],
                     "replay_search": extra}
        tail = " no-failing-input-found"

    cov = {
        "evaluations": nat.get("evals", 0),
        "distinct_nontrivial": nat.get("distinct", 0),
        "rule": "bounded stand-in/replay: executable contracts of the functions below on generated inputs (sizes, edge "
                "values, literals of the source ±1, random); distinct = distinct (function, input) pairs, of at most "
                "100000 per function; scalar sweeps are counted in evaluations only",
        "samples": nat.get("samples", []) or ["(run ended early)"],
        "native_per_function": nat.get("per_fn", {}),
        "native_exhaustive": nat.get("exhaustive", []),
    }
    cov.update(ded["coverage"])
    ev = {"property": pid, "tier": tier, "seed": seed, "level": prop["level"], "coverage": cov,
          "assumptions": prop.get("assumptions", []) + ded["assumptions"], "wall_s": round(time.time() - t0, 3),
          "violations": 0 if violation is None else 1}
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for u in ded["undecided"]:
        print("undecided (bounded stand-in only): %s" % u)
    if violation is not None:
        with open(replay, "w") as f:
            json.dump(violation, f, indent=1)
        print(json.dumps(violation, indent=1)[:3000])
        print("VIOLATION property=%s replay=%s%s" % (pid, replay, tail))
        return 1
    print("%s held: %d obligations discharged of %d, %d executable-contract evaluations, %.1f s" % (
        pid, cov.get("discharged", 0), cov.get("obligations", 0), cov["evaluations"], time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
