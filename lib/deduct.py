"""Runs the deductive engines of one property and merges their verdicts."""
import time
import kani, vengine

KANI = set(kani.FUNCS)


def engines(pid):
    e = []
    if pid in KANI:
        e.append(("kani", kani.run))
    if vengine.units(pid):
        e.insert(0, ("verus", vengine.run))
    return e


def run(pid, tier, skip=False):
    res = {"alarms": [], "undecided": [], "coverage": {}, "assumptions": [], "suspect": []}
    if skip:
        return res
    t0 = time.time()
    total = 520 if tier == "quick" else 640
    cov = {"obligations": 0, "discharged": 0, "solver_seconds": 0.0, "functions_under_contract": [], "contracts": [], "trusted_base": [], "checker_cmd": ""}
    cmds = []
    for name, f in engines(pid):
        r = f(pid, tier, max(60, total - (time.time() - t0)))
        res["alarms"] += r["alarms"]
        res["undecided"] += r["undecided"]
        res["assumptions"] += r["assumptions"]
        res["suspect"] += r.get("suspect", [])
        cov["obligations"] += r["obligations"]
        cov["discharged"] += r["discharged"]
        cov["solver_seconds"] = round(cov["solver_seconds"] + r["solver_s"], 2)
        cov["functions_under_contract"] += r["functions"]
        cov["contracts"] += r["units"]
        if r["cmd"]:
            cmds.append(r["cmd"])
    if cmds:
        cov["checker_cmd"] = " ; ".join(cmds)
        cov["trusted_base"] = res["assumptions"]
        cov["undecided"] = res["undecided"]
        res["coverage"] = cov
    return res
