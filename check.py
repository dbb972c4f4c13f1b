#!/usr/bin/env python3-vt
"""Decide one property: verify the contracts of the functions it depends on, and try to falsify it.

usage: check.py PROPERTY            (VERIF_SEED, VERIF_TIER=quick|thorough)
       check.py --unit MODULE NAME  (internal: verify one function, print JSON)
"""
import concurrent.futures as cf
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
REPO = os.environ.get("REPO", "/repo")


def verify_unit(module, name, timeout):
    """Generate and discharge the obligations of one function; runs in its own process."""
    from pyvc.loader import Loader
    from pyvc.unit import run_unit
    mod = importlib.import_module("contracts." + module)
    u = [x for x in mod.units() if x.name == name][0]
    try:
        r = run_unit(Loader(REPO), u, timeout=timeout)
    except Exception as e:
        # the front end cannot represent the changed code: nothing is concluded
        import traceback
        return {"unit": name, "function": u.qual, "unsupported": "engine: %s" % traceback.format_exc()[-600:], "obls": [],
                "paths": 0, "vacuous": False, "secs": 0, "inlined": [], "contracts": [], "axioms": [], "missing": None}
    return {"unit": name, "function": u.qual, "unsupported": r.unsupported, "paths": r.paths, "vacuous": r.vacuous,
            "secs": round(r.secs, 2), "inlined": sorted(r.inlined), "contracts": sorted(r.contracts),
            "axioms": sorted(r.axioms),
            "obls": [{"name": n, "status": x.status, "solver": x.solver, "secs": round(x.secs, 3), "detail": x.detail,
                      "where": o.where} for n, x, o in r.obls]}


def run_unit_process(module, name, timeout, limit):
    try:
        p = subprocess.run(["python3-vt", os.path.join(HERE, "check.py"), "--unit", module, name, str(timeout)],
                           capture_output=True, text=True, timeout=limit, cwd=HERE)
        out = p.stdout.strip().splitlines()
        if p.returncode == 0 and out:
            return json.loads(out[-1])
        why = (p.stderr or "")[-600:]
    except subprocess.TimeoutExpired:
        why = "time limit of %d s" % limit
    return {"unit": name, "function": name, "unsupported": "engine: " + why, "obls": [], "paths": 0, "vacuous": False,
            "secs": 0, "inlined": [], "contracts": [], "axioms": []}


def falsify(prop, seed, budget, case=None, only=None):
    cmd = ["bash", os.path.join(HERE, "replay", "run.sh"), prop, "--seed", str(seed), "--budget", str(budget)]
    if case is not None:
        cmd += ["--case", str(case), "--only", only]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=budget * 6 + 120,
                           env=dict(os.environ, REPO=REPO, LIMIT=str(int(budget * 5 + 60))))
        out = [l for l in p.stdout.splitlines() if l.startswith("{")]
        if out:
            return json.loads(out[-1])
        return {"harness_errors": ["exit status %s: %s" % (p.returncode, (p.stderr or p.stdout)[-800:])], "evaluations": 0,
                "checks": {}, "violation": None, "skipped": 0}
    except subprocess.TimeoutExpired:
        return {"harness_errors": ["time limit"], "evaluations": 0, "checks": {}, "violation": None, "skipped": 0}


def confirmed(prop, v):
    """Does the failing case fail again?"""
    n = 0
    for _ in range(3):
        r = falsify(prop, v["seed"], 60, v["case"], v["check"])
        n += r["violation"] is not None
        if n >= 2:
            return True
    return False


def main():
    if sys.argv[1] == "--unit":
        print(json.dumps(verify_unit(sys.argv[2], sys.argv[3], float(sys.argv[4]))))
        sys.stdout.flush()
        os._exit(0)
    from contracts.registry import PROPS, TRUSTED
    prop = sys.argv[1]
    info = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    thorough = tier == "thorough"
    t0 = time.time()
    evd = os.path.join(HERE, "evidence")
    os.makedirs(evd, exist_ok=True)
    replay = os.path.join(evd, "replay-%s.json" % prop)
    if os.path.exists(replay):
        os.remove(replay)
    timeout = 60 if thorough else 20
    budget = 240 if thorough else info.get("budget", 20)
    nproc = 4
    units = info["units"]
    with cf.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(falsify, prop, "%d.%d" % (seed, i), budget) for i in range(nproc)] if info.get("cases", True) else []
        us = [ex.submit(run_unit_process, m, n, timeout, 500 if thorough else 300) for m, n in units]
        res = [u.result() for u in us]
        runs = [f.result() for f in fs]
    failed = [(r, o) for r in res for o in r["obls"] if o["status"] != "valid"]
    vacuous = [r for r in res if r["vacuous"] and not r["unsupported"]]
    unsup = [r for r in res if r["unsupported"]]
    viol = None

    def scan(runs):
        for r in runs:
            v = r["violation"]
            if v and confirmed(prop, v):
                return v
        return None
    viol = scan(runs)
    if viol is None and (failed or vacuous) and info.get("cases", True):
        # look harder for an input that shows the failed obligation on the real code
        with cf.ThreadPoolExecutor(8) as ex:
            more = list(ex.map(lambda i: falsify(prop, "%d.%d" % (seed, 100 + i), 200 if thorough else 90), range(7)))
        runs += more
        viol = scan(more)
    code = 0
    if viol is not None:
        json.dump({"property": prop, "kind": "failing input on the real code", "check": viol["check"], "seed": viol["seed"],
                   "case": viol["case"], "what": viol["what"],
                   "replay_cmd": "bash %s/replay/run.sh %s --seed %s --only %s --case %d" % (
                       HERE, prop, viol["seed"], viol["check"], viol["case"]),
                   "failed_obligations": [{"unit": r["unit"], "obligation": o["name"], "where": o["where"]} for r, o in failed]},
                  open(replay, "w"), indent=1)
        print("%s: %s" % (viol["check"], viol["what"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        code = 1
    elif failed or vacuous:
        json.dump({"property": prop, "kind": "proof obligation not discharged, no failing input found",
                   "failed_obligations": [{"unit": r["unit"], "function": r["function"], "obligation": o["name"],
                                           "where": o["where"], "solver": o["solver"], "output": o["detail"]} for r, o in failed],
                   "vacuous": [r["unit"] for r in vacuous]}, open(replay, "w"), indent=1)
        for r, o in failed[:10]:
            print("not discharged: %s: %s (%s) %s" % (r["unit"], o["name"], o["where"], o["detail"]))
        for r in vacuous:
            print("no path of %s can return" % r["unit"])
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
        code = 1
    obls = [o for r in res if not r["unsupported"] for o in r["obls"]]
    by = {}
    for o in obls:
        if o["status"] == "valid":
            by[o["solver"]] = by.get(o["solver"], 0) + 1
    errs = [e for r in runs for e in r["harness_errors"]]
    evaluations = sum(r["evaluations"] for r in runs)
    checks = {}
    for r in runs:
        for k, n in r["checks"].items():
            checks[k] = checks.get(k, 0) + n
    known = [l.strip() for l in open(os.path.join(HERE, "known-findings.txt"))
             if l.startswith("known: property=%s " % prop)] if os.path.exists(os.path.join(HERE, "known-findings.txt")) else []
    for l in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, l.split(" ", 2)[2]))
    if code == 0 and not obls and evaluations == 0:
        print("no obligation was generated and no case was run: %s" % (errs[:1] or [r["unsupported"] for r in unsup][:1]))
        code = 3
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": info.get("level", "proof"), "wall_s": round(time.time() - t0, 1),
        "violations": 1 if code == 1 else 0,
        "coverage": {
            "obligations": len(obls) + len(unsup), "discharged": sum(o["status"] == "valid" for o in obls),
            "checker_cmd": "python3-vt check.py %s" % prop,
            "by_solver": by, "solver_secs": round(sum(o["secs"] for o in obls), 2),
            "functions_under_contract": [{
                "unit": r["unit"], "function": r["function"], "paths": r["paths"], "obligations": len(r["obls"]),
                "secs": r["secs"], "bodies_verified_inline": r["inlined"][:20], "callee_contracts_used": r["contracts"][:40],
                "status": "outside the verified subset: " + r["unsupported"][:200] if r["unsupported"] else
                "vacuous" if r["vacuous"] else "discharged" if all(o["status"] == "valid" for o in r["obls"]) else "failed"}
                for r in res],
            "obligation_names": sorted({"%s: %s" % (r["unit"], o["name"]) for r in res for o in r["obls"]})[:150],
            "trusted_base": TRUSTED + sorted({a for r in res for a in r["axioms"]}),
            "bounded_stand_in": {
                "what": "the real code run on generated cases (bounded, never counted as proved)", "bounds": info.get("bounds", ""),
                "evaluations": evaluations, "cases_per_check": checks, "skipped": sum(r["skipped"] for r in runs),
                "stands_in_for": info.get("bounded", []) + [r["unit"] for r in unsup],
                "harness_errors": [e[-300:] for e in errs[:3]]},
        },
        "assumptions": info.get("assumptions", []),
    }
    if ev["level"] == "other":
        ev["coverage"]["explanation"] = info["explanation"]
    txt = json.dumps(ev, indent=1)
    if len(txt) > 60000:
        ev["coverage"]["obligation_names"] = ev["coverage"]["obligation_names"][:40]
        txt = json.dumps(ev)
    open(os.path.join(evd, prop + ".json"), "w").write(txt)
    print("%s: %d obligations, %d discharged (%s), %d functions, %d outside of the subset, %d bounded cases, %.1f s" % (
        prop, len(obls), ev["coverage"]["discharged"], by, len(res), len(unsup), evaluations, time.time() - t0))
    for e in errs[:2]:
        print("harness: " + e[-500:])
    sys.exit(code)


if __name__ == "__main__":
    main()
