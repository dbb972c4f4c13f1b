"""Run verification units by name (development aid)."""
import sys, importlib, time, os, subprocess
sys.path.insert(0, "/verif")
from pyvc.loader import Loader
from pyvc.unit import run_unit
from pyvc import solve
from pyvc.terms import Not
mod = importlib.import_module("contracts." + sys.argv[1])
want = sys.argv[2:]
ld = Loader(os.environ.get("REPO", "/repo"))
for u in mod.units():
    if want and u.name not in want:
        continue
    r = run_unit(ld, u, timeout=float(os.environ.get("T", "10")), log=print, cvc5=not os.environ.get("NOCVC"))
    print("==", u.name, "paths", r.kinds, "obls", len(r.obls), "failed", len(r.failed), "unsup", r.unsupported,
          "vacuous" if r.vacuous else "", "%.1fs" % r.secs)
    for n, x, o in r.failed:
        print("   FAIL", n, x.status, x.detail, o.where)
        if os.environ.get("DUMP"):
            for a in o.assumptions[int(os.environ.get("SKIP", "0")):]: print("      A", a)
            print("      G", o.goal)
        if os.environ.get("FMF"):
            fs, _, _ = solve.closure(r.I, list(o.assumptions) + [Not(o.goal)])
            p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=20000", "--finite-model-find", "--produce-models", "-"],
                               input="(set-logic ALL)\n" + solve.to_smt2(fs) + "\n(get-model)", capture_output=True, text=True)
            print(p.stdout[:6000])
