"""Try to refute the assumptions of every verified path: a refutation without a branch condition is a mistake in a contract or an axiom."""
import sys, os, importlib, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from pyvc.loader import Loader
from pyvc.interp import Interp
from pyvc import unit, solve, values
secs, most = float(os.environ.get("T", "10")), int(os.environ.get("PATHS", "8"))
for m in sys.argv[1:]:
    mod = importlib.import_module("contracts." + m)
    for u in mod.units():
        unit.reset_names()
        I = Interp(Loader(os.environ.get("REPO", "/repo")), dict(u.contracts))
        I.cover = []
        values.ident_source = I.part_id
        f = I.loader.func(u.qual)
        if u.config:
            u.config(I)
        rets = []

        def thunk():
            I.cover = []
            k = u.body(I, f)
            rets.append((k, list(I.pc)))
            return k
        try:
            I.explore(thunk)
        except Exception as e:
            print(m, u.name, "not explored:", e)
            continue
        random.Random(1).shuffle(rets)
        rets.sort(key=lambda r: r[0] != "return")
        picked = [r for r in rets if r[0] == "return"][:most] + [r for r in rets if r[0] != "return"][:most]
        st = {}
        for k, pc in picked:
            fs, _, _ = solve.closure(I, [g for t, g in pc])
            tag = {g.get_id(): t for t, g in pc}
            s = z3.Solver()
            s.set("timeout", int(secs * 1000))
            for i, g in enumerate(fs):
                s.assert_and_track(g, "t%d" % i)
            r = str(s.check())
            if r == "unknown" and solve.cvc5_check(fs, secs) == "unsat":
                r = "unsat-cvc5"
            st[r] = st.get(r, 0) + 1
            if r == "unsat":
                core = [fs[int(str(c)[1:])] for c in s.unsat_core()]
                br = [c for c in core if tag.get(c.get_id()) == "b"]
                print(m, u.name, k, "REFUTED", "with %d branch conditions" % len(br))
                if not br or os.environ.get("DUMP"):
                    for c in core:
                        print("    CORE", str(c).replace("\n", " ")[:600])
        print(m, u.name, st, flush=True)
