"""Verification units: one function under contract each."""
import time
import traceback
import z3
from .terms import *
from .values import *
from .interp import Interp, SymbolicDict
from . import solve, values


class UnitResult:
    def __init__(self, name):
        self.name = name
        self.obls = []             # (name, Result, obl)
        self.unsupported = None
        self.paths = 0
        self.inlined, self.contracts, self.axioms = set(), set(), set()
        self.secs = 0.0
        self.missing = None
        self.vacuous = False
        self.kinds = {}

    @property
    def failed(self):
        return [(n, r, o) for n, r, o in self.obls if r.status != "valid"]


class Unit:
    """A function, the contract it is checked against, and the contracts it may use."""
    def __init__(self, name, qual, body, contracts=None, config=None, must_return=True):
        self.name, self.qual, self.body = name, qual, body
        self.contracts, self.config, self.must_return = contracts or {}, config, must_return


def run_unit(loader, u, timeout=10, cvc5=True, log=None):
    dicts = set()
    while True:
        try:
            return run_once(loader, u, timeout, cvc5, log, dicts)
        except SymbolicDict as e:
            if e.node in dicts:
                raise
            dicts.add(e.node)


def run_once(loader, u, timeout, cvc5, log, dicts):
    res = UnitResult(u.name)
    t0 = time.time()
    reset_names()
    I = Interp(loader, dict(u.contracts))
    I.symbolic_dicts = dicts
    I.cover = []
    values.ident_source = I.part_id
    try:
        f = loader.func(u.qual)
        if f is None or isinstance(f, Opaque):
            raise Unsupported("%s not found or not supported: %r" % (u.qual, f))
        if u.config:
            u.config(I)
        rets = []

        def thunk():
            I.cover = []
            kind = u.body(I, f)
            rets.append((kind, list(I.pc)))
            return kind
        I.explore(thunk)
        res.paths = len(rets)
        for k, pc in rets:
            res.kinds[k] = res.kinds.get(k, 0) + 1
    except (Unsupported, RecursionError) as e:
        res.unsupported = "%s%s" % (e, " at %s" % I.where() if I.stack else "")
        if log:
            log(traceback.format_exc())
        res.secs = time.time() - t0
        return res
    except z3.Z3Exception as e:
        res.unsupported = "z3: %s" % e
        if log:
            log(traceback.format_exc())
        res.secs = time.time() - t0
        return res
    seen, proved, failed, counted = {}, {}, 0, set()
    for o in I.obls:
        key = (o.name, o.goal.get_id(), tuple(sorted(a.get_id() for a in o.assumptions)))
        if key in seen:
            continue
        seen[key] = o
        part = solve.relevant(o) if not getattr(o, "pinned", False) else list(o.assumptions)
        pkey = (o.goal.get_id(), tuple(sorted(a.get_id() for a in part)))
        if is_true(z3.simplify(o.goal)):
            pkey = True
        if pkey in proved:
            r = proved[pkey]
            if (o.name, pkey) in counted:
                continue
        elif failed >= 3:
            r = solve.Result("skipped", "none", 0, "not tried after three failures")
        elif getattr(o, "result", None) is not None:
            r = o.result
            proved[pkey] = r
        else:
            r = solve.discharge(I, o, timeout, cvc5, part)
            if r.status == "valid":
                proved[pkey] = solve.Result("valid", r.solver, 0.0, "same as before")
            else:
                failed += 1
        if log and r.status not in ("valid", "skipped"):
            log("FAILED %s: %s %s" % (o.name, r.status, r.detail))
        counted.add((o.name, pkey))
        res.obls.append((o.name, r, o))
    # no path may be verified vacuously
    if u.must_return:
        ok = False
        for k, pc in rets:
            if k != "return":
                continue
            fs, _, _ = solve.closure(I, [f for t, f in pc])
            r, _ = solve.z3_check(fs, 2)
            if r != z3.unsat:
                ok = True
                break
        res.vacuous = not ok
    res.inlined, res.contracts = set(I.inlined), set(I.used_contracts)
    res.axioms = getattr(I, "axiom_texts", set())
    res.secs = time.time() - t0
    res.I = I
    return res
