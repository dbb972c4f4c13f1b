"""Discharging obligations with z3 and cvc5."""
import subprocess
import time
import os
import z3
from .terms import *
from .interp import has_quant


def strip_ctx(e):
    return e


def closure(I, formulas, extra_defs=True):
    """All definitions, sum lemmas and axioms relevant to the formulas."""
    names, fs = set(), []
    todo = list(formulas)
    seen_defs, seen_sums = set(), set()
    while todo:
        for f in todo:
            decls_of(f, names)
            fs.append(f)
        todo = []
        sums = {n for n in names if n in I.sums}
        if sums - seen_sums:
            # the laws mention what is summed up
            todo.extend(I.sum_lemmas(sums))
            fs = [f for f in fs if f.get_id() not in {t.get_id() for t in todo}]
            seen_sums |= sums
        for n in list(names):
            if n in I.defs and n not in seen_defs:
                seen_defs.add(n)
                todo.extend(I.defs[n])
    ax, texts = relevant_axioms(names)
    return fs + ax, texts, names


def string_laws(fs):
    """Instances of laws about decimal numerals: they are injective and consist of digits."""
    terms, seen = {}, set()
    todo = list(fs)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            continue
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_INT_TO_STR:
                terms[t.get_id()] = t
            todo.extend(t.children())
    ts, out = list(terms.values()), []
    used = {c for f in fs for c in literal_chars(f)}
    for i, t in enumerate(ts):
        for c in sorted(used - set("0123456789")):
            out.append(Not(z3.Contains(t, z3.StringVal(c))))
        out.append(Implies(t.arg(0) >= 0, z3.Length(t) > 0))
        for u in ts[i + 1:]:
            out.append(Implies(And(t == u, t.arg(0) >= 0, u.arg(0) >= 0), t.arg(0) == u.arg(0)))
    # numerals become unknown strings that obey these laws
    pr = [(t, z3.String("numeral!%d" % i)) for i, t in enumerate(ts)]
    return [z3.substitute(f, *pr) for f in fs + out] if pr else fs


def literal_chars(f):
    """The characters that literals start or end with."""
    out, todo, seen = set(), [f], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_string_value(t):
            v = t.as_string()
            if v and not v.startswith("\\u") and len(v) < 40:
                out |= {v[0], v[-1]} if v[-1] != "}" else {v[0]}
        elif z3.is_app(t):
            todo.extend(t.children())
    return {c for c in out if c.isprintable()}


class Result:
    def __init__(self, status, solver, secs, detail=""):
        self.status, self.solver, self.secs, self.detail = status, solver, secs, detail


def z3_check(fs, timeout, seed=0, opts=None):
    s = z3.Solver()
    s.set("timeout", int(timeout * 1000))
    if seed:
        s.set("random_seed", seed)
    for k, v in (opts or {}).items():
        s.set(k, v)
    s.add(*fs)
    r = s.check()
    return r, s


def to_smt2(fs):
    s = z3.Solver()
    s.add(*fs)
    # to_smt2() does not rename nested bound variables of the same name
    return s.sexpr() + "\n(check-sat)\n"


def cvc5_check(fs, timeout):
    txt = to_smt2(fs)
    txt = "(set-logic ALL)\n" + txt
    try:
        p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % int(timeout * 1000), "--full-saturate-quant", "--strings-exp", "-"],
                           input=txt, capture_output=True, text=True, timeout=timeout + 5)
    except subprocess.TimeoutExpired:
        return "unknown"
    out = p.stdout.strip().splitlines()
    return out[0] if out else "unknown"


COMMON = {"path_join", "under", "dirname", "basename", "None", "depth", "relpath", "str_lt", "startswith", "text_concat",
          "dir_entry", "in_tree", "entry_of", "lstat", "islink", "isdir", "isdir_nf", "isfile_nf"}


def relevant(obl):
    """The assumptions connected with the goal by the symbols they mention."""
    own = lambda e: {n for n in decls_of(e) if n not in COMMON and not n.startswith("lit:")}
    names, out = own(obl.goal), []
    todo = [(a, own(a)) for a in obl.assumptions]
    changed = True
    while changed:
        changed, rest = False, []
        for a, n in todo:
            if not n or n & names:
                out.append(a)
                names |= n
                changed = True
            else:
                rest.append((a, n))
        todo = rest
    return out


def discharge(I, obl, timeout=10, cvc5=True, part=None):
    t0 = time.time()
    goal = obl.goal
    if is_true(z3.simplify(goal)):
        return Result("valid", "simplifier", time.time() - t0)
    for a in obl.assumptions:
        if a.eq(goal):
            return Result("valid", "simplifier", time.time() - t0)
    if not any(has_quant(a) for a in list(obl.assumptions) + [goal]):
        # ground arithmetic needs no axioms
        r, s = z3_check(list(obl.assumptions) + [Not(goal)], 1)
        if r == z3.unsat:
            return Result("valid", "z3", time.time() - t0)
    fs, texts, names = closure(I, list(obl.assumptions) + [Not(goal)])
    nombqi = {"mbqi": False}
    if part is not None and len(part) < len(obl.assumptions) and I.strsort == P:
        # first with the assumptions connected with the goal
        ps, ptexts, _ = closure(I, list(part) + [Not(goal)])
        ok = lambda solver: Result("valid", solver, time.time() - t0)
        I.axiom_texts = getattr(I, "axiom_texts", set()) | set(ptexts)
        r, s = z3_check(ps, min(timeout, 1.5))
        if r == z3.unsat:
            return ok("z3")
        if r != z3.sat:
            if cvc5 and cvc5_check(ps, min(timeout, 1)) == "unsat":
                return ok("cvc5")
            r, s = z3_check(ps, min(timeout, 2), seed=7, opts=nombqi)
            if r == z3.unsat:
                return ok("z3")
            if r != z3.sat and cvc5 and cvc5_check(ps, min(timeout, 3)) == "unsat":
                return ok("cvc5")
    if I.strsort != P:
        n = len(fs)
        fs = string_laws(fs)
        if len(fs) > n:
            texts = list(texts) + ["decimal numerals are injective and consist of digits"]
    I.axiom_texts = getattr(I, "axiom_texts", set()) | set(texts)
    strings = I.strsort != P
    r, s = z3_check(fs, min(timeout, 2 if strings else 5))
    if r == z3.unsat:
        return Result("valid", "z3", time.time() - t0)
    detail = "z3: %s (%s)" % (r, s.reason_unknown() if r == z3.unknown else "")
    model = None
    if r == z3.sat:
        model = s.model()
    if r == z3.unknown and cvc5:
        if cvc5_check(fs, timeout if strings else min(timeout, 3)) == "unsat":
            return Result("valid", "cvc5", time.time() - t0)
    if r == z3.unknown:
        r2, s2 = z3_check(fs, timeout, seed=7, opts=nombqi)
        if r2 == z3.unsat:
            return Result("valid", "z3", time.time() - t0)
        if cvc5:
            c = cvc5_check(fs, timeout)
            if c == "unsat":
                return Result("valid", "cvc5", time.time() - t0)
            detail += "; cvc5: " + c
    res = Result("sat" if model is not None else "unknown", "z3", time.time() - t0, detail)
    res.model = model
    return res
