"""Induction over the iterations of a loop.

The iterations of a summarised loop are finitely many and strictly ordered, so a statement about all of them holds
if it holds for the first one and carries over from each one to the next. Both halves are proof obligations; only
when they are discharged is the statement added to the assumptions of the obligations that follow.
"""
import contextlib
import z3
from .terms import *
from .interp import Obl
from . import solve


def lemma(I, name, goal, using=None, timeout=5):
    """Prove the goal from the assumptions given (all if none are); assume and count it only if it is valid."""
    o = Obl(name, list(using) if using is not None else [f for t, f in I.pc if t != "s"], goal, I.where(), list(I.ctx), "lemma")
    r = solve.discharge(I, o, timeout, False, solve.relevant(o) if using is None else None)
    if r.status != "valid":
        return False
    o.result = r
    if I.collect:
        I.obls.append(o)
    I.assume(goal)
    return True


class Iteration:
    """The iterations of a loop over one path each."""
    def __init__(self, q, lt, locs, named, normal, bc):
        self.cases = named
        self.some = disj([bc(r) for r in normal])
        self.q, self.lt, self.locs = q, lambda a, b: lt([a], [b]), locs
        x = q.xs[0]
        self.guard = lambda e: z3.substitute(q.guard, (x, e))

    def scalars(self, sort):
        """The scalar variables of the loop as functions of the iteration."""
        return [l.decl[0] for l in self.locs
                if l.kind == "scalar" and l.steps and len(l.decl) == 1 and l.decl[0].range() == sort]

    def sets(self):
        return [l.decl for l in self.locs if l.kind in ("set", "reset") and l.decl is not None and not l.unsup
                and l.decl.arity() == 2 and l.decl.domain(1) == P]

    def next_at(self, decl, a, b):
        """The value at b from that at a, the iteration right before."""
        return [l.next_at([a], [b]) for l in self.locs if l.kind == "scalar" and l.steps and l.decl[0].eq(decl)][0]

    def last_at(self, decl, a, v):
        """The value after the loop from that at a, the last iteration."""
        return [l.last_at([a], [v]) for l in self.locs if l.kind == "scalar" and l.steps and l.decl[0].eq(decl)][0]

    def ends(self, decl, v):
        return [l.last([v]) for l in self.locs if l.kind == "scalar" and l.steps and l.decl[0].eq(decl)][0]

    def steps(self):
        return [f for l in self.locs if l.kind == "scalar" and l.steps for f in l.steps]


def iterations(I, sort=P):
    return [Iteration(*l) for l in I.loops if len(l[0].xs) == 1 and l[0].xs[0].sort() == sort]


def order_facts(dom, lt):
    """A finite strict total order has a last element."""
    x, y, z = const("x", P), const("y", P), const("z", P)
    last = const("last", P)
    return [imp(exists([x], dom(x)), conj([dom(last), forall([x], imp(dom(x), neg(lt(last, x))))])),
            forall([x], neg(lt(x, x))),
            z3.ForAll([x, y, z], Implies(And(lt(x, y), lt(y, z)), lt(x, z))),
            z3.ForAll([x, y], Implies(And(dom(x), dom(y)), Or(lt(x, y), lt(y, x), x == y)))]


def greatest(dom, lt, what, *params):
    """Whatever part of a finite total order is not empty has a last element."""
    x, m = const("x", P), const("m", P)
    p = lambda e: conj([dom(e), what(e)])
    return forall(list(params), imp(exists([x], p(x)), exists([m], conj([p(m), forall([x], imp(p(x), neg(lt(m, x))))]))))


def induction(I, name, dom, lt, phi, using, timeout=5, step=None, first=None):
    """Prove phi(x) for all x in dom along the finite strict total order lt.

    first(x, hypotheses) and step(x, y, hypotheses) may give facts that they have proved from the hypotheses."""
    x, y, z = I.fresh("ix", P), I.fresh("iy", P), const("z", P)
    hyp = list(using) + [dom(x), forall([z], imp(dom(z), neg(lt(z, x))))]
    if first:
        hyp += first(x, hyp)
    if not lemma_only(I, name + " (first)", phi(x), hyp, timeout):
        return False
    hyp = list(using) + [dom(x), dom(y), lt(x, y), forall([z], neg(conj([dom(z), lt(x, z), lt(z, y)]))),
                         phi(x), forall([z], imp(conj([dom(z), lt(z, y)]), phi(z)))]
    if step:
        hyp += step(x, y, hyp)
    if not lemma_only(I, name + " (next)", phi(y), hyp, timeout):
        return False
    using.append(forall([x], imp(dom(x), phi(x))))
    I.assume(using[-1])
    return True


def linear(terms, op=lambda a: a == 0, x=None):
    """A law of finite sums: what holds for the contributions of each element holds for the sums.

    terms are (coefficient, guard of e, contribution of e, sum)."""
    e = const("e", P)
    part = z3.Sum([c * If(g(e), d(e), IntVal(0)) for c, g, d, s in terms])
    return imp(forall([e], op(part)), op(z3.Sum([c * s for c, g, d, s in terms])))


def lemma_only(I, name, goal, using, timeout):
    o = Obl(name, list(using), goal, I.where(), list(I.ctx), "lemma")
    r = solve.discharge(I, o, timeout, False)
    if r.status != "valid":
        return False
    o.result = r
    if I.collect:
        I.obls.append(o)
    return True


def oblige_from(I, name, goal, using):
    """An obligation from the given assumptions only."""
    if I.collect:
        o = Obl(name, list(using), goal, I.where(), list(I.ctx), "post")
        o.pinned = True
        I.obls.append(o)


class Unproved(Exception):
    pass


class Proof:
    """A proof in steps: each fact is discharged from the facts before it."""
    def __init__(self, I, hyp, timeout=5):
        self.I, self.hyp, self.timeout, self.got = I, list(hyp), timeout, []

    def have(self, name, goal, only=None):
        if not lemma_only(self.I, name, goal, self.hyp if only is None else only, self.timeout):
            raise Unproved(name)
        self.hyp.append(goal)
        self.got.append(goal)
        return goal

    def sums(self, name, terms, op=lambda a: a == 0):
        """Use a law of finite sums: the premise is proved."""
        law = linear(terms, op)
        if law.decl().kind() == z3.Z3_OP_IMPLIES:
            if not lemma_only(self.I, name, law.arg(0), self.hyp, self.timeout):
                raise Unproved(name)
            law = law.arg(1)
        self.hyp.append(law)
        self.got.append(law)
        return law


def holds(I, goal, using, timeout=2):
    """Whether the goal is provable: only to find out which lemmas to prove."""
    o = Obl("", list(using), goal, I.where(), [], "lemma")
    fs, texts, names = solve.closure(I, list(using) + [Not(goal)])
    return solve.z3_check(fs, timeout)[0] == z3.unsat


@contextlib.contextmanager
def only(I, defs=(), sums=()):
    """Definitions and laws of sums that are not needed are left out."""
    saved = I.defs, I.sums
    I.defs = {n: d for n, d in saved[0].items() if n in defs}
    I.sums = {n: d for n, d in saved[1].items() if n in sums}
    try:
        yield
    finally:
        for n, d in I.defs.items():
            saved[0][n] = d
        for n, d in I.sums.items():
            saved[1][n] = d
        I.defs, I.sums = saved


def unproved(I, name):
    """Record an obligation that was tried without success."""
    if I.collect:
        o = Obl(name, [], FF, I.where(), list(I.ctx), "lemma")
        o.result = solve.Result("unknown", "z3", 0.0, "no proof found")
        I.obls.append(o)
