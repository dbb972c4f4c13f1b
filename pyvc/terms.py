"""z3 helpers: sorts, fresh symbols, quantifiers, trusted path theory."""
import itertools
import z3
from z3 import (And, Or, Not, Implies, BoolVal, IntVal, RealVal, Const, Function,
                ForAll, Exists, If, BoolSort, IntSort, RealSort, is_true, is_false)

# z3 terms are immutable: copying a program state must not copy them.
z3.AstRef.__deepcopy__ = lambda self, memo: self
z3.AstRef.__copy__ = lambda self: self

P = z3.DeclareSort("Str")          # strings and paths (uninterpreted)
B, INT, REAL = BoolSort(), IntSort(), RealSort()
TT, FF = BoolVal(True), BoolVal(False)

_counter = itertools.count()


def uid():
    return next(_counter)


def reset_names():
    """Restart the numbering of generated symbols (per unit, for stable output)."""
    global _counter
    _counter = itertools.count(1000)  # apart from names made at import


def const(hint, sort):
    return Const("%s!%d" % (hint, uid()), sort)


def func(hint, *sorts):
    return Function("%s!%d" % (hint, uid()), *sorts)


def simp(e):
    if isinstance(e, bool):
        return BoolVal(e)
    return z3.simplify(e)


def conj(xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return FF
            continue
        if is_true(x):
            continue
        if is_false(x):
            return FF
        out.append(x)
    return TT if not out else out[0] if len(out) == 1 else And(*out)


def disj(xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return TT
            continue
        if is_true(x):
            return TT
        if is_false(x):
            continue
        out.append(x)
    return FF if not out else out[0] if len(out) == 1 else Or(*out)


def neg(x):
    if isinstance(x, bool):
        return BoolVal(not x)
    if is_true(x):
        return FF
    if is_false(x):
        return TT
    if z3.is_not(x):
        return x.arg(0)
    return Not(x)


def imp(a, b):
    if isinstance(a, bool):
        a = BoolVal(a)
    if isinstance(b, bool):
        b = BoolVal(b)
    if is_true(a) or is_true(b):
        return b
    if is_false(a):
        return TT
    return Implies(a, b)


def occurs(e, sub_ids):
    """Does e contain any of the expressions (by ast id)?"""
    seen = set()
    stack = [e]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in sub_ids:
            return True
        if z3.is_quantifier(t):
            stack.append(t.body())
        else:
            stack.extend(t.children())
    return False


_decls = {}


def decls_of(e, acc=None, seen=None):
    """The names of uninterpreted functions and constants in e."""
    if seen is None:
        i = e.get_id()
        if i not in _decls:
            _decls[i] = (frozenset(decls_of(e, None, set())), e)
        if acc is None:
            return set(_decls[i][0])
        acc |= _decls[i][0]
        return acc
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    stack = [e]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            stack.append(t.body())
        elif z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(t.decl().name())
            stack.extend(t.children())
    return acc


def forall(vs, body, pats=None):
    if isinstance(body, bool):
        body = BoolVal(body)
    vs = [v for v in vs if occurs(body, {v.get_id()})]
    if not vs:
        return body
    if is_true(body) or is_false(body):
        return body
    if pats:
        return ForAll(vs, body, patterns=pats)
    return ForAll(*bound(vs, body))


def bound(vs, body):
    """Equal quantified formulas get equal names for their variables."""
    ns = [Const("b%d" % i, v.sort()) for i, v in enumerate(vs)]
    return ns, z3.substitute(body, *list(zip(vs, ns)))


def _eqs(e):
    return e.children() if z3.is_and(e) else [e]


def exists(vs, body):
    """Existential quantifier with the one-point rule (x == t eliminated)."""
    if isinstance(body, bool):
        body = BoolVal(body)
    body = simp_light(body)
    if z3.is_or(body):
        return disj([exists(vs, c) for c in body.children()])
    vs = list(vs)
    changed = True
    while changed and vs:
        changed = False
        for c in _eqs(body):
            if z3.is_eq(c):
                for a, b in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                    for v in vs:
                        if a.eq(v) and not occurs(b, {v.get_id()}):
                            body = simp_light(z3.substitute(body, (v, b)))
                            vs = [w for w in vs if not w.eq(v)]
                            changed = True
                            break
                    if changed:
                        break
            if changed:
                break
        if changed and z3.is_or(body):
            return disj([exists(vs, c) for c in body.children()])
    vs = [v for v in vs if occurs(body, {v.get_id()})]
    if not vs:
        return body
    if is_false(body) or is_true(body):
        return body
    ids = {v.get_id() for v in vs}
    for c in _eqs(body):
        # distribute over a disjunction that determines a bound variable in some case
        if z3.is_or(c) and c.num_args() <= 6 and any(
                z3.is_eq(d) and (d.arg(0).get_id() in ids or d.arg(1).get_id() in ids)
                for k in c.children() for d in _eqs(k)):
            rest = [d for d in _eqs(body) if not d.eq(c)]
            return disj([exists(vs, conj(rest + [k])) for k in c.children()])
    parts = _eqs(body)
    out = [c for c in parts if not occurs(c, {v.get_id() for v in vs})]
    inn = [c for c in parts if occurs(c, {v.get_id() for v in vs})]
    return conj(out + [Exists(*bound(vs, conj(inn)))])


def rewrite(e, fn):
    """Rebuild e bottom-up, replacing applications for which fn gives a term."""
    if z3.is_quantifier(e):
        vs = [const(e.var_name(i).split("!")[0], e.var_sort(i)) for i in range(e.num_vars())]
        body = rewrite(z3.substitute_vars(e.body(), *reversed(vs)), fn)
        return forall(vs, body) if e.is_forall() else exists(vs, body)
    if not z3.is_app(e) or not e.num_args():
        return e
    cs = [rewrite(c, fn) for c in e.children()]
    r = fn(e.decl(), cs)
    if r is not None:
        return r
    if z3.is_and(e):
        return conj(cs)
    if z3.is_or(e):
        return disj(cs)
    if z3.is_not(e):
        return neg(cs[0])
    if all(a.eq(b) for a, b in zip(cs, e.children())):
        return e
    return e.decl()(*cs)


def cases(e):
    """(A and b) or (A and not b) is A."""
    cs = [{x.get_id(): x for x in _eqs(c)} for c in e.children()]
    again, merged = True, False
    while again:
        again = False
        for i in range(len(cs)):
            for j in range(i + 1, len(cs)):
                a, b = set(cs[i]) - set(cs[j]), set(cs[j]) - set(cs[i])
                if len(a) == 1 and len(b) == 1 and neg(cs[i][min(a)]).eq(cs[j][min(b)]):
                    cs[i] = {k: v for k, v in cs[i].items() if k not in a}
                    del cs[j]
                    again = merged = True
                    break
            if again:
                break
    return disj([conj(list(c.values())) for c in cs]) if merged else e


def factor(e):
    """Pull conjuncts common to all disjuncts out of a disjunction."""
    if not z3.is_or(e):
        return e
    if e.num_args() <= 12:
        e = cases(e)
        if not z3.is_or(e):
            return e
    cs = [_eqs(c) for c in e.children()]
    ids = [{x.get_id() for x in c} for c in cs]
    common = set.intersection(*ids)
    if not common:
        return e
    out, seen = [], set()
    for x in cs[0]:
        if x.get_id() in common and x.get_id() not in seen:
            seen.add(x.get_id())
            out.append(x)
    rest = disj([conj([x for x in c if x.get_id() not in common]) for c in cs])
    if z3.is_and(rest):
        return conj(out + rest.children())
    return conj(out + [rest])


_simp = {}


def simp_light(e):
    """Flatten conjunctions/disjunctions and fold constants, nothing more."""
    i = e.get_id()
    if i not in _simp:
        r = simp_light1(e)
        _simp[i] = (r, e)
        _simp.setdefault(r.get_id(), (r, r))
    return _simp[i][0]


def simp_light1(e):
    if z3.is_and(e):
        cs = []
        for c in e.children():
            c = simp_light(c)
            if z3.is_and(c):
                cs.extend(c.children())
            else:
                cs.append(c)
        return conj(cs)
    if z3.is_or(e):
        return factor(disj([simp_light(c) for c in e.children()]))
    if z3.is_not(e):
        return neg(simp_light(e.arg(0)))
    if z3.is_eq(e) and e.arg(0).eq(e.arg(1)):
        return TT
    return e


# --- string literals -------------------------------------------------------
_lits = {}
NONE = Const("None", P)            # Python's None where a string is expected


def lit(s):
    if s not in _lits:
        _lits[s] = Const("lit:" + s, P)
    return _lits[s]


EMPTY = lit("")


def lit_axioms(names):
    used = [NONE] + [c for s, c in _lits.items() if "lit:" + s in names]
    return [z3.Distinct(*used)] if len(used) > 1 else []


# --- trusted theory of normalised relative paths ---------------------------
join = Function("path_join", P, P, P)
dirname = Function("dirname", P, P)
basename = Function("basename", P, P)
under = Function("under", P, P, B)          # under(a, b): b is a or below a
relpath = Function("relpath", P, P, P)
slt = Function("str_lt", P, P, B)           # string order
depth = Function("depth", P, INT)           # number of separators
startswith = Function("startswith", P, P, B)
concat = Function("text_concat", P, P, P)
rstripsep = Function("rstrip_sep", P, P)


def _ax():
    a, b, c = Const("a", P), Const("b", P), Const("c", P)
    e = EMPTY
    sep = lit("/")
    return [
        (["under"], ForAll([a], under(a, a)), "under is reflexive"),
        (["under"], ForAll([a, b, c], Implies(And(under(a, b), under(b, c)), under(a, c)),
                           patterns=[z3.MultiPattern(under(a, b), under(b, c))]), "under is transitive"),
        (["under"], ForAll([a, b], Implies(And(under(a, b), under(b, a)), a == b),
                           patterns=[z3.MultiPattern(under(a, b), under(b, a))]), "under is antisymmetric"),
        (["under"], ForAll([a, b, c], Implies(And(under(a, c), under(b, c)), Or(under(a, b), under(b, a))),
                           patterns=[z3.MultiPattern(under(a, c), under(b, c))]), "ancestors form a chain"),
        (["under", "dirname"], ForAll([a], Implies(dirname(a) != e, And(under(dirname(a), a), dirname(a) != a)),
                                      patterns=[dirname(a)]), "a path lies below its dirname"),
        (["under", "dirname"], ForAll([a, b], Implies(And(under(a, b), a != b, a != e, a != NONE), And(dirname(b) != e, under(a, dirname(b)))),
                                      patterns=[z3.MultiPattern(under(a, b), dirname(b))]), "dirname is the immediate parent"),
        (["path_join", "relpath"], ForAll([a, b], relpath(join(a, b), a) == b, patterns=[join(a, b)]),
         "relpath(join(root, p), root) == p for normalised relative p"),
        (["path_join"], ForAll([a, b, c], Implies(join(a, b) == join(a, c), b == c),
                               patterns=[z3.MultiPattern(join(a, b), join(a, c))]), "join(root, .) is injective"),
        (["str_lt"], ForAll([a], Not(slt(a, a))), "string order is irreflexive"),
        (["str_lt"], ForAll([a, b, c], Implies(And(slt(a, b), slt(b, c)), slt(a, c)),
                            patterns=[z3.MultiPattern(slt(a, b), slt(b, c))]), "string order is transitive"),
        (["str_lt"], ForAll([a, b], Or(slt(a, b), slt(b, a), a == b), patterns=[slt(a, b)]), "string order is total"),
        (["startswith", "text_concat", "rstrip_sep"],
         ForAll([a, b], startswith(b, concat(rstripsep(a), sep)) == And(under(a, b), a != b),
                patterns=[startswith(b, concat(rstripsep(a), sep))]),
         "p.startswith(d.rstrip('/') + '/') iff p lies strictly below d (normalised relative paths)"),
        (["startswith", "text_concat"],
         ForAll([a, b], startswith(b, concat(a, sep)) == And(under(a, b), a != b),
                patterns=[startswith(b, concat(a, sep))]),
         "p.startswith(d + '/') iff p lies strictly below d (normalised relative paths)"),
        (["depth", "under"], ForAll([a, b], Implies(And(under(a, b), a != b), depth(a) < depth(b)),
                           patterns=[under(a, b)]), "deeper paths have more separators"),
        (["depth", "dirname"], ForAll([a], Implies(dirname(a) != e, depth(a) == depth(dirname(a)) + 1), patterns=[dirname(a)]),
         "a path has one separator more than its dirname"),
    ]


PATH_AXIOMS = _ax()
EXTRA_AXIOMS = []                   # (names, formula, text), added by contracts


def relevant_axioms(names):
    """Axioms all of whose key symbols occur (to a fixpoint)."""
    names = set(names)
    out, texts = [], []
    todo = PATH_AXIOMS + EXTRA_AXIOMS
    changed = True
    while changed:
        changed = False
        rest = []
        for keys, f, text in todo:
            if all(k in names for k in keys):
                out.append(f)
                texts.append(text)
                decls_of(f, names)
                changed = True
            else:
                rest.append((keys, f, text))
        todo = rest
    return out + lit_axioms(names), texts
