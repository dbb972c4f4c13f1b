"""Symbolic execution of the Python subset, with exact loop summaries."""
import ast
import copy
import z3
from .terms import *
from .terms import _eqs
from . import values
from .values import *


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


CONTROL = (ReturnEx, BreakEx, ContinueEx, PyRaise)


class Obl:
    def __init__(self, name, assumptions, goal, where, ctx, kind="post"):
        self.name, self.assumptions, self.goal, self.where, self.ctx, self.kind = (
            name, assumptions, goal, where, ctx, kind)


class Prefix(Part):
    """The unknown list contents accumulated by earlier iterations."""
    unknown = True

    def __init__(self, tag):
        self.tag, self.xs, self.guard, self.elem, self.keys, self.lt, self.ident, self.order = tag, [], FF, None, [], None, tag, tag


class Poison:
    def __init__(self, why):
        self.why = why

    def __deepcopy__(self, memo):
        return self


MAXPATHS = 4000


class SymbolicDict(Exception):
    """A dict display that has to be a symbolic mapping from the start."""
    def __init__(self, node):
        self.node = node


class Interp:
    def __init__(self, loader, contracts=None):
        self.loader = loader
        self.contracts = contracts or {}
        self.pc = []               # [(tag, formula)], tag b(ranch) f(act) g(uard)
        self.dec, self.pos = [], 0
        self.ctx = []              # loop variables in scope
        self.ghost = ObjV(None, {}, "ghost")
        self.obls = []
        self.collect = True
        self.defs = {}             # symbol -> [formulas], included when the symbol occurs
        self.sums = {}             # symbol -> (ctx, xs, guard, delta)
        self.node = None
        self.stack = []
        self.hooks = {}            # effect kind -> callback
        self.inlined = set()       # functions executed by body (not by contract)
        self.used_contracts = set()
        self.models = set()        # trusted library models used
        self.loop_inv = {}         # function qualname -> callback(I, info)
        self.npaths = 0
        self.cover = []
        self.feas_cache = {}
        self.strsort = P
        self.token, self.seq, self.pseq, self.interned = None, 0, 0, {}
        self.loop_cache = {}
        self.successor, self.record, self.loops = False, False, []
        self.symbolic_dicts = set()
        self.raises = {}           # effect kind -> exceptions it may raise

    # -- path exploration ---------------------------------------------------
    def fresh(self, hint, sort):
        """A fresh symbol, depending on the enclosing loop variables."""
        name = "%s!%d" % (hint, self.symbol_id())
        if not self.ctx:
            return Const(name, sort)
        return Function(name, *([v.sort() for v in self.ctx] + [sort]))(*self.ctx)

    def symbol_id(self):
        """A number for a new symbol: paths with the same decisions so far share their symbols."""
        self.seq += 1
        return self.intern(self.seq)

    def part_id(self):
        self.pseq += 1
        return self.intern(("part", self.pseq))

    def intern(self, n):
        key = (self.token, tuple(d[0] for d in self.dec[:self.pos]), n)
        if key not in self.interned:
            self.interned[key] = uid()
        return self.interned[key]

    def fresh_fn(self, hint, *sorts):
        d = Function("%s!%d" % (hint, self.symbol_id()), *([v.sort() for v in self.ctx] + list(sorts)))
        ctx = list(self.ctx)
        return lambda *a: d(*(ctx + list(a)))

    def assume(self, f, tag="f"):
        if isinstance(f, bool):
            f = BoolVal(f)
        if is_true(f):
            return
        if is_false(f):
            raise Infeasible()
        self.pc.append((tag, f))

    def wrap(self, c):
        return wrapb(c)

    def raises_of(self, kind):
        from . import lib
        return self.raises.get(kind, lib.RAISES.get(kind, (OSError,)))

    def formulas(self):
        return [f for t, f in self.pc]

    def feasible(self, cond):
        s = z3.Solver()
        s.set("timeout", 150)
        fs = [f for t, f in self.pc if not has_quant(f)] + [cond]
        if has_quant(cond):
            return True
        key = tuple(f.get_id() for f in fs)
        if key in self.feas_cache:
            return self.feas_cache[key][0]
        names = set()
        for f in fs:
            decls_of(f, names)
        s.add(*fs)
        s.add(*lit_axioms(names))
        r = s.check() != z3.unsat
        self.feas_cache[key] = (r, fs)      # keep fs alive: ids are only unique for live terms
        return r

    def branch(self, cond, tag="b"):
        if isinstance(cond, bool):
            return cond
        cond = simp_light(cond)
        if is_true(cond):
            return True
        if is_false(cond):
            return False
        for t, f in self.pc:
            if f.eq(cond):
                return True
            if f.eq(neg(cond)):
                return False
        if self.pos < len(self.dec):
            d, rest, forced = self.dec[self.pos]
        else:
            if self.feasible(cond):
                alt = self.feasible(neg(cond))
                d, rest, forced = True, alt, not alt
            else:
                d, rest, forced = False, False, True
            self.dec.append([d, rest, forced])
        self.pos += 1
        if not forced:
            self.pc.append((tag, cond if d else neg(cond)))
        return d

    def choose(self, hint):
        """A nondeterministic choice."""
        return self.branch(self.fresh("choice_" + hint, B))

    def explore(self, thunk):
        """All paths of thunk (which must start from copies); [(kind, value, added pc)]."""
        saved = self.dec, self.pos, self.pc, self.ghost, list(self.stack)
        self.token, names = self.symbol_id(), (self.token, self.seq, self.pseq)
        base = list(self.pc)
        self.dec = []
        out = []
        dropped = False
        try:
            while True:
                self.pos = self.seq = self.pseq = 0
                self.pc = list(base)
                self.ghost = saved[3]
                self.stack = list(saved[4])
                self.npaths += 1
                if self.npaths > MAXPATHS:
                    raise Unsupported("too many paths")
                try:
                    r = thunk()
                    out.append((r, self.pc[len(base):], self.ghost))
                except Infeasible:
                    dropped = True
                del self.dec[self.pos:]
                while self.dec and not self.dec[-1][1]:
                    self.dec.pop()
                if not self.dec:
                    break
                self.dec[-1] = [not self.dec[-1][0], False, False]
        finally:
            self.dec, self.pos, self.pc, self.ghost, self.stack = saved
            self.token, self.seq, self.pseq = names
            self.dropped = dropped
        return out

    # -- obligations --------------------------------------------------------
    def where(self):
        mod = self.stack[-1].mod.name if self.stack else "?"
        return "%s:%s" % (mod, getattr(self.node, "lineno", "?"))

    def oblige(self, name, goal, kind="post"):
        if not self.collect:
            return
        if callable(goal):
            n = self.seq, self.pseq
            goal = goal()
            self.seq, self.pseq = n
        if isinstance(goal, bool):
            goal = BoolVal(goal)
        self.obls.append(Obl(name, self.formulas(), goal, self.where(), list(self.ctx), kind))

    def effect(self, kind, **args):
        """Report an effect to the contract under verification."""
        h = self.hooks.get(kind) or self.hooks.get("*")
        if h:
            h(self, kind, args)
        ev = self.ghost.attrs.get("ev_" + kind)
        if isinstance(ev, SetV):
            args = {k: v for k, v in args.items() if k != "options"}
            vals = [args[k] for k in sorted(args)] if len(args) > 1 else list(args.values())
            self.set_add(ev, TupV(vals) if len(vals) > 1 else vals[0])

    # -- raising ------------------------------------------------------------
    def raise_(self, cls, *args):
        raise PyRaise(ExcV(cls, args, self.where()))

    def maybe_raise(self, hint, *classes):
        """Demonic failure: any of the exceptions may occur."""
        tried = []
        for c in classes:
            if self.choose("%s_%s" % (hint, getattr(c, "__name__", getattr(c, "name", "exc")))):
                e = ExcV(c, (), self.where())
                e.isnot = tuple(tried)
                raise PyRaise(e)
            tried.append(c)

    # -- truth and comparison -----------------------------------------------
    def truth(self, v):
        """The truth value of v as a formula (or bool)."""
        if isinstance(v, Sym):
            s = v.sort
            if s == B:
                return v.e
            if s == INT or s == REAL:
                return neg(v.e == 0)
            if s == P:
                return conj([neg(v.e == NONE), neg(v.e == EMPTY)])
            if s.kind() == z3.Z3_SEQ_SORT:
                return z3.Length(v.e) > 0
            return TT
        if isinstance(v, OptV):
            t = self.truth(v.v)
            return conj([neg(v.none), t if not isinstance(t, bool) else BoolVal(t)])
        if isinstance(v, (SetV, MapV, BagV)):
            shape, mem = as_mem(v)
            if shape is None:
                return False
            c = gen_consts(shape)
            return exists(c, mem(c))
        if isinstance(v, (ListV,)):
            if any(isinstance(p, Item) for p in v.parts):
                return True
            for p in v.parts:
                if isinstance(p, Prefix):
                    raise Unsupported("truth of a list under construction")
            return disj([exists(q.xs, q.guard) for q in map(fresh_part, v.parts)])
        if isinstance(v, DictV):
            return bool(v.d)
        if isinstance(v, TupV):
            return bool(v.items)
        if isinstance(v, (ObjV, FuncV, BoundV, ClassV, Native, ModV, GenV)):
            return True
        if isinstance(v, Opaque):
            return self.fresh("truth_" + v.tag, B)
        if isinstance(v, (ExcV,)):
            return True
        if v is None or isinstance(v, (bool, int, float, str, bytes)):
            return bool(v)
        raise Unsupported("truth of %r" % (v,))

    def test(self, v):
        return self.branch(self.truth(v))

    def contains(self, coll, x):
        if isinstance(coll, (Sym, str)) and isinstance(x, (Sym, str)):
            if isinstance(coll, str) and isinstance(x, str):
                return x in coll
            return self.str_contains(coll, x)
        if isinstance(coll, (ListV, TupV)):
            items = coll.items() if isinstance(coll, ListV) and coll.concrete else (
                list(coll.items) if isinstance(coll, TupV) else None)
            if items is not None:
                return disj([eqv(i, x) for i in items])
        if isinstance(coll, DictV):
            return disj([eqv(k, x) for k in coll.d])
        if isinstance(coll, Opaque):
            return self.fresh("in_" + coll.tag, B)
        if isinstance(coll, Native) and coll.state is not None:
            return self.contains(coll.state, x)
        shape, mem = as_mem(coll)
        if shape is None:
            return False
        try:
            return mem(flatten(x, shape))
        except Unsupported:
            if x is None and not isinstance(shape, Tup) and shape != P:
                return False
            raise

    def str_contains(self, coll, x):
        if self.strsort == P:
            f = Function("str_contains", P, P, B)
            return f(term(coll, P), term(x, P))
        return z3.Contains(term(coll, self.strsort), term(x, self.strsort))

    # -- collections --------------------------------------------------------
    def set_add(self, s, v):
        sh = shape_of(v)
        s.shape = join_shape(s.shape, sh)
        f, old, shape = flatten(v, s.shape), s.mem, s.shape
        s.mem = lambda c: disj([old(c), conj([x == y for x, y in zip(c, f)])])

    def parts_of(self, v):
        """Enumerate v as sequence parts."""
        if isinstance(v, (ListV,)):
            return list(known_parts(v.parts))
        if isinstance(v, GenV):
            if v.used:
                return []
            v.used = True
            return list(known_parts(v.parts))
        if isinstance(v, TupV):
            return [Item(i) for i in v.items]
        if isinstance(v, DictV):
            return [Item(k) for k in v.d]
        if isinstance(v, (SetV, MapV, BagV)):
            shape, mem = as_mem(v)
            if shape is None:
                return []
            xs = gen_consts(shape, "x")
            g = mem(xs)
            if is_false(g):
                return []
            if not isinstance(v, MapV):
                fin = finite_points(g, xs)
                if fin is not None:
                    return [Item(unflatten(shape, list(pt))) for pt in fin]
            return [Part(xs, g, unflatten(shape, xs))]
        if isinstance(v, str):
            return [Item(c) for c in v]
        if isinstance(v, ObjV) and v.tag == "file" and "%lines" in v.attrs:
            return list(v.attrs["%lines"].parts)
        if isinstance(v, ObjV) and v.tag == "sqlcursor":
            from . import sql
            return list(sql.fetchall(self, v, []).parts)
        if isinstance(v, ObjV) and v.cls is not None:
            it = v.cls.lookup("__iter__") if isinstance(v.cls, ClassV) else None
            if it is not None:
                return self.parts_of(self.call(BoundV(it, v), []))
        if isinstance(v, OptV):
            if self.branch(v.none):
                self.raise_(TypeError)
            return self.parts_of(v.v)
        if v is None:
            self.raise_(TypeError)
        raise Unsupported("iteration over %r" % (v,))

    def to_set(self, v):
        if isinstance(v, (SetV, MapV, DictV, BagV)):
            shape, mem = as_mem(v)
            return SetV(shape, mem)
        parts = self.parts_of(v)
        shape, mem = as_mem(ListV(parts))
        return SetV(shape, mem)

    def binset(self, op, a, b):
        sa, ma = as_mem(a)
        sb, mb = as_mem(b)
        shape = join_shape(sa, sb)
        fa = ma if sa is not None else (lambda c: FF)
        fb = mb if sb is not None else (lambda c: FF)
        if op == "|":
            m = lambda c: disj([fa(c), fb(c)])
        elif op == "&":
            m = lambda c: conj([fa(c), fb(c)])
        elif op == "-":
            m = lambda c: conj([fa(c), neg(fb(c))])
        else:
            m = lambda c: disj([conj([fa(c), neg(fb(c))]), conj([fb(c), neg(fa(c))])])
        return SetV(shape, m)

    def card(self, v):
        """len(v)."""
        if isinstance(v, DictV):
            return len(v.d)
        if isinstance(v, TupV):
            return len(v.items)
        if isinstance(v, str):
            return len(v)
        if isinstance(v, Sym) and v.sort == P:
            return Sym(Function("strlen", P, INT)(v.e))
        if isinstance(v, Sym) and strsort(v.sort):
            return Sym(z3.Length(v.e))
        if isinstance(v, ListV) and v.concrete:
            return len(v.parts)
        if isinstance(v, BagV):
            n = self.fresh("len", INT)
            self.assume(n >= 0)
            t = self.truth(v)
            self.assume((n > 0) == t)
            return Sym(n)
        parts = self.parts_of(v) if not isinstance(v, ListV) else known_parts(v.parts)
        n, tot = 0, None
        for p in parts:
            if isinstance(p, Item):
                n += 1
            else:
                s = self.sum_term(p.xs, p.guard, IntVal(1))
                tot = s if tot is None else tot + s
        return n if tot is None else Sym(tot + n if n else tot)

    def sum_term(self, xs, guard, delta):
        """The sum of delta over all xs with guard (finite by construction)."""
        s = self.fresh("sum", delta.sort())
        name = s.decl().name()
        self.sums[name] = (list(self.ctx), list(xs), guard, delta)
        return s

    def sum_lemmas(self, names):
        """Laws of finite sums for the sum symbols that occur: equality, scaling, monotonicity and sign."""
        out = []
        syms = [(n, self.sums[n]) for n in sorted(names) if n in self.sums]

        def inst(n, tag):
            ctx, xs, g, d = self.sums[n]
            cc = [const("%s%d" % (tag, i), c.sort()) for i, c in enumerate(ctx)]
            pr = list(zip(ctx, cc))
            sub = lambda e: z3.substitute(e, *pr) if pr else e
            f = Function(n, *([c.sort() for c in ctx] + [d.sort()]))
            return cc, xs, sub(g), sub(d), f(*cc) if cc else Const(n, d.sort())

        def close(cc, f, *pats):
            return z3.ForAll(cc, f, patterns=[z3.MultiPattern(*pats) if len(pats) > 1 else pats[0]]) if cc else f
        for i, (n, _) in enumerate(syms):
            c1, x1, g1, d1, s1 = inst(n, "o")
            out.append(close(c1, imp(forall(x1, imp(g1, d1 >= 0)), s1 >= 0), s1))
            out.append(close(c1, imp(forall(x1, imp(g1, d1 == 0)), s1 == 0), s1))
            if z3.is_int_value(d1) and d1.as_long() > 0:
                out.append(close(c1, imp(s1 <= 0, forall(x1, neg(g1))), s1))
            for m, _ in syms:
                if m == n:
                    continue
                c2, x2, g2, d2, s2 = inst(m, "u")
                if len(x1) != len(x2) or any(a.sort() != b.sort() for a, b in zip(x1, x2)) or s1.sort() != s2.sort():
                    continue
                pr = list(zip(x2, x1))
                g2, d2 = z3.substitute(g2, *pr), z3.substitute(d2, *pr)
                cc = c1 + c2
                if n < m:
                    out.append(close(cc, imp(forall(x1, conj([g1 == g2, imp(g1, d1 == d2)])), s1 == s2), *([s1, s2] if c1 and c2 else [s1 if c1 else s2])))
                out.append(close(cc, imp(forall(x1, conj([g1 == g2, imp(g1, d1 == 512 * d2)])), s1 == 512 * s2), *([s1, s2] if c1 and c2 else [s1 if c1 else s2])))
                out.append(close(cc, imp(conj([forall(x1, imp(g1, conj([g2, d1 <= d2]))), forall(x1, imp(conj([g2, neg(g1)]), d2 >= 0))]), s1 <= s2),
                                 *([s1, s2] if c1 and c2 else [s1 if c1 else s2])))
        return out

    # -- loops --------------------------------------------------------------
    def lt_of(self, part):
        """The iteration order of a part as a strict total order over its variables."""
        sorts = [x.sort() for x in part.xs]
        outer = [c.sort() for c in self.ctx]
        name = "before!%s!%d" % (part.order, len(outer))
        d = Function(name, *(outer + sorts + sorts + [B]))
        ctx = list(self.ctx)
        if name not in self.defs:
            x = [const("x", s) for s in sorts]
            y = [const("y", s) for s in sorts]
            z = [const("z", s) for s in sorts]
            cc = [const("o", s) for s in outer]
            lt = lambda a, b: d(*(cc + a + b))
            eq = lambda a, b: conj([p == q for p, q in zip(a, b)])
            fs = [forall(cc + x, neg(lt(x, x))),
                  z3.ForAll(cc + x + y + z, Implies(And(lt(x, y), lt(y, z)), lt(x, z)),
                            patterns=[z3.MultiPattern(lt(x, y), lt(y, z))])]
            pr = lambda e, v: z3.substitute(e, *(list(zip(part.xs, v)) + list(zip(ctx, cc))))
            dom = And(pr(part.guard, x), pr(part.guard, y))
            fs.append(z3.ForAll(cc + x + y, Implies(dom, Or(lt(x, y), lt(y, x), eq(x, y))),
                                patterns=[lt(x, y)]))
            if part.keys:
                lex, eqs = [], []
                for k, rev in part.keys:
                    a, b = pr(k, x), pr(k, y)
                    less = slt if a.sort() == P else (lambda p, q: p < q)
                    st = less(b, a) if rev else less(a, b)
                    lex.append(conj(eqs + [st]))
                    eqs = eqs + [a == b]
                fs.append(z3.ForAll(cc + x + y, Implies(And(dom, disj(lex)), lt(x, y)),
                                    patterns=[lt(x, y)]))
            self.defs[name] = fs
        return lambda a, b: d(*(ctx + list(a) + list(b)))

    def for_each(self, parts, env, body):
        for p in parts:
            if isinstance(p, Prefix):
                raise Unsupported("iteration over a list under construction")
            if isinstance(p, Item):
                try:
                    body(env, p.v)
                except ContinueEx:
                    pass
            else:
                self.sym_loop(p, env, body)

    def snapshot(self, pairs):
        out = {}
        for o, c in pairs:
            out[id(c)] = (dict(c.slots()) if hasattr(c, "slots") else None,
                          c.content() if c.fields else None)
        return out

    def diff(self, pairs, snap):
        """Locations of original objects changed on their copies."""
        ch = []
        for o, c in pairs:
            slots, content = snap[id(c)]
            if slots is not None:
                now = c.slots()
                for k in set(now) | set(slots):
                    if k not in slots or k not in now or not same(now[k], slots[k]):
                        ch.append((o, k, c))
                continue
            if content is not None and any(a is not b for a, b in zip(c.content(), content)):
                ch.append((o, None, c))
        return ch

    def run_body(self, q, env, body, locs, k):
        """One generic iteration from the havocked state; all paths."""
        def thunk():
            memo = {}
            env2, ghost2 = copy.deepcopy((env, self.ghost), memo)
            pairs = list(memo["pairs"])
            omap = {id(o): c for o, c in pairs}
            for loc in locs.values():
                loc.havoc(self, omap, self.ctx)
            snap = self.snapshot(pairs)
            self.ghost = ghost2
            if q is not None:
                self.assume(q.guard, "g")
            kind, val = "normal", None
            try:
                body(env2, q.elem if q is not None else None)
            except ContinueEx:
                pass
            except (BreakEx, ReturnEx, PyRaise) as e:
                kind, val = "exit", e
            return kind, val, pairs, snap, omap
        return self.explore(thunk)

    def discover(self, q, env, body, k):
        """The write set of a loop body, by fixpoint."""
        locs = {}
        collect, self.collect = self.collect, False
        cover, self.cover = self.cover, None
        obls = self.obls
        try:
            for n in range(12):
                if n and q is not None:
                    self.collect, self.obls = collect, []
                runs = self.run_body(q, env, body, locs, k)
                new = False
                for (kind, val, pairs, snap, omap), pc, gh in runs:
                    if kind == "exit":
                        continue
                    for o, key, c in self.diff(pairs, snap):
                        lid = (id(o), key)
                        if lid not in locs:
                            locs[lid] = Loc(o, key, "%d_%d" % (k, len(locs)))
                            new = True
                        if locs[lid].learn(self, c, snap[id(c)]):
                            new = True
                if not new:
                    if q is None:
                        return locs
                    if n:
                        obls.extend(self.obls)
                    elif collect:
                        continue
                    return locs, runs
            raise Unsupported("loop write set does not stabilise")
        finally:
            self.collect, self.cover, self.obls = collect, cover, obls

    def loop_runs(self, part, env, body):
        """The paths of a generic iteration; remembered when the same path prefix is executed again."""
        key = (self.token, tuple(d[0] for d in self.dec[:self.pos]), self.seq, self.pseq, id(self.node), tuple(x.get_id() for x in self.ctx))
        hit = self.loop_cache.get(key)
        if hit is not None:
            q, ident, locs, runs, dropped, after, olds, collect = hit
            memo = {}
            copy.deepcopy((env, self.ghost), memo)
            news = [o for o, c in memo.get("pairs", ())]
            if len(news) == len(olds) and all(type(a) is type(b) for a, b in zip(news, olds)) and (collect or not self.collect):
                idx = {id(o): n for o, n in zip(olds, news)}
                nl = {}
                for (i, slot), loc in locs.items():
                    loc = copy.copy(loc)
                    loc.obj = idx[i]
                    nl[(id(loc.obj), slot)] = loc
                nr = []
                for (kind, val, pairs, snap, omap), pc, gh in runs:
                    np = [(idx[id(o)], c) for o, c in pairs]
                    nr.append(((kind, val, np, snap, {id(o): c for o, c in np}), pc, gh))
                self.seq, self.pseq = after
                return q, ident, nl, nr, dropped
        q = fresh_part(part)
        k = uid()
        outer = list(self.ctx)
        self.ctx = outer + q.xs
        try:
            locs, runs = self.discover(q, env, body, k)
            dropped = self.dropped
        finally:
            self.ctx = outer
        memo = {}
        copy.deepcopy((env, self.ghost), memo)
        olds = [o for o, c in memo.get("pairs", ())]
        self.loop_cache[key] = (q, part.ident, dict(locs), runs, dropped, (self.seq, self.pseq), olds, self.collect)
        # later stages change the locations: keep the originals for the cache
        return q, part.ident, {i: copy.copy(l) for i, l in locs.items()}, runs, dropped

    def sym_loop(self, part, env, body):
        outer = list(self.ctx)
        nobl = len(self.obls)
        q, ident, locs, runs, dropped = self.loop_runs(part, env, body)
        normal = [r for r in runs if r[0][0] == "normal"]
        exits = [r for r in runs if r[0][0] == "exit"]
        bc = lambda r: conj([f for t, f in r[1] if t == "b"])
        facts = lambda r: conj([f for t, f in r[1] if t == "f"])
        lt = self.lt_of(Part(q.xs, q.guard, None, q.keys, q.lt, ident, q.order))

        def sub(e, ys):
            return z3.substitute(e, *list(zip(q.xs, ys)))

        def fresh_xs():
            return [const("x", x.sort()) for x in q.xs]

        # the iterations before this one were complete
        early = None
        for o in self.obls[nobl:]:
            if o.kind == "seq" and all(any(c.eq(x) for c in o.ctx) for x in q.xs):
                if early is None:
                    ys = fresh_xs()
                    g = conj([sub(q.guard, ys), lt(ys, q.xs)])
                    fs = [sub(disj([conj([bc(r), facts(r)]) for r in normal]), ys)]
                    early = [forall(ys, imp(g, f)) for f in fs]
                o.assumptions = o.assumptions + early
        named = []
        if self.successor and not outer:
            # name the cases of an iteration that depend on the iterations before
            state = {d.name() for l in locs.values() if l.decl is not None
                     for d in (l.decl if isinstance(l.decl, list) else [l.decl])}
            plain, names = bc, {}
            loop_id = self.symbol_id()
            depends = any(decls_of(bc(r)) & state for r in normal)
            for i, r in enumerate(normal):
                b = simp_light(bc(r))
                if depends:
                    d = Function("case!%d!%d" % (loop_id, i), *([x.sort() for x in q.xs] + [B]))
                    ys = fresh_xs()
                    self.defs[d.name()] = [forall(ys, imp(sub(q.guard, ys), d(*ys) == sub(b, ys)))]
                    names[id(r)] = d(*q.xs)
                    named.append((d, b))
            bc = lambda r: names[id(r)] if id(r) in names else plain(r)
        for loc in locs.values():
            loc.transform(self, normal, bc, q, lt, outer, sub, fresh_xs)
        for loc in locs.values():
            loc.define(self, q, lt, outer, sub, fresh_xs)
            if self.successor and loc.kind == "scalar" and not loc.unsup:
                loc.successor(self, q, normal, bc, lt, outer, sub, fresh_xs)
        if (self.successor or self.record) and not outer:
            self.loops.append((q, lt, list(locs.values()), named, normal, bc))

        def done_facts(upto=None):
            if dropped:
                # the paths without an execution are not taken
                ys = fresh_xs()
                g = [sub(q.guard, ys)] + ([lt(ys, upto)] if upto is not None else [])
                self.assume(forall(ys, imp(conj(g), disj([sub(bc(r), ys) for r in normal]))))
            for r in normal:
                f = facts(r)
                if is_true(f):
                    continue
                ys = fresh_xs()
                g = [sub(q.guard, ys), sub(bc(r), ys)]
                if upto is not None:
                    g.append(lt(ys, upto))
                self.assume(forall(ys, imp(conj(g), sub(f, ys))))

        if exits:
            E = disj([bc(r) for r in exits])
            ys = fresh_xs()
            some = exists(ys, conj([sub(q.guard, ys), sub(E, ys)]))
            if self.branch(some):
                x0 = [self.fresh("x0", x.sort()) for x in q.xs]
                self.assume(sub(q.guard, x0))
                self.assume(sub(E, x0))
                ys = fresh_xs()
                self.assume(forall(ys, imp(conj([sub(q.guard, ys), lt(ys, x0)]), neg(sub(E, ys)))))
                done_facts(x0)
                for loc in locs.values():
                    loc.set_at(self, outer, x0)
                v = vsubst(q.elem, list(zip(q.xs, x0)))
                # the obligations of this iteration are among those of the generic one
                collect, self.collect = self.collect, False
                try:
                    body(env, v)
                except ContinueEx:
                    raise Infeasible()
                finally:
                    self.collect = collect
                raise Infeasible()
        done_facts()
        for loc in locs.values():
            loc.finish(self, normal, bc, q, lt, outer, sub, fresh_xs)

    def find_inv(self, locs, q, env, k):
        return None

    def while_loop(self, test, env, body, always):
        """Generic while loop: zero iterations, or havoc and leave."""
        if not always and not self.branch(self.truth(test(env))):
            return
        k = self.symbol_id()

        def full(env2, _):
            if not always and not self.branch(self.truth(test(env2))):
                raise Infeasible()
            body(env2, None)
        if always and self.leaves(env, full):
            # the body never reaches its end the first time
            full(env, None)
            raise Infeasible()
        locs = self.discover(None, env, full, k)
        inv = None
        key = self.stack[-1].qual if self.stack else None
        if key in self.loop_inv:
            inv = self.loop_inv[key]
        self.ctx = self.ctx
        if inv:
            for name, f in inv(self, locs, env, None):
                self.oblige("invariant-init:" + name, f, "inv")
        # one generic iteration, to collect the obligations inside of the body

        def thunk():
            memo = {}
            env2, ghost2 = copy.deepcopy((env, self.ghost), memo)
            omap = {id(o): c for o, c in memo["pairs"]}
            for loc in locs.values():
                loc.havoc(self, omap, self.ctx)
            self.ghost = ghost2
            if inv:
                for name, f in inv(self, locs, env2, omap):
                    self.assume(f)
            try:
                full(env2, None)
            except ContinueEx:
                pass
            except (BreakEx, ReturnEx, PyRaise):
                return True
            if inv:
                for name, f in inv(self, locs, env2, omap):
                    self.oblige("invariant-step:" + name, f, "inv")
        runs = self.explore(thunk)
        exits = any(r[0] for r in runs)
        # leave the loop
        ident = None
        memo = {}
        omap = {id(l.obj): l.obj for l in locs.values()}
        for loc in locs.values():
            loc.havoc(self, omap, self.ctx, live=True)
        if inv:
            for name, f in inv(self, locs, env, omap):
                self.assume(f)
        if not always and (not exits or self.choose("while_done")):
            if self.branch(self.truth(test(env))):
                raise Infeasible()
            return
        try:
            full(env, None)
        except ContinueEx:
            raise Infeasible()
        raise Infeasible()

    def leaves(self, env, body):
        """Whether every way through the body, from the current state, leaves the loop."""
        def thunk():
            env2, self.ghost = copy.deepcopy((env, self.ghost))
            try:
                body(env2, None)
            except ContinueEx:
                pass
            except (BreakEx, ReturnEx, PyRaise):
                return True
            return False
        collect, self.collect = self.collect, False
        ghost = self.ghost
        try:
            return all(r[0] for r in self.explore(thunk))
        except Unsupported:
            return False
        finally:
            self.collect, self.ghost = collect, ghost

    # -- calls --------------------------------------------------------------
    def call(self, f, args=(), kwargs=None):
        args, kwargs = list(args), dict(kwargs or {})
        if isinstance(f, Native):
            return f.fn(self, ([f.state] if f.state is not None else []) + args, kwargs)
        if isinstance(f, BoundV):
            return self.call(f.f, [f.self_] + args, kwargs)
        if isinstance(f, FuncV):
            h = self.contracts.get(f.qual)
            if h is not None and not (self.stack == [] or getattr(h, "skip", None) == f.qual):
                self.used_contracts.add(f.qual)
                return h(self, self.bind(f, args, kwargs))
            return self.call_body(f, args, kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, ObjV) and isinstance(f.cls, ClassV):
            m = f.cls.lookup("__call__")
            if m is not None:
                return self.call(BoundV(m, f), args, kwargs)
        if isinstance(f, type) and issubclass(f, BaseException):
            return ExcV(f, args)
        if isinstance(f, ModV) and "__call__" in f.ns:
            return self.call(f.ns["__call__"], args, kwargs)
        if isinstance(f, Opaque):
            raise Unsupported("call of unmodelled %s" % f.tag)
        if isinstance(f, PropV) and f.kind in ("static", "class"):
            return self.call(f.fget, args, kwargs)
        raise Unsupported("call of %r" % (f,))

    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        if len(args) > len(names) and not a.vararg:
            self.raise_(TypeError)
        for n, v in zip(names, args):
            out[n] = v
        rest = args[len(names):]
        if a.vararg:
            out[a.vararg.arg] = TupV(rest)
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in out:
                    self.raise_(TypeError)
                out[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.raise_(TypeError)
        if a.kwarg:
            out[a.kwarg.arg] = DictV(extra)
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:] if nd else [], f.defaults):
            out.setdefault(n, d)
        for n, d in f.kwdefaults.items():
            out.setdefault(n, d)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in out:
                self.raise_(TypeError)
        return out

    def call_body(self, f, args, kwargs):
        if len(self.stack) > 40:
            raise Unsupported("recursion in %s" % f.qual)
        env = Env(f.mod, f.env, f)
        env.vars.update(self.bind(f, args, kwargs))
        if isinstance(f.node, ast.Lambda):
            self.stack.append(f)
            try:
                return self.ev(f.node.body, env)
            finally:
                self.stack.pop()
        self.inlined.add(f.qual)
        isgen = f.isgen
        if isgen is None:
            isgen = f.isgen = is_generator(f.node)
        if isgen:
            env.vars["%yield"] = ListV()
        self.stack.append(f)
        node = self.node
        try:
            self.block(f.node.body, env)
            r = None
        except ReturnEx as e:
            r = e.v
        finally:
            self.stack.pop()
            self.node = node
        if isgen:
            return GenV(env.vars["%yield"].parts)
        return r

    def instantiate(self, cls, args, kwargs):
        fields = cls.namedtuple_fields()
        if fields is not None:
            vals = dict(zip(fields, args))
            vals.update(kwargs)
            if len(args) > len(fields) or set(vals) != set(fields):
                self.raise_(TypeError)
            return TupV([vals[n] for n in fields], fields, cls)
        if cls.exc_class() is not None:
            return ExcV(cls, args)
        h = self.contracts.get(cls.qual)
        if h is not None:
            self.used_contracts.add(cls.qual)
            return h(self, cls, args, kwargs)
        from . import lib
        if lib.DD in cls.mro():
            o = ObjV(cls, {"default_factory": args[0] if args else None})
            m = cls.lookup("__missing__")
            miss = BoundV(m, o) if m is not None else (args[0] if args else None)
            if m is None and miss is not None:
                f = miss
                miss = Native("default_factory", lambda I, a, k: I.call(f, []))
            return MapV(None, lambda c: FF, lambda c: None, miss)
        o = ObjV(cls)
        init = cls.lookup("__init__")
        if init is not None:
            self.call(BoundV(init, o) if not isinstance(init, Native) else init, args, kwargs)
        return o

    # -- attributes ---------------------------------------------------------
    def getattr(self, o, name):
        from . import lib
        if isinstance(o, ObjV):
            cls = o.cls
            cv = cls.lookup(name) if isinstance(cls, ClassV) else None
            if isinstance(cv, PropV) and cv.kind == "property":
                return self.call(cv.fget, [o])
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Poison):
                    raise Unsupported("attribute %s: %s" % (name, v.why))
                return v
            if cv is not None:
                return self.bind_attr(cv, o, cls)
            if name == "__class__":
                return cls
            m = lib.obj_method(self, o, name)
            if m is not None:
                return m
            if isinstance(cls, ClassV) and cls.mod is not None and o.tag is None:
                self.raise_(AttributeError, name)
            raise Unsupported("attribute %s of %r" % (name, o))
        if isinstance(o, ModV):
            if name in o.ns:
                v = o.ns[name]
                return v() if callable(v) and getattr(v, "lazy", False) else v
            return Opaque(o.name + "." + name)
        if isinstance(o, TupV):
            if o.names and name in o.names:
                return o.items[o.names.index(name)]
            if o.cls is not None:
                cv = o.cls.lookup(name)
                if cv is not None:
                    return self.bind_attr(cv, o, o.cls)
        if isinstance(o, ClassV):
            if name == "__name__":
                return o.name
            cv = o.lookup(name)
            if cv is not None:
                return self.bind_attr(cv, None, o)
        if isinstance(o, OptV):
            if self.branch(o.none):
                self.raise_(AttributeError)
            return self.getattr(o.v, name)
        if o is None:
            self.raise_(AttributeError)
        if isinstance(o, ExcV):
            if name == "args":
                return TupV(o.args)
            return Opaque("exc." + name)
        if isinstance(o, Opaque):
            return Opaque(o.tag + "." + name)
        m = lib.value_method(self, o, name)
        if m is not None:
            return m
        raise Unsupported("attribute %s of %r" % (name, o))

    def bind_attr(self, cv, o, cls):
        if isinstance(cv, PropV):
            if cv.kind == "static":
                return cv.fget
            if cv.kind == "class":
                return BoundV(cv.fget, cls)
            if cv.kind == "property" and o is not None:
                return self.call(cv.fget, [o])
            return cv
        if isinstance(cv, ObjV) and isinstance(cv.cls, ClassV) and cv.cls.lookup("__get__"):
            return self.call(BoundV(cv.cls.lookup("__get__"), cv), [o, cls])
        if isinstance(cv, (FuncV, Native)) and o is not None:
            return BoundV(cv, o)
        return cv

    def setattr(self, o, name, v):
        if isinstance(o, ObjV):
            cv = o.cls.lookup(name) if isinstance(o.cls, ClassV) else None
            if isinstance(cv, PropV) and cv.kind == "property":
                if cv.fset is None:
                    self.raise_(AttributeError)
                self.call(cv.fset, [o, v])
                return
            o.attrs[name] = v
            return
        raise Unsupported("assignment to attribute of %r" % (o,))

    # -- subscripts ---------------------------------------------------------
    def getitem(self, o, k):
        if isinstance(o, DictV):
            if isinstance(k, Sym):
                for kk, v in o.d.items():
                    if self.branch(eqv(kk, k)):
                        return v
                self.raise_(KeyError)
            if k in o.d:
                return o.d[k]
            self.raise_(KeyError, k)
        if isinstance(o, MapV):
            kk = flatten(k, o.kshape) if o.kshape is not None else None
            if kk is not None and self.branch(o.dom(kk)):
                return o.val(kk)
            if o.missing is not None:
                return self.call(o.missing, [k])
            self.raise_(KeyError)
        if isinstance(o, TupV) and isinstance(k, int):
            try:
                return o.items[k]
            except IndexError:
                self.raise_(IndexError)
        if isinstance(o, ListV) and isinstance(k, int) and o.concrete:
            try:
                return o.items()[k]
            except IndexError:
                self.raise_(IndexError)
        if isinstance(o, str) and isinstance(k, int):
            return o[k]
        if isinstance(o, OptV):
            if self.branch(o.none):
                self.raise_(TypeError)
            return self.getitem(o.v, k)
        if o is None:
            self.raise_(TypeError)
        if isinstance(o, ObjV):
            if isinstance(o.cls, ClassV) and o.cls.lookup("__getitem__"):
                return self.call(BoundV(o.cls.lookup("__getitem__"), o), [k])
            from . import lib
            m = lib.obj_method(self, o, "__getitem__")
            if m is not None:
                return self.call(m, [k])
        if isinstance(o, Opaque):
            return Opaque(o.tag + "[]")
        raise Unsupported("subscript of %r" % (o,))

    def getslice(self, o, lo, hi, step):
        c = lambda v: v is None or isinstance(v, int)
        if c(lo) and c(hi) and c(step):
            s = slice(lo, hi, step)
            if isinstance(o, TupV):
                return TupV(o.items[s])
            if isinstance(o, ListV) and o.concrete:
                return ListV(o.parts[s])
            if isinstance(o, (str, bytes)):
                return o[s]
        if isinstance(o, (Opaque,)):
            return Opaque(o.tag + "[:]")
        from . import lib
        return lib.slice_value(self, o, lo, hi, step)

    def setitem(self, o, k, v):
        if isinstance(o, DictV):
            if isinstance(k, (Sym, TupV)):
                if not o.d and o.node is not None:
                    raise SymbolicDict(o.node)
                raise Unsupported("symbolic key in a concrete dict")
            d = dict(o.d)
            d[k] = v
            o.d = d
            return
        if isinstance(o, MapV):
            o.kshape = join_shape(o.kshape, shape_of(k))
            kk = flatten(k, o.kshape)
            dom, val = o.dom, o.val
            o.dom = lambda c: disj([dom(c), conj([x == y for x, y in zip(c, kk)])])
            o.val = lambda c: ite_val(conj([x == y for x, y in zip(c, kk)]), v, val, c)
            try:
                o.vshape = join_shape(o.vshape, shape_of(v))
            except Unsupported:
                pass
            return
        if isinstance(o, ListV) and isinstance(k, int) and o.concrete:
            ps = list(o.parts)
            try:
                ps[k] = Item(v)
            except IndexError:
                self.raise_(IndexError)
            o.parts = tuple(ps)
            return
        if isinstance(o, ObjV) and isinstance(o.cls, ClassV) and o.cls.lookup("__setitem__"):
            self.call(BoundV(o.cls.lookup("__setitem__"), o), [k, v])
            return
        raise Unsupported("item assignment to %r" % (o,))

    # -- statements ---------------------------------------------------------
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.node = s
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        m(s, env)

    def st_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def st_Pass(self, s, env):
        pass

    def st_Break(self, s, env):
        raise BreakEx()

    def st_Continue(self, s, env):
        raise ContinueEx()

    def st_Return(self, s, env):
        raise ReturnEx(self.ev(s.value, env) if s.value is not None else None)

    def st_Global(self, s, env):
        raise Unsupported("global statement")

    def st_Nonlocal(self, s, env):
        env.nonlocals = env.nonlocals | set(s.names)

    def st_Assert(self, s, env):
        if not self.test(self.ev(s.test, env)):
            self.raise_(AssertionError)

    def st_Import(self, s, env):
        for a in s.names:
            env.vars[a.asname or a.name.split(".")[0]] = self.loader.import_module(
                a.name if a.asname else a.name.split(".")[0])

    def st_ImportFrom(self, s, env):
        m = self.loader.import_module(s.module)
        for a in s.names:
            env.vars[a.asname or a.name] = self.getattr(m, a.name)

    def st_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            e = env
            if t.id in env.nonlocals:
                e = env.parent
                while e is not None and t.id not in e.vars:
                    e = e.parent
            e.vars[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), t)
            for x, y in zip(t.elts, items):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, t=None):
        if isinstance(v, OptV):
            if self.branch(v.none):
                self.raise_(TypeError)
            v = v.v
        if isinstance(v, TupV):
            items = list(v.items)
        elif isinstance(v, ListV) and v.concrete:
            items = v.items()
        elif v is None:
            self.raise_(TypeError)
        elif isinstance(v, Opaque):
            return [Opaque(v.tag + "[%d]" % i) for i in range(n)]
        else:
            parts = self.parts_of(v)
            if not all(isinstance(p, Item) for p in parts):
                raise Unsupported("unpacking %r" % (v,))
            items = [p.v for p in parts]
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)] if t is not None else []
        if star:
            i = star[0]
            tail = n - i - 1
            return items[:i] + [ListV([Item(x) for x in items[i:len(items) - tail]])] + (
                items[len(items) - tail:] if tail else [])
        if len(items) != n:
            self.raise_(ValueError)
        return items

    def st_AugAssign(self, s, env):
        cur = self.ev(copy_load(s.target), env)
        rhs = self.ev(s.value, env)
        op = OPS[type(s.op)]
        if isinstance(cur, SetV) and op in ("|", "&", "-", "^"):
            if not isinstance(rhs, (SetV, MapV, BagV)):
                self.raise_(TypeError)
            r = self.binset(op, cur, rhs)
            cur.shape, cur.mem = r.shape, r.mem
            return
        if isinstance(cur, ListV) and op == "+":
            cur.parts = cur.parts + tuple(self.parts_of(rhs))
            return
        self.assign(s.target, self.binop(op, cur, rhs), env)

    def st_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o, k = self.ev(t.value, env), self.ev(t.slice, env)
                if isinstance(o, DictV):
                    if k not in o.d:
                        self.raise_(KeyError)
                    o.d = {a: b for a, b in o.d.items() if a != k}
                elif isinstance(o, MapV):
                    kk = flatten(k, o.kshape)
                    if not self.branch(o.dom(kk)):
                        self.raise_(KeyError)
                    dom = o.dom
                    o.dom = lambda c: conj([dom(c), neg(conj([x == y for x, y in zip(c, kk)]))])
                else:
                    raise Unsupported("del")
            else:
                raise Unsupported("del")

    def st_If(self, s, env):
        if self.test(self.ev(s.test, env)):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def st_For(self, s, env):
        parts = self.parts_of(self.ev(s.iter, env))

        def body(env2, v):
            self.assign(s.target, v, env2)
            self.block(s.body, env2)
        try:
            self.for_each(parts, env, body)
        except BreakEx:
            return
        self.block(s.orelse, env)

    def st_While(self, s, env):
        always = isinstance(s.test, ast.Constant) and bool(s.test.value)
        h = self.hooks.get("while")
        if h is not None and h(self, s, env, always):
            return
        try:
            self.while_loop(lambda e: self.ev(s.test, e), env,
                            lambda e, _: self.block(s.body, e), always)
        except BreakEx:
            return
        self.block(s.orelse, env)

    def st_Raise(self, s, env):
        if s.exc is None:
            cur = env.vars.get("%exc")
            e = env
            while cur is None and e.parent is not None:
                e = e.parent
                cur = e.vars.get("%exc")
            if cur is None:
                self.raise_(RuntimeError)
            raise PyRaise(cur)
        v = self.ev(s.exc, env)
        if isinstance(v, (ClassV, type)):
            v = self.call(v, [])
        if isinstance(v, ExcV):
            raise PyRaise(ExcV(v.cls, v.args, self.where()))
        raise Unsupported("raise of %r" % (v,))

    def matches(self, exc, pat):
        if isinstance(pat, TupV):
            return any(self.matches(exc, p) for p in pat.items)
        if isinstance(pat, ClassV):
            if isinstance(exc.cls, ClassV):
                return pat in exc.cls.mro()
            return False
        if isinstance(pat, type):
            pc = exc.pycls()
            if pc is None:
                return pat in (Exception, BaseException)
            if issubclass(pc, pat):
                return True
            if any(issubclass(pat, n) for n in getattr(exc, "isnot", ())):
                return False
            if issubclass(pat, pc) and pc is not pat and pc in (OSError, Exception):
                # an unspecific error could be of the more specific kind
                return self.choose("is_" + pat.__name__)
            return False
        if isinstance(pat, Opaque):
            return self.choose("matches")
        raise Unsupported("except clause %r" % (pat,))

    def st_Try(self, s, env):
        try:
            self.try_inner(s, env)
        except CONTROL:
            self.block(s.finalbody, env)
            raise
        self.block(s.finalbody, env)

    def try_inner(self, s, env):
        try:
            self.block(s.body, env)
        except PyRaise as e:
            for h in s.handlers:
                if h.type is None or self.matches(e.exc, self.ev(h.type, env)):
                    saved = env.vars.get("%exc")
                    env.vars["%exc"] = e.exc
                    if h.name:
                        env.vars[h.name] = e.exc
                    try:
                        self.block(h.body, env)
                    finally:
                        if saved is None:
                            env.vars.pop("%exc", None)
                        else:
                            env.vars["%exc"] = saved
                    return
            raise
        self.block(s.orelse, env)

    def st_With(self, s, env):
        self.with_items(s.items, s.body, env)

    def with_items(self, items, body, env):
        if not items:
            self.block(body, env)
            return
        it = items[0]
        cm = self.ev(it.context_expr, env)
        from . import lib
        enter, leave = lib.context_manager(self, cm)
        v = enter()
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        try:
            self.with_items(items[1:], body, env)
        except PyRaise as e:
            if leave(e.exc):
                return
            raise
        except CONTROL:
            leave(None)
            raise
        leave(None)

    def st_FunctionDef(self, s, env):
        f = self.make_func(s, env)
        env.vars[s.name] = f

    def make_func(self, s, env, cls=None, prefix=None):
        a = s.args
        defaults = tuple(self.ev(d, env) for d in a.defaults)
        kwd = {k.arg: self.ev(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        if prefix is None:
            prefix = (env.func.qual + ".<locals>") if env.func is not None else env.mod.name
        name = getattr(s, "name", "<lambda>")
        f = FuncV(s, env.mod, env if env.func is not None else None, prefix + "." + name, cls, defaults, kwd)
        for d in reversed(getattr(s, "decorator_list", [])):
            f = self.call(self.ev(d, env), [f])
        return f

    def st_ClassDef(self, s, env):
        env.vars[s.name] = self.make_class(s, env)

    def make_class(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        cls = ClassV(s.name, env.mod.name + "." + s.name, env.mod, bases)
        cenv = Env(env.mod, env, None)
        cenv.vars = cls.ns
        for st in s.body:
            if isinstance(st, ast.FunctionDef):
                try:
                    fn = self.make_func(st, cenv, cls, cls.qual)
                except Unsupported as e:
                    fn = Opaque("%s.%s (%s)" % (cls.qual, st.name, e))
                cls.ns[st.name] = fn
            elif isinstance(st, ast.ClassDef):
                cls.ns[st.name] = self.make_class(st, cenv)
            else:
                try:
                    self.stmt(st, cenv)
                except (Unsupported, PyRaise) as e:
                    for t in getattr(st, "targets", []):
                        if isinstance(t, ast.Name):
                            cls.ns[t.id] = Opaque("%s.%s (%s)" % (cls.qual, t.id, e))
        return cls

    # -- expressions --------------------------------------------------------
    def ev(self, e, env):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, env)

    def ex_Constant(self, e, env):
        return e.value

    def ex_Name(self, e, env):
        return self.lookup(e.id, env)

    def lookup(self, name, env):
        x = env
        while x is not None:
            if name in x.vars:
                v = x.vars[name]
                if isinstance(v, Poison):
                    raise Unsupported("variable %s: %s" % (name, v.why))
                return v
            x = x.parent
        if name in env.mod.ns:
            return env.mod.ns[name]
        from . import lib
        if name in lib.BUILTINS:
            return lib.BUILTINS[name]
        self.raise_(NameError, name)

    def ex_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def ex_Subscript(self, e, env):
        o = self.ev(e.value, env)
        if isinstance(e.slice, ast.Slice):
            f = lambda x: None if x is None else self.ev(x, env)
            return self.getslice(o, f(e.slice.lower), f(e.slice.upper), f(e.slice.step))
        if isinstance(o, (ClassV, Opaque)):
            return o            # a type annotation such as Set[str]
        return self.getitem(o, self.ev(e.slice, env))

    def ex_Tuple(self, e, env):
        return TupV(self.elts(e.elts, env))

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                ps = self.parts_of(self.ev(x.value, env))
                if not all(isinstance(p, Item) for p in ps):
                    raise Unsupported("starred symbolic sequence")
                out.extend(p.v for p in ps)
            else:
                out.append(self.ev(x, env))
        return out

    def ex_List(self, e, env):
        parts = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                parts.extend(self.parts_of(self.ev(x.value, env)))
            else:
                parts.append(Item(self.ev(x, env)))
        return ListV(parts)

    def ex_Set(self, e, env):
        s = empty_set()
        for v in self.elts(e.elts, env):
            self.set_add(s, v)
        return s

    def ex_Dict(self, e, env):
        if all(k is not None for k in e.keys):
            ks = [self.ev(k, env) for k in e.keys]
            vs = [self.ev(v, env) for v in e.values]
            if all(isinstance(k, (str, int)) for k in ks) and id(e) not in self.symbolic_dicts:
                d = DictV(dict(zip(ks, vs)))
                d.node = None if ks else id(e)
                return d
            m = MapV(None, lambda c: FF, lambda c: None)
            for k, v in zip(ks, vs):
                self.setitem(m, k, v)
            return m
        raise Unsupported("dict display")

    def ex_JoinedStr(self, e, env):
        fmt, args = "", []
        for v in e.values:
            if isinstance(v, ast.Constant):
                fmt += v.value.replace("{", "{{").replace("}", "}}")
            else:
                how = "" if v.conversion in (-1, None) else "!" + chr(v.conversion)
                if v.format_spec is not None:
                    if not all(isinstance(x, ast.Constant) for x in v.format_spec.values):
                        raise Unsupported("computed format")
                    how += ":" + "".join(x.value for x in v.format_spec.values)
                fmt += "{%d%s}" % (len(args), how)
                args.append(self.ev(v.value, env))
        from . import lib
        return lib.str_format(self, fmt, args)

    def ex_Lambda(self, e, env):
        return self.make_func(e, env)

    def ex_IfExp(self, e, env):
        return self.ev(e.body if self.test(self.ev(e.test, env)) else e.orelse, env)

    def ex_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            if i == len(e.values) - 1:
                return v
            if self.test(v) != isand:
                return v
        return v

    def ex_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else wrapb(neg(t))
        if isinstance(e.op, ast.USub):
            return -v if isinstance(v, (int, float)) else Sym(-v.e)
        raise Unsupported("unary operator")

    def ex_BinOp(self, e, env):
        return self.binop(OPS[type(e.op)], self.ev(e.left, env), self.ev(e.right, env))

    def binop(self, op, a, b):
        if isinstance(a, OptV) or isinstance(b, OptV):
            x = a if isinstance(a, OptV) else b
            if self.branch(x.none):
                self.raise_(TypeError)
            return self.binop(op, a.v if x is a else a, b.v if x is b and x is not a else b)
        conc = (bool, int, float, str, bytes)
        if isinstance(a, conc) and isinstance(b, conc):
            import operator as o
            fn = {"+": o.add, "-": o.sub, "*": o.mul, "/": o.truediv, "//": o.floordiv, "%": o.mod,
                  "**": o.pow, "|": o.or_, "&": o.and_, "^": o.xor, "<<": o.lshift, ">>": o.rshift}[op]
            try:
                return fn(a, b)
            except Exception as ex:
                self.raise_(type(ex))
        if op in "|&-^" and isinstance(a, (SetV, MapV)) and isinstance(b, (SetV, MapV, BagV)):
            return self.binset(op, a, b)
        if op == "+" and isinstance(a, ListV) and isinstance(b, ListV):
            return ListV(a.parts + b.parts)
        if op == "+" and isinstance(a, TupV) and isinstance(b, TupV):
            return TupV(a.items + b.items)
        if isinstance(a, ObjV) and isinstance(a.cls, ClassV):
            m = a.cls.lookup(DUNDER.get(op, "?"))
            if m is not None:
                return self.call(BoundV(m, a), [b])
        if any(isinstance(v, ObjV) and v.tag in ("datetime", "timedelta") for v in (a, b)):
            from . import dates
            r = dates.binop(self, op, a, b)
            if r is not None:
                return r
        isstr = lambda v: isinstance(v, str) or (isinstance(v, Sym) and strsort(v.sort))
        if isstr(a) and isstr(b) and op == "+":
            if self.strsort == P:
                if self.strsort == P and getattr(self, "flat_concat", True):
                    from . import lib
                    return lib.concat_all(self, [a, b])
                return Sym(concat(term(a, P), term(b, P)))
            return Sym(z3.Concat(term(a, self.strsort), term(b, self.strsort)))
        if isstr(a) and op == "%":
            from . import lib
            return lib.str_percent(self, a, b)
        num = lambda v: isinstance(v, (bool, int, float)) or (isinstance(v, Sym) and v.sort in (INT, REAL, B))
        if num(a) and num(b):
            if op == "/":
                x, y = term(a, REAL), term(b, REAL)
                if self.branch(y == 0):
                    self.raise_(ZeroDivisionError)
                return Sym(x / y)
            s = REAL if any(isinstance(v, float) or (isinstance(v, Sym) and v.sort == REAL) for v in (a, b)) else INT
            x, y = term(a, s), term(b, s)
            if op == "+":
                return Sym(x + y)
            if op == "-":
                return Sym(x - y)
            if op == "*":
                return Sym(x * y)
            if op == "//" and s == INT and isinstance(b, int) and b > 0:
                return Sym(x / y)
            if op == "%" and s == INT and isinstance(b, int) and b > 0:
                return Sym(x % y)
            if op == "**":
                if isinstance(b, int) and 0 <= b <= 8:
                    r = RealVal(1) if s == REAL else IntVal(1)
                    for _ in range(b):
                        r = r * x
                    return Sym(z3.simplify(r))
                return Sym(Function("pow", REAL, REAL, REAL)(term(a, REAL), term(b, REAL)))
        raise Unsupported("operator %s on %r and %r" % (op, a, b))

    def ex_Compare(self, e, env):
        left = self.ev(e.left, env)
        res = []
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, env)
            c = self.compare(op, left, right)
            if len(e.ops) == 1:
                return wrapb(c)
            if not self.branch(c if not isinstance(c, Sym) else c.e):
                return False
            left = right
        return True

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.Eq)):
            if isinstance(op, ast.Eq) and isinstance(a, OptV) and b is not None and not isinstance(b, OptV):
                return conj([neg(a.none), eqv(a.v, b)])
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                return self.fresh("eq_opaque", B)
            return eqv(a, b)
        if isinstance(op, (ast.IsNot, ast.NotEq)):
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                return self.fresh("eq_opaque", B)
            return neg(eqv(a, b))
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, OptV):
                if self.branch(b.none):
                    self.raise_(TypeError)
                b = b.v
            if b is None:
                self.raise_(TypeError)
            c = self.contains(b, a)
            if isinstance(op, ast.NotIn):
                return (not c) if isinstance(c, bool) else neg(c)
            return c
        if isinstance(a, OptV) or isinstance(b, OptV):
            x = a if isinstance(a, OptV) else b
            if self.branch(x.none):
                self.raise_(TypeError)
            return self.compare(op, a.v if x is a else a, b.v if x is b and x is not a else b)
        if a is None or b is None:
            self.raise_(TypeError)
        if isinstance(a, (SetV, MapV)) and isinstance(b, (SetV, MapV)):
            if isinstance(op, ast.LtE):
                return subset(a, b)
            if isinstance(op, ast.GtE):
                return subset(b, a)
            if isinstance(op, ast.Lt):
                return conj([subset(a, b), neg(subset(b, a))])
            if isinstance(op, ast.Gt):
                return conj([subset(b, a), neg(subset(a, b))])
        conc = (bool, int, float, str)
        if isinstance(a, conc) and isinstance(b, conc):
            return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b,
                    ast.GtE: lambda: a >= b}[type(op)]()
        isstr = lambda v: isinstance(v, str) or (isinstance(v, Sym) and strsort(v.sort))
        if isstr(a) and isstr(b):
            x, y = term(a, self.strsort), term(b, self.strsort)
            if self.strsort != P:
                raise Unsupported("string order")
            return {ast.Lt: lambda: slt(x, y), ast.Gt: lambda: slt(y, x),
                    ast.LtE: lambda: Or(slt(x, y), x == y), ast.GtE: lambda: Or(slt(y, x), x == y)}[type(op)]()
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return self.fresh("cmp_opaque", B)
        s = REAL if any(isinstance(v, float) or (isinstance(v, Sym) and v.sort == REAL) for v in (a, b)) else INT
        x, y = term(a, s), term(b, s)
        return {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y,
                ast.GtE: lambda: x >= y}[type(op)]()

    def ex_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return self.make_super(env)
        f = self.ev(e.func, env)
        node = self.node
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                ps = self.parts_of(self.ev(a.value, env))
                if not all(isinstance(p, Item) for p in ps):
                    if isinstance(f, ClassV) and f.exc_class() is not None:
                        args.append(Opaque("arguments"))
                        continue
                    raise Unsupported("call with a symbolic argument list")
                args.extend(p.v for p in ps)
            else:
                args.append(self.ev(a, env))
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if not isinstance(v, DictV):
                    raise Unsupported("call with symbolic keywords")
                kwargs.update(v.d)
            else:
                kwargs[k.arg] = v
        r = self.call(f, args, kwargs)
        self.node = node
        return r

    def make_super(self, env):
        x = env
        while x is not None and (x.func is None or x.func.cls is None):
            x = x.parent
        if x is None:
            raise Unsupported("super()")
        cls = x.func.cls
        first = x.func.node.args.args[0].arg
        self_ = x.vars[first]
        mro = self_.cls.mro()
        rest = mro[mro.index(cls) + 1:]
        proxy = ObjV(ClassV("super", "super", None, [], dict()), {}, "super")
        for c in reversed(rest):
            for k, v in c.ns.items():
                if isinstance(v, (FuncV, Native)):
                    proxy.attrs[k] = BoundV(v, self_)
        if "__init__" not in proxy.attrs:
            proxy.attrs["__init__"] = Native("object.__init__", lambda I, a, k: None)
        return proxy

    def ex_Starred(self, e, env):
        raise Unsupported("starred expression")

    def ex_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    # comprehensions are loops over a hidden accumulator
    def comp(self, e, env, acc, add):
        cenv = Env(env.mod, env, env.func)
        cenv.vars["%acc"] = acc

        def level(i, en):
            g = e.generators[i]
            parts = self.parts_of(self.ev(g.iter, en))
            if isinstance(acc, (SetV, MapV)):
                parts = [project(p) for p in parts]

            def body(en2, v):
                self.assign(g.target, v, en2)
                for c in g.ifs:
                    if not self.test(self.ev(c, en2)):
                        return
                if i + 1 < len(e.generators):
                    level(i + 1, en2)
                else:
                    add(en2)
            self.for_each(parts, en, body)
        level(0, cenv)
        return cenv.vars["%acc"]

    def ex_SetComp(self, e, env):
        return self.comp(e, env, empty_set(),
                         lambda en: self.set_add(en.vars["%acc"], self.ev(e.elt, en)))

    def ex_ListComp(self, e, env):
        return self.comp(e, env, ListV(), lambda en: list_append(en.vars["%acc"], self.ev(e.elt, en)))

    def ex_GeneratorExp(self, e, env):
        return GenV(self.ex_ListComp(e, env).parts)

    def ex_DictComp(self, e, env):
        return self.comp(e, env, MapV(None, lambda c: FF, lambda c: None),
                         lambda en: self.setitem(en.vars["%acc"], self.ev(e.key, en), self.ev(e.value, en)))

    def ex_Yield(self, e, env):
        v = self.ev(e.value, env) if e.value is not None else None
        x = env
        while "%yield" not in x.vars:
            x = x.parent
        list_append(x.vars["%yield"], v)
        return None

    def ex_YieldFrom(self, e, env):
        parts = self.parts_of(self.ev(e.value, env))
        x = env
        while "%yield" not in x.vars:
            x = x.parent
        l = x.vars["%yield"]
        l.parts = l.parts + tuple(parts)
        return None


def project(p):
    """Equal elements of an unordered sequence need to be put into a set or dict only once."""
    if not isinstance(p, Part) or p.keys or p.lt is not None or not isinstance(p.elem, (Sym, TupV)):
        return p
    try:
        ts = flatten(p.elem, shape_of(p.elem))
    except Unsupported:
        return p
    drop = [x for x in p.xs if not any(occurs(t, {x.get_id()}) for t in ts)]
    if not drop or len(drop) == len(p.xs):
        return p
    return Part([x for x in p.xs if not any(x.eq(d) for d in drop)], exists(drop, p.guard), p.elem)


def list_append(l, v):
    l.parts = l.parts + (Item(v),)


def wrapb(c):
    if isinstance(c, bool):
        return c
    if isinstance(c, Sym):
        return c
    c = simp_light(c)
    if is_true(c):
        return True
    if is_false(c):
        return False
    return Sym(c)


OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
       ast.Pow: "**", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}
DUNDER = {"+": "__add__", "-": "__sub__", "|": "__or__", "&": "__and__"}


def copy_load(t):
    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return t


def is_generator(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


_hq = {}


def has_quant(e):
    i = e.get_id()
    if i in _hq:
        return _hq[i][0]
    r = z3.is_quantifier(e) or any(has_quant(c) for c in e.children())
    _hq[i] = (r, e)
    return r


def finite_points(g, xs):
    """If g is x == a or x == b or ..., the list of points, else None."""
    cs = g.children() if z3.is_or(g) else [g]
    out = []
    for c in cs:
        eqs = c.children() if z3.is_and(c) else [c]
        pt = {}
        for q in eqs:
            if not z3.is_eq(q):
                return None
            for a, b in ((q.arg(0), q.arg(1)), (q.arg(1), q.arg(0))):
                hit = [i for i, x in enumerate(xs) if a.eq(x)]
                if hit and not occurs(b, {x.get_id() for x in xs}) and hit[0] not in pt:
                    pt[hit[0]] = b
                    break
            else:
                return None
        if len(pt) != len(xs):
            return None
        out.append([pt[i] for i in range(len(xs))])
    # several symbolic points could coincide: then enumeration would repeat them
    return out if len(out) == 1 else None


def same(a, b):
    if a is b:
        return True
    if type(a) is type(b):
        if isinstance(a, (bool, int, float, str)) and a == b:
            return True
        if isinstance(a, Sym) and a.e.eq(b.e):
            return True
        if isinstance(a, TupV) and len(a.items) == len(b.items) and all(map(same, a.items, b.items)):
            return True
        if isinstance(a, BoundV) and a.f is b.f and a.self_ is b.self_:
            return True
    return False


def ite_val(cond, v, oldfn, c):
    if is_true(cond):
        return v
    if is_false(cond):
        return oldfn(c)
    old = oldfn(c)
    return merge_val(cond, v, old)


def merge_val(cond, v, old):
    if old is None and v is None:
        return None
    if same(v, old):
        return v
    if old is None:
        # outside of the domain the value is irrelevant
        return v
    if isinstance(v, TupV) and isinstance(old, TupV) and len(v.items) == len(old.items):
        return TupV([merge_val(cond, a, b) for a, b in zip(v.items, old.items)], v.names, v.cls)
    s = join_shape(shape_of(v), shape_of(old))
    if isinstance(s, Tup):
        raise Unsupported("merging values")
    return Sym(If(cond, term(v, s), term(old, s)))


class Loc:
    """A location written by a loop body: the content of a container, or a slot."""
    def __init__(self, obj, key, tag):
        self.obj, self.key, self.tag = obj, key, tag
        self.kind = None          # set map list gen scalar rebind temp poison dictv
        self.shape = self.vshape = None
        self.decl = self.vdecl = None
        self.invs = self.steps = None

    def name(self):
        return "%s%s" % (type(self.obj).__name__, "" if self.key is None else "." + str(self.key))

    # what kind of value does the location take?
    def learn(self, I, c, snap):
        if self.key is None:
            o = c
            before = (self.kind, self.shape, self.vshape)
            self.learn_container(o)
            return before != (self.kind, self.shape, self.vshape)
        new = c.slots().get(self.key)
        orig = self.obj.slots().get(self.key)
        before = (self.kind, self.shape, self.vshape)
        if self.key not in self.obj.slots():
            self.kind = "temp"
        elif isinstance(new, (SetV, MapV)) and isinstance(orig, (SetV, MapV)):
            if self.kind != "poison":
                self.learn_container(orig)
                self.learn_container(new)
                self.kind = "re" + self.kind if not self.kind.startswith("re") else self.kind
        else:
            try:
                if isinstance(orig, (DictV, ListV)) or isinstance(new, (DictV, ListV)):
                    raise Unsupported("container")
                sh = join_shape(join_shape(self.shape, shape_of(orig)), shape_of(new))
                if self.kind != "poison":
                    self.kind, self.shape = "scalar", sh
            except Unsupported:
                self.kind = "poison"
        return before != (self.kind, self.shape, self.vshape)

    def learn_container(self, o):
        if isinstance(o, (SetV, BagV)):
            self.kind = "set" if not (self.kind or "").startswith("re") else self.kind
            self.shape = join_shape(self.shape, o.shape)
        elif isinstance(o, MapV):
            self.kind = "map" if not (self.kind or "").startswith("re") else self.kind
            self.shape = join_shape(self.shape, o.kshape)
            self.vshape = join_shape(self.vshape, o.vshape)
        elif isinstance(o, ListV):
            self.kind = "list"
        elif isinstance(o, GenV):
            self.kind = "gen"
        else:
            raise Unsupported("loop writes %r" % (o,))

    # the state of the location at the start of an arbitrary iteration
    def havoc(self, I, omap, ctx, live=False):
        c = omap.get(id(self.obj))
        if c is None:
            return
        csorts = [x.sort() for x in ctx]
        k = self.kind
        if k is None:
            return
        # the same name on each way that leads here
        if live:
            n = "%s!%d" % (self.tag, I.symbol_id())
            self.decl = self.vdecl = None
        else:
            n = "%s!%s" % (self.tag, "_".join(x.name() for x in sorts_of(self.shape))
                           if self.shape is not None else "")
        if k in ("set", "reset"):
            ss = sorts_of(self.shape) if self.shape is not None else []
            if self.decl is None:
                self.decl = Function("at!" + n, *(csorts + ss + [B]))
            d, cc = self.decl, list(ctx)
            mem = lambda t: d(*(cc + list(t)))
            if k == "set":
                c.shape, c.mem = self.shape, mem
            else:
                c.slots()[self.key] = SetV(self.shape, mem)
        elif k in ("map", "remap"):
            ss = sorts_of(self.shape)
            if self.decl is None:
                self.decl = Function("at!" + n, *(csorts + ss + [B]))
                self.vdecl = [Function("atv!%s!%d" % (n, i), *(csorts + ss + [s])) for i, s in
                              enumerate(sorts_of(self.vshape) if self.vshape is not None else [])]
            d, cc, vs, vsh = self.decl, list(ctx), self.vdecl, self.vshape
            dom = lambda t: d(*(cc + list(t)))
            val = lambda t: unflatten(vsh, [v(*(cc + list(t))) for v in vs])
            if k == "map":
                c.kshape, c.dom, c.val, c.vshape = self.shape, dom, val, vsh
            else:
                c.slots()[self.key] = MapV(self.shape, dom, val, None, vsh)
        elif k == "list":
            c.parts = (Prefix("prefix!%s" % self.tag),)
        elif k == "gen":
            c.used = True
        elif k == "scalar":
            if self.decl is None:
                self.decl = [Function("at!%s!%d" % (n, i), *(csorts + [s]))
                             for i, s in enumerate(sorts_of(self.shape))]
            c.slots()[self.key] = unflatten(self.shape, [d(*ctx) for d in self.decl])
        elif k == "temp":
            c.slots().pop(self.key, None)
            if live:
                c.slots()[self.key] = Poison("assigned in a while loop")
        else:
            c.slots()[self.key] = Poison("changed by a loop in an unsupported way")

    def out(self, run):
        (kind, val, pairs, snap, omap), pc, gh = run
        c = omap[id(self.obj)]
        return c if self.key is None else c.slots().get(self.key)

    # the effect of one iteration
    def transform(self, I, normal, bc, q, lt, outer, sub, fresh_xs):
        k = self.kind
        self.unsup = None
        if k in ("set", "reset", "map", "remap"):
            if self.shape is None:
                self.cs, self.keep, self.add = [], TT, FF
                return
            self.cs = gen_consts(self.shape)
            at = self.decl(*(outer + q.xs + self.cs))
            keep, add = [], []
            for r in normal:
                o = self.out(r)
                if isinstance(o, Poison) or not isinstance(o, (SetV, MapV, BagV)):
                    self.unsup = "unsupported"
                    return
                sh, mem = as_mem(o)
                f = mem(self.cs) if sh is not None else FF
                b = bc(r)
                keep.append(imp(b, simp_light(z3.substitute(f, (at, TT)))))
                add.append(conj([b, simp_light(z3.substitute(f, (at, FF)))]))
            self.keep = simp_light(conj([simp_light(x) for x in keep]))
            self.add = simp_light(disj([simp_light(x) for x in add]))
            self.keyed(I, q, outer)
            if k in ("map", "remap"):
                self.transform_map(I, normal, bc, q, outer)
        elif k == "scalar":
            at = [d(*(outer + q.xs)) for d in self.decl]
            self.deltas = []
            ids = {a.get_id() for a in at}
            self.mode = "opaque"
            if len(at) == 1:
                s = at[0].sort()
                outs = [(bc(r), term(self.out(r), s)) for r in normal]
                if s == B:
                    self.mode = "bool"
                    self.cs = []
                    self.keep = simp_light(conj([imp(b, simp_light(z3.substitute(t, (at[0], TT)))) for b, t in outs]))
                    self.add = simp_light(disj([conj([b, simp_light(z3.substitute(t, (at[0], FF)))]) for b, t in outs]))
                elif s in (INT, REAL):
                    ds = [(b, z3.simplify(t - at[0], som=True)) for b, t in outs]
                    if all(not occurs(d, ids) for b, d in ds):
                        self.mode = "sum"
                        self.deltas = ds

    def keyed(self, I, q, outer):
        """If iteration x only changes elements with x as a component, it finds those in their initial state."""
        self.own_key = None
        if len(q.xs) != 1:
            return
        x = q.xs[0]
        for i, c in enumerate(self.cs):
            if c.sort() != x.sort():
                continue
            s = z3.Solver()
            s.set("timeout", 500)
            s.add(c != x, disj([self.add, neg(self.keep)]))
            if s.check() != z3.unsat:
                continue
            n = len(outer) + 1
            self.own_key = (i, x)
            if not (mentions(self.keep, self.decl) or mentions(self.add, self.decl)):
                return

            def fn(d, args):
                if d.eq(self.decl) and args[n + i].eq(x) and args[n - 1].eq(x):
                    return self.initial(args[n:])
            at = lambda e: simp_light(rewrite(z3.substitute(e, (c, x)), fn))
            self.add = conj([c == x, at(self.add)])
            self.keep = disj([neg(c == x), at(self.keep)])
            return

    def transform_map(self, I, normal, bc, q, outer):
        """What is written to each component of the value of a cell, and under which condition."""
        self.writes = []
        if self.vshape is None:
            return
        ats = [v(*(outer + q.xs + self.cs)) for v in self.vdecl]
        self.writes = [[] for a in ats]
        for r in normal:
            o = self.out(r)
            v = o.val(self.cs)
            if v is None:
                continue
            for i, (t, a) in enumerate(zip(flatten(v, self.vshape), ats)):
                res = split_write(t, a)
                if res is None:
                    self.unsup = "map update in terms of the old value"
                    return
                w = self.own(I, q, outer, res[0])
                if not is_false(w):
                    self.writes[i].append((simp_light(conj([bc(r), w])), res[1]))

    def own(self, I, q, outer, w):
        """An iteration that looks for its own key only finds it in its initial state if no other one changes it."""
        if self.own_key is None or not mentions(w, self.decl):
            return w
        i, x = self.own_key
        n = len(outer) + 1

        def fn(d, args):
            if d.eq(self.decl) and args[n + i].eq(x) and args[n - 1].eq(x):
                return self.initial(args[n:])
        return simp_light(rewrite(w, fn))

    def fixed(self, i, q):
        """What every writing iteration writes to component i of a cell, if that does not depend on the iteration."""
        out = None
        for w, nv in self.writes[i]:
            eqs = solve_some(w, q.xs)
            e = nv
            for _ in eqs:
                e = z3.substitute(e, *eqs)
            if occurs(e, {x.get_id() for x in q.xs}) or out is not None and not out.eq(e):
                return None
            out = e
        return out

    def value(self, i, q, lt, sub, fresh_xs, old, cs, upto=None):
        """Component i of the value of a cell, if the cell determines the iteration that writes it."""
        fixed = self.fixed(i, q)
        if fixed is not None:
            new = z3.substitute(fixed, *list(zip(self.cs, cs)))
            if old is None:
                return new  # matters only where something is written
            if any(solve_point(w, q.xs, self.cs) is None for w, _ in self.writes[i]):
                ys = fresh_xs()
                lim = [lt(ys, upto)] if upto is not None else []
                w = z3.substitute(disj([sub(w, ys) for w, _ in self.writes[i]]), *list(zip(self.cs, cs)))
                return If(exists(ys, conj([sub(q.guard, ys), w] + lim)), new, old)
        v = old
        for w, nv in self.writes[i]:
            pt = solve_point(w, q.xs, self.cs)
            if pt is None:
                return None
            pr = list(zip(q.xs, pt))
            s1 = lambda e: z3.substitute(z3.substitute(e, *pr), *list(zip(self.cs, cs)))
            lim = [s1(lt(q.xs, upto))] if upto is not None else []
            cond = simp_light(conj([s1(q.guard), s1(w)] + lim))
            v = s1(nv) if is_true(cond) else v if is_false(cond) else If(cond, s1(nv), v)
        return v

    def value_facts(self, i, q, lt, sub, fresh_xs, old, f, cs, upto=None):
        """The last iteration that writes a cell determines its value."""
        at = lambda e, y: z3.substitute(sub(e, y), *list(zip(self.cs, cs)))
        anyw = disj([w for w, _ in self.writes[i]])
        lim = lambda y: [lt(y, upto)] if upto is not None else []
        out, ys = [], fresh_xs()
        for w, v in self.writes[i]:
            zs = fresh_xs()
            last = neg(exists(zs, conj([sub(q.guard, zs), lt(ys, zs), at(anyw, zs)] + lim(zs))))
            out.append((ys, imp(conj([sub(q.guard, ys), at(w, ys), last] + lim(ys)), f == at(v, ys))))
        if old is not None:
            ys = fresh_xs()
            out.append(([], imp(neg(exists(ys, conj([sub(q.guard, ys), at(anyw, ys)] + lim(ys)))), f == old)))
        return out

    def define_values(self, I, q, lt, outer, sub, fresh_xs):
        init = self.obj if self.key is None else self.obj.slots()[self.key]
        ov = init.val(self.cs) if isinstance(init, MapV) else None
        old = flatten(ov, self.vshape) if ov is not None else [None] * len(self.vdecl)
        # inside of the definitions the variables of the iteration are bound
        up = [const("u", x.sort()) for x in q.xs]
        for i, d in enumerate(self.vdecl):
            f = d(*(outer + up + self.cs))
            v = self.value(i, q, lt, sub, fresh_xs, old[i], self.cs, up) if old[i] is not None else None
            g = sub(q.guard, up)
            if v is not None:
                I.defs[d.name()] = [forall(outer + up + self.cs, imp(g, f == v))]
            else:
                I.defs[d.name()] = [forall(outer + up + self.cs + ys, imp(g, e))
                                    for ys, e in self.value_facts(i, q, lt, sub, fresh_xs, old[i], f, self.cs, up)]

    # facts that define the state at the start of iteration x
    def define(self, I, q, lt, outer, sub, fresh_xs):
        if self.kind in ("set", "reset", "map", "remap") or (self.kind == "scalar" and self.mode == "bool"):
            if self.unsup or (self.kind != "scalar" and self.shape is None):
                return
            d = self.decl if self.kind != "scalar" else self.decl[0]
            body = d(*(outer + q.xs + self.cs)) == self.closed(I, q, lt, sub, fresh_xs, self.cs, q.xs)
            f = forall(outer + q.xs + self.cs, imp(q.guard, body))
            I.defs[d.name()] = [f]
            if self.kind in ("map", "remap") and self.vdecl:
                self.define_values(I, q, lt, outer, sub, fresh_xs)

    def initial(self, cs):
        if self.kind == "scalar":
            return term(self.obj.slots()[self.key], B)
        o = self.obj if self.key is None else self.obj.slots()[self.key]
        sh, mem = as_mem(o)
        return mem(cs) if sh is not None else FF

    def closed(self, I, q, lt, sub, fresh_xs, cs, upto=None):
        """Membership of cs after the iterations before `upto` (or after all)."""
        def at(e, ys):
            return z3.substitute(sub(e, ys), *list(zip(self.cs, cs))) if self.cs else sub(e, ys)
        lim = lambda ys: [lt(ys, upto)] if upto is not None else []
        init = self.initial(cs)
        parts = []
        if is_true(self.keep):
            parts.append(init)
        elif not is_false(init):
            ys = fresh_xs()
            parts.append(conj([init, neg(exists(ys, conj([sub(q.guard, ys)] + lim(ys) + [neg(at(self.keep, ys))])))]))
        if not is_false(self.add):
            ys = fresh_xs()
            g = [sub(q.guard, ys)] + lim(ys) + [at(self.add, ys)]
            if not is_true(self.keep):
                zs = fresh_xs()
                g.append(neg(exists(zs, conj([sub(q.guard, zs), lt(ys, zs)] + lim(zs) + [neg(at(self.keep, zs))]))))
            parts.append(exists(ys, conj(g)))
        return simp_light(disj(parts))

    # for scalars without a closed form: the state after one iteration is the state before the next
    def successor(self, I, q, normal, bc, lt, outer, sub, fresh_xs):
        at = lambda xs: [d(*(outer + list(xs))) for d in self.decl]
        old = flatten(self.obj.slots()[self.key], self.shape)
        outs = [(bc(r), flatten(self.out(r), self.shape)) for r in normal]
        eqs = lambda a, b: conj([x == y for x, y in zip(a, b)])
        xs, ys, zs = fresh_xs(), fresh_xs(), fresh_xs()
        first = conj([sub(q.guard, xs), forall(zs, imp(sub(q.guard, zs), neg(lt(zs, xs))))])
        after = lambda v, xs: conj([imp(sub(b, xs), eqs(v, [sub(o, xs) for o in out])) for b, out in outs])
        nxt = conj([sub(q.guard, xs), sub(q.guard, ys), lt(xs, ys),
                    forall(zs, neg(conj([sub(q.guard, zs), lt(xs, zs), lt(zs, ys)])))])
        fs = [forall(outer + xs, imp(first, eqs(at(xs), old))),
              forall(outer + xs + ys, imp(nxt, after(at(ys), xs)))]
        last = conj([sub(q.guard, xs), forall(zs, imp(sub(q.guard, zs), neg(lt(xs, zs))))])
        self.steps = fs
        self.next_at = lambda xs, ys: after(at(ys), xs)
        self.last_at = lambda xs, v: after(v, xs)
        self.last = lambda v: [forall(xs, imp(last, after(v, xs))),
                               imp(neg(exists(xs, sub(q.guard, xs))), eqs(v, old))]

    # put the state at iteration x0 into the live object
    def set_at(self, I, outer, x0):
        k = self.kind
        args = list(outer) + list(x0)
        if k in ("set", "reset"):
            d = self.decl
            mem = lambda t: d(*(args + list(t)))
            if k == "set":
                self.obj.shape, self.obj.mem = self.shape, mem
            else:
                self.obj.slots()[self.key] = SetV(self.shape, mem)
        elif k in ("map", "remap"):
            d, vs, vsh = self.decl, self.vdecl, self.vshape
            m = MapV(self.shape, lambda t: d(*(args + list(t))),
                     lambda t: unflatten(vsh, [v(*(args + list(t))) for v in vs]), None, vsh)
            if k == "map":
                self.obj.kshape, self.obj.dom, self.obj.val, self.obj.vshape = m.kshape, m.dom, m.val, vsh
            else:
                self.obj.slots()[self.key] = m
        elif k == "list":
            self.obj.parts = (Prefix("partial!%s" % self.tag),)
        elif k == "gen":
            self.obj.used = True
        elif k == "scalar":
            self.obj.slots()[self.key] = unflatten(self.shape, [d(*args) for d in self.decl])
        elif k == "temp":
            self.obj.slots()[self.key] = Poison("last assigned in a loop")
        else:
            self.obj.slots()[self.key] = Poison("changed by a loop in an unsupported way")

    # the state after the loop
    def finish(self, I, normal, bc, q, lt, outer, sub, fresh_xs):
        k = self.kind
        if self.unsup:
            if self.key is not None:
                self.obj.slots()[self.key] = Poison("loop: " + self.unsup)
                return
            raise Unsupported("loop: " + self.unsup)
        if k in ("set", "reset", "map", "remap"):
            shape = self.shape
            if shape is None:
                return
            init_obj = self.obj if self.key is None else self.obj.slots()[self.key]
            ish, imem = as_mem(init_obj)
            frozen = Loc(self.obj, self.key, self.tag)
            frozen.__dict__.update(self.__dict__)
            frozen.initial = lambda cs: imem(cs) if ish is not None else FF
            cache = {}

            def mem(t):
                key = tuple(x.get_id() for x in t)
                if key not in cache:
                    cache[key] = (frozen.closed(I, q, lt, sub, fresh_xs, list(t)), t)
                return cache[key][0]
            if k == "set":
                self.obj.shape, self.obj.mem = shape, mem
            elif k == "reset":
                self.obj.slots()[self.key] = SetV(shape, mem)
            else:
                val = self.finish_map(I, init_obj, q, lt, outer, sub, fresh_xs)
                if k == "map":
                    self.obj.kshape, self.obj.dom, self.obj.val, self.obj.vshape = shape, mem, val, self.vshape
                else:
                    self.obj.slots()[self.key] = MapV(shape, mem, val, None, self.vshape)
        elif k == "list":
            self.finish_list(I, normal, bc, q, lt, outer)
        elif k == "gen":
            self.obj.used = True
        elif k == "scalar":
            old = self.obj.slots()[self.key]
            if self.mode == "bool":
                self.obj.slots()[self.key] = wrapb(self.closed(I, q, lt, sub, fresh_xs, []))
                return
            if self.mode == "sum":
                s = self.decl[0].range()
                delta = RealVal(0) if s == REAL else IntVal(0)
                for b, d in self.deltas:
                    delta = If(b, d, delta) if not is_true(b) else d
                delta = z3.simplify(delta)
                t = I.sum_term(q.xs, q.guard, delta)
                o = term(old, s)
                if self.steps:
                    for f in self.last([o + t]):
                        I.assume(f, "s")
                self.obj.slots()[self.key] = Sym(t if z3.simplify(o == 0).eq(TT) else o + t)
                return
            new = [I.fresh("last", s) for s in sorts_of(self.shape)]
            ys = fresh_xs()
            none = neg(exists(ys, sub(q.guard, ys)))
            I.assume(imp(none, conj([a == b for a, b in zip(new, flatten(old, self.shape))])))
            if self.steps:
                for f in self.last(new):
                    I.assume(f, "s")
            self.obj.slots()[self.key] = unflatten(self.shape, new)
        elif k == "temp":
            self.obj.slots()[self.key] = Poison("last assigned in a loop")
        else:
            self.obj.slots()[self.key] = Poison("changed by a loop in an unsupported way")

    def finish_map(self, I, init, q, lt, outer, sub, fresh_xs):
        vsh = self.vshape
        oldval = init.val if isinstance(init, MapV) else (lambda c: None)
        if vsh is None:
            return oldval
        frozen = copy.copy(self)
        # one-point case: the iteration that writes a cell is determined by the cell
        point = all(self.fixed(i, q) is not None or all(solve_point(w, q.xs, self.cs) is not None for w, _ in ws)
                    for i, ws in enumerate(self.writes))
        if point:
            def val(c):
                ov = oldval(c)
                old = flatten(ov, vsh) if ov is not None else [None] * len(frozen.vdecl)
                out = []
                for i, o in enumerate(old):
                    if o is None:
                        ws = frozen.writes[i]
                        if not ws:
                            return None
                        if frozen.fixed(i, q) is not None:
                            out.append(frozen.value(i, q, lt, sub, fresh_xs, None, list(c)))
                            continue
                        pt = solve_point(ws[0][0], q.xs, frozen.cs)
                        o = z3.substitute(z3.substitute(ws[0][1], *list(zip(q.xs, pt))), *list(zip(frozen.cs, c)))
                    out.append(frozen.value(i, q, lt, sub, fresh_xs, o, list(c)))
                return unflatten(vsh, out)
            return val
        ss = sorts_of(self.shape)
        F = [I.fresh_fn("mapval", *(ss + [s])) for s in sorts_of(vsh)]
        cs = gen_consts(self.shape)
        ov = oldval(cs)
        old = flatten(ov, vsh) if ov is not None else [None] * len(F)
        for i, f in enumerate(F):
            for ys, e in self.value_facts(i, q, lt, sub, fresh_xs, old[i], f(*cs), cs):
                I.assume(forall(cs + ys, e))
        return lambda c: unflatten(vsh, [f(*c) for f in F])

    def finish_list(self, I, normal, bc, q, lt, outer):
        old = self.obj.parts
        app = []
        for r in normal:
            o = self.out(r)
            ps = list(o.parts)
            if not ps or not isinstance(ps[0], Prefix):
                if len(ps) == 0 and False:
                    continue
                raise Unsupported("loop replaces a list's contents")
            app.append((bc(r), ps[1:]))
        used = [(b, ps) for b, ps in app if ps]
        if not used:
            return
        if all(len(ps) == 1 and isinstance(ps[0], Item) for b, ps in used):
            b0, ps0 = used[-1]
            v = ps0[0].v
            # what holds in every case need not be tested
            bs = [simp_light(b) for b, ps in used]
            sets = [{x.get_id() for x in _eqs(b)} for b in bs]
            always = set.intersection(*sets)
            for b, (_, ps) in list(zip(bs, used))[:-1]:
                v = merge_any(conj([x for x in _eqs(b) if x.get_id() not in always]), ps[0].v, v)
            whole = len(used) == len(app)
            g = q.guard if whole else simp_light(conj([q.guard, simp_light(disj(bs))]))
            self.obj.parts = old + (Part(q.xs, g, v, q.keys, q.lt, q.ident if whole else None, q.order),)
            return
        new = []
        for b, ps in used:
            for p in ps:
                if isinstance(p, Item):
                    new.append(Part(q.xs, conj([q.guard, b]), p.v, q.keys, q.lt))
                else:
                    p2 = fresh_part(p)
                    new.append(Part(q.xs + p2.xs, conj([q.guard, b, p2.guard]), p2.elem))
        self.obj.parts = old + tuple(new)


def mentions(e, decl):
    return decl.name() in decls_of(e)


def merge_any(cond, a, b):
    if isinstance(a, DictV) and isinstance(b, DictV) and set(a.d) == set(b.d):
        return DictV({k: merge_any(cond, a.d[k], b.d[k]) for k in a.d})
    if a is None and isinstance(b, (OptV,)) or isinstance(a, OptV) and b is None:
        raise Unsupported("merging optional values")
    return merge_val(cond, a, b)


def split_write(t, a):
    """t = If(c, v, a) -> (c, v); t = a -> (False, None); a not in t -> (True, t)."""
    if t.eq(a):
        return FF, None
    if not occurs(t, {a.get_id()}):
        return TT, t
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, x, y = t.children()
        if occurs(c, {a.get_id()}):
            return None
        rx, ry = split_write(x, a), split_write(y, a)
        if rx is None or ry is None:
            return None
        cond = disj([conj([c, rx[0]]), conj([neg(c), ry[0]])])
        if rx[1] is None:
            return cond, ry[1]
        if ry[1] is None:
            return cond, rx[1]
        return cond, If(c, rx[1], ry[1])
    return None


def solve_some(w, xs):
    """The equations x == term of w for variables x."""
    eqs = w.children() if z3.is_and(w) else [w]
    ids = {x.get_id() for x in xs}
    out = []
    for x in xs:
        for e in eqs:
            if z3.is_eq(e):
                a, b = e.children()
                if b.eq(x):
                    a, b = b, a
                if a.eq(x) and not occurs(b, ids):
                    out.append((x, b))
                    break
    return out


def solve_point(w, xs, cs):
    """Solve w for xs in terms of cs if it contains x == c for every x."""
    eqs = w.children() if z3.is_and(w) else [w]
    out = []
    ids = {x.get_id() for x in xs}
    for x in xs:
        for e in eqs:
            if z3.is_eq(e):
                a, b = e.arg(0), e.arg(1)
                if a.eq(x) and not occurs(b, ids):
                    out.append(b)
                    break
                if b.eq(x) and not occurs(a, ids):
                    out.append(a)
                    break
        else:
            return None
    return out
