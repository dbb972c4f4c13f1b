"""Selecting files and directories (C07, C08)."""
from .base import *
from .removal import forbid, FS
from pyvc.induct import lemma, lemma_only, linear, Proof, Unproved, only, holds, unproved, induction, greatest, iterations, order_facts, oblige_from
from pyvc.terms import slt
FM = "zielen.filelogic.FilesManager."

st_blocks, st_blksize = STATF["st_blocks"], STATF["st_blksize"]
account = Const("cfg_account_for_size", B)
x, y, z = const("x", P), const("y", P), const("z", P)


def follow(I):
    """Loops whose iterations depend on each other are defined step by step."""
    I.successor = True


def order(K):
    """Descending priority, then by path."""
    return lambda a, b: disj([K(b) < K(a), conj([K(a) == K(b), slt(a, b)])])


def weighted(prio, size):
    s = z3.ToReal(size)
    return If(account, If(s == 0, RealVal(0), prio / s), prio)


def recursion(dom, lt, S, F, init, out):
    """S is the space left before each path in the order, F that after the last one."""
    first = conj([dom(x), forall([z], imp(dom(z), neg(lt(z, x))))])
    nxt = conj([dom(x), dom(y), lt(x, y), forall([z], neg(conj([dom(z), lt(x, z), lt(z, y)])))])
    last = conj([dom(x), forall([z], imp(dom(z), neg(lt(x, z))))])
    return [forall([x], imp(first, S(x) == init)),
            forall([x, y], imp(nxt, S(y) == out(x))),
            forall([x], imp(last, F == out(x))),
            imp(neg(exists([x], dom(x))), F == init)]


def find_iterations(I, dom, K, key):
    """The loops that go through dom by descending key and then by path.

    K is a name for the key of the specification; terms of the code are replaced by it once they are proved equal."""
    found = []
    for it in iterations(I):
        if any(it.lt(x, y).eq(o.lt(x, y)) for o in found):
            if lemma(I, "the loop goes through exactly the candidates", forall([x], it.guard(x) == dom(x))):
                found.append(it)
            continue
        if found or not it.q.keys or not lemma(I, "the loop goes through exactly the candidates", forall([x], it.guard(x) == dom(x))):
            continue
        keys = []
        for k, rev in it.q.keys:
            code = z3.substitute(k, (it.q.xs[0], x))
            if code.sort() == P:
                if lemma(I, "the candidates are ordered by path", forall([x], imp(dom(x), code == x))):
                    keys.append((lambda a: a, rev, slt))
                    continue
            else:
                code = z3.ToReal(code) if code.sort() == INT else code
                less = lambda a, b: a < b
                pc = [f for t, f in I.pc if t != "s"]
                for sg in (1, -1):
                    goal = forall([x], imp(dom(x), code == sg * key(x)))
                    if any(holds(I, goal, h, 2) for h in ([], pc)) and lemma(I, "the candidates are ordered by priority", goal, None if not holds(I, goal, [], 2) else []):
                        keys.append((lambda a, sg=sg: K(a) * sg, rev, less))
                        break
                else:
                    break
                continue
            break
        else:
            eqs, lex = [], []
            for k, rev, less in keys:
                lex.append(conj(eqs + [less(k(y), k(x)) if rev else less(k(x), k(y))]))
                eqs = eqs + [k(x) == k(y)]
            use = order_facts(dom, it.lt) + [forall([x, y], imp(conj([dom(x), dom(y), disj(lex)]), it.lt(x, y)))]
            if lemma(I, "the candidates are considered in the order of priority and path",
                     forall([x, y], imp(conj([dom(x), dom(y)]), it.lt(x, y) == order(K)(x, y))), use):
                found.append(it)
    return found


def proved(body):
    """What cannot be proved is a failed obligation."""
    def run(I, f):
        try:
            return body(I, f)
        except Unproved as e:
            unproved(I, str(e))
            return "return"
    return run


@proved
def prioritize_files(I, f):
    w = world(I)
    forbid(I, *FS)
    I.loops = []
    limit = Const("space_limit", INT)
    ex, exf = path_set("excluded", I)
    kind, v = outcome(I, f, [w.fm, Sym(limit), ex])
    if kind != "return":
        return kind
    if not isinstance(v, TupV) or len(v.items) != 2:
        raise Unsupported("result is not a pair")
    left, kept = term(v.items[0], INT), mem1(v.items[1])
    stat = scan_of(w.remote, "remote", R).stat
    size = lambda c: st_blocks(stat(c)) * 512
    block = st_blksize(lib.fstat(L))
    e = const("e", P)
    skip = lambda c: exists([e], conj([exf(e), under(e, c)]))
    cand = lambda c: conj([w.known(c), neg(w.pdir(c)), neg(skip(c))])
    I.oblige("only known files that are not excluded are selected",
             forall([x], imp(kept(x), cand(x))))
    its = find_iterations(I, cand, Function("rank", P, REAL), lambda c: weighted(w.pprio(c), size(c)))
    if not its:
        raise Unproved("the candidates are considered in the order of priority and path")
    it = its[-1]
    S, F = Function("space_before", P, INT), Const("space_after", INT)
    fits = lambda c: S(c) - size(c) + block > 0
    out = lambda c: If(fits(c), S(c) - size(c) + block, S(c))
    facts = recursion(cand, it.lt, S, F, limit, out)
    use = facts + [f for i in its for f in i.steps() + [forall([x], i.guard(x) == cand(x))]] + order_facts(cand, it.lt)
    for d in [d for i in its for d in i.scalars(INT)]:
        induction(I, "the space before each candidate", cand, it.lt, lambda c: d(c) == S(c), use)
    induction(I, "something remains once something is kept", cand, it.lt,
              lambda c: imp(exists([z], conj([cand(z), it.lt(z, c), fits(z)])), S(c) > 0), use)
    ends = [f for t, f in I.pc if t == "s"]
    oblige_from(I, "a candidate is kept exactly when something remains after it",
                forall([x], imp(cand(x), kept(x) == fits(x))), use)
    oblige_from(I, "the remaining space is what the kept ones leave", left == F, use + ends)
    use.append(forall([x], imp(cand(x), kept(x) == fits(x))))
    use.append(left == F)
    oblige_from(I, "something remains if anything is kept", imp(exists([x], conj([cand(x), kept(x)])), left > 0), use)
    used = I.sum_term([x], cand(x), If(kept(x), block - size(x), IntVal(0)))
    oblige_from(I, "the remaining space is the limit minus what the kept files need", left == limit + used, use)
    return kind


def total(I, name, guard, delta, param=True):
    """A named sum: over all e with guard(c, e), of delta(e)."""
    c, e = const("c", P), const("e", P)
    if param:
        I.sums[name] = ([c], [e], guard(c, e), delta(e))
        return Function(name, P, INT)
    I.sums[name] = ([], [e], guard(e), delta(e))
    return Const(name, INT)


@proved
def prioritize_dirs(I, f):
    w = world(I)
    forbid(I, *FS)
    I.loops = []
    limit = Const("space_limit", INT)
    I.assume(limit <= Const("cfg_storage_limit", INT))
    kind, v = outcome(I, f, [w.fm, Sym(limit)])
    if kind != "return":
        return kind
    if not isinstance(v, TupV) or len(v.items) != 2:
        raise Unsupported("result is not a pair")
    left, chosen = term(v.items[0], INT), mem1(v.items[1])
    stat = scan_of(w.remote, "remote", R).stat
    block = st_blksize(lib.fstat(L))
    blocks = lambda e: st_blocks(stat(e)) * 512
    dom = lambda c: conj([w.known(c), w.pdir(c)])
    isfile = lambda c: conj([w.known(c), neg(w.pdir(c))])
    one = lambda e: IntVal(1)
    dsize = total(I, "dir_size", lambda c, e: conj([w.rknown(e), under(c, e)]), blocks)
    its = find_iterations(I, dom, Function("rank", P, REAL), lambda c: weighted(w.pprio(c), dsize(c)))
    if not its:
        raise Unproved("the candidates are considered in the order of priority and path")
    it = its[-1]
    lt = it.lt
    # the specification
    keep, cov = Function("keep", P, B), Function("covered", P, B)
    sel, fil = Function("selected_before", P, P, B), Function("files_before", P, P, B)
    S, F = Function("space_before", P, INT), Const("space_after", INT)
    SUB = total(I, "selected_below", lambda c, e: conj([sel(c, e), under(c, e)]), dsize)
    SS = total(I, "selected_size", lambda c, e: sel(c, e), dsize)
    NEW = total(I, "new_files", lambda c, e: conj([isfile(e), under(c, e), neg(fil(c, e))]), one)
    CF = total(I, "covered_files", lambda c, e: fil(c, e), one)
    N = total(I, "all_files", isfile, one, param=False)
    after = lambda c: S(c) - dsize(c) + SUB(c) + NEW(c) * block
    d, u = const("d", P), const("u", P)
    selx = lambda d, lim: conj([dom(d), keep(d)] + lim(d) + [
        neg(exists([z], conj([dom(z), lt(d, z), keep(z), under(z, d)] + lim(z))))])
    filx = lambda d, lim: conj([isfile(d), exists([z], conj([dom(z), keep(z), under(z, d)] + lim(z)))])
    before = lambda c: lambda e: [lt(e, c)]
    defs = [forall([x], imp(dom(x), keep(x) == conj([neg(cov(x)), after(x) >= 0]))),
            forall([x], cov(x) == exists([z], conj([dom(z), lt(z, x), keep(z), under(z, x)]))),
            forall([x, d], sel(x, d) == selx(d, before(x))),
            forall([x, d], fil(x, d) == filx(d, before(x)))]
    out = lambda c: If(keep(c), after(c), S(c))
    facts = recursion(dom, lt, S, F, limit - N * block, out)
    use = facts + defs + order_facts(dom, lt) + [forall([e_], dsize(e_) >= 0)] + [block > 0]
    dsize_ok = Proof(I, [])
    dsize_ok.sums("sizes are not negative", [(1, lambda e: conj([w.rknown(e), under(x, e)]), blocks, dsize(x))], lambda t: t >= 0)
    use = facts + defs + order_facts(dom, lt) + [forall([x], dsize(x) >= 0), block > 0, limit <= Const("cfg_storage_limit", INT)]
    # a position: what was selected before it
    no = lambda *a: FF
    here = lambda c: (lambda e: lt(e, c), lambda e: sel(c, e), lambda e: fil(c, e), SS(c), CF(c), S(c))
    inv = lambda pos: pos[5] == limit - N * block - pos[3] + pos[4] * block

    def spec_step(pr, a, pos):
        """From a to the position right behind it."""
        lim, sl, fl, ss, cf, sp = pos
        k = keep(a)
        pr.have("only the one before comes in between", forall([z], conj([dom(z), lim(z)]) == conj([dom(z), disj([lt(z, a), z == a])])))
        pr.have("directories selected so far", forall([d], sl(d) == If(k, disj([d == a, conj([sel(a, d), neg(under(a, d))])]), sel(a, d))))
        pr.have("files selected so far", forall([d], fl(d) == disj([fil(a, d), conj([k, isfile(d), under(a, d)])])))
        pr.have("a directory is new", neg(sel(a, a)))
        zero = IntVal(0)
        l1 = pr.sums("contributions of a directory", [
            (1, sl, dsize, ss), (-1, lambda e: sel(a, e), dsize, SS(a)),
            (1, lambda e: conj([k, sel(a, e), under(a, e)]), dsize, If(k, SUB(a), zero)),
            (-1, lambda e: conj([k, e == a]), dsize, If(k, dsize(a), zero))])
        l2 = pr.sums("contributions of files", [
            (1, fl, one, cf), (-1, lambda e: fil(a, e), one, CF(a)),
            (-1, lambda e: conj([k, isfile(e), under(a, e), neg(fil(a, e))]), one, If(k, NEW(a), zero))])
        l3 = pr.have("the space after one step", sp == out(a))
        pr.have("arithmetic of one step", inv(pos), [inv(here(a)), l1, l2, l3])

    def first(a, hyp):
        pr = Proof(I, hyp)
        pr.have("no directory is selected before the first", forall([d], neg(sel(a, d))))
        pr.have("no file is selected before the first", forall([d], neg(fil(a, d))))
        pr.sums("no size at first", [(1, lambda e: sel(a, e), dsize, SS(a))])
        pr.sums("no files at first", [(1, lambda e: fil(a, e), one, CF(a))])
        return pr.got

    def step(a, b, hyp):
        pr = Proof(I, hyp)
        spec_step(pr, a, here(b))
        return [pr.got[-1]]
    with only(I):
        if not induction(I, "the space before each candidate", dom, lt, lambda c: inv(here(c)), use, step=step, first=first):
            raise Unproved("the space before each candidate")
        c = I.fresh("c", P)
        pr = Proof(I, use + [dom(c)])
        l1 = pr.sums("what is below is part of what is selected", [
            (1, lambda e: conj([sel(c, e), under(c, e)]), dsize, SUB(c)), (-1, lambda e: sel(c, e), dsize, SS(c))], lambda t: t <= 0)
        l2 = pr.sums("files are counted once", [
            (1, lambda e: conj([isfile(e), under(c, e), neg(fil(c, e))]), one, NEW(c)), (1, lambda e: fil(c, e), one, CF(c)),
            (-1, isfile, one, N)], lambda t: t <= 0)
        rest = N - CF(c) - NEW(c)
        l3 = pr.have("links need space", rest * block >= 0, [l2, block > 0])
        l4 = pr.have("the space before", inv(here(c)))
        pr.have("what fits is not larger than the limit", imp(after(c) >= 0, dsize(c) <= limit), [l1, l3, l4])
        use_fit = forall([x], imp(conj([dom(x), after(x) >= 0]), dsize(x) <= limit))
    # the code decides in the same way
    sets, at = it.sets(), it.scalars(INT)
    v, w_ = const("v", P), const("w", P)
    cov_dirs = lambda c: lambda e: conj([dom(e), exists([v], conj([dom(v), lt(v, c), keep(v), under(v, e)]))])
    specs = {"selected": lambda c: lambda e: sel(c, e), "covered": cov_dirs, "files": lambda c: lambda e: fil(c, e)}
    chosen_names = decls_of(chosen(d))
    signs = [(case, b, case.name() in chosen_names) for case, b in it.cases]
    sign = lambda c: conj([imp(case(c), keep(c) if s else neg(keep(c))) for case, b, s in signs])
    guards = [forall([x], i.guard(x) == dom(x)) for i in its]
    some = z3.substitute(it.some, (it.q.xs[0], c))
    if not signs:
        raise Unsupported("no decisions that depend on earlier ones")
    exhaustive = forall([x], imp(dom(x), z3.substitute(it.some, (it.q.xs[0], x))))
    earlier = lambda c: forall([w_], imp(conj([dom(w_), lt(w_, c)]), sign(w_)))
    base = use + guards + [exhaustive]
    agree, pairs = [], []
    todo, progress = list(sets), True
    while todo and progress:
        progress = False
        for cs in list(todo):
            for n, sp in specs.items():
                same = lambda c, cs=cs, sp=sp: forall([e_], cs(c, e_) == sp(c)(e_))
                with only(I, [cs.name()]):
                    c = I.fresh("c", P)
                    hyp = base + agree + [dom(c), earlier(c)]
                    # what agrees at c agrees before c as well
                    hyp += [forall([z], imp(conj([dom(z), lt(z, c)]), p(z))) for p in pairs]
                    if not holds(I, same(c), hyp, 1):
                        continue
                    pr = Proof(I, base + agree + [dom(c), earlier(c)])
                    pr.have("decisions before an earlier candidate are earlier", forall([z], imp(conj([dom(z), lt(z, c)]), earlier(z))))
                    for p in pairs:
                        pr.have("the sets agreed before", forall([z], imp(conj([dom(z), lt(z, c)]), p(z))))
                    pr.have("the set is that of the specification", same(c))
                agree.append(forall([x], imp(conj([dom(x), earlier(x)]), same(x))))
                pairs.append(same)
                todo.remove(cs)
                progress = True
                break
    # the sums of the code are those of the specification
    at_q = lambda f, c: z3.substitute(f, (it.q.xs[0], c))
    names = set()
    for f in [b for case, b, s in signs] + it.steps():
        decls_of(f, names)
    spec_sums = [(dsize, lambda c: lambda e: conj([w.rknown(e), under(c, e)]), blocks),
                 (SUB, lambda c: lambda e: conj([sel(c, e), under(c, e)]), dsize),
                 (NEW, lambda c: lambda e: conj([isfile(e), under(c, e), neg(fil(c, e))]), one)]
    for n in sorted(n for n in names if n in I.sums and not I.sums[n][0]):
        ctx, xs, g, delta = I.sums[n]
        if len(xs) == 1 and xs[0].sort() == P and delta.sort() == INT:
            put = lambda t: lambda e: z3.substitute(t, (xs[0], e))
            pr = Proof(I, use + [f for t, f in I.pc if t != "s"])
            with only(I):
                pr.sums("all files are counted", [(1, put(g), put(delta), Const(n, INT)), (-1, isfile, one, N)])
            use += pr.got
    sums, todo, progress = [], sorted(n for n in names if n in I.sums and len(I.sums[n][0]) == 1), True
    while todo and progress:
        progress = False
        for n in list(todo):
            ctx, xs, g, delta = I.sums[n]
            if ctx[0].sort() != P or len(xs) != 1 or xs[0].sort() != P or delta.sort() != INT:
                continue
            code = Function(n, P, INT)
            for total_, guard, val in spec_sums:
                c = I.fresh("c", P)
                put = lambda t: lambda e: z3.substitute(t, (ctx[0], c), (xs[0], e))
                terms = [(1, put(g), put(delta), code(c)), (-1, guard(c), val, total_(c))]
                hyp = use + [dom(c)] + [p(c) for p in pairs] + [forall([x], imp(dom(x), a(x) == b(x))) for a, b in sums]
                if total_ is dsize:
                    hyp = [f for t, f in I.pc if t != "s"] + hyp
                law = linear(terms)
                with only(I):
                    if law.decl().kind() == z3.Z3_OP_IMPLIES and not holds(I, law.arg(0), hyp, 1):
                        continue
                    pr = Proof(I, hyp)
                    pr.sums("the sum is that of the specification", terms)
                    pr.have("the sum is that of the specification", code(c) == total_(c))
                sums.append((code, total_))
                todo.remove(n)
                progress = True
                break
    # every decision is that of the specification
    case_q = lambda c: forall([x], imp(dom(x), z3.substitute(it.some, (it.q.xs[0], c))))
    state = lambda c: [p(c) for p in pairs] + [a(c) == b(c) for a, b in sums] + [t(c) == S(c) for t in at]
    phi = lambda c: conj([sign(c)] + [t(c) == S(c) for t in at])

    def decide(pr, c):
        """The sets, the sums and the decision at c, from the decisions before and the space."""
        for p in pairs:
            pr.have("the sets agree", p(c), agree + [dom(c), earlier(c)])
        for a, b in sums:
            pr.have("the sums agree", a(c) == b(c), sum_defs + [dom(c)] + [p(c) for p in pairs])
        ground = [pr.have("the decision of the specification", keep(c) == conj([neg(cov(c)), after(c) >= 0]), [defs[0], dom(c)]),
                  pr.have("within the limit", imp(after(c) >= 0, dsize(c) <= limit), [use_fit, dom(c)]), limit <= Const("cfg_storage_limit", INT)]
        for cs in sets:
            for t, name in ((cov(c), "the directory itself is among those below"), (FF, "the directory itself is not in the set")):
                if holds(I, cs(c, c) == t, pr.hyp, 1):
                    ground.append(pr.have(name, cs(c, c) == t))
                    break
        ground += [a(c) == b(c) for a, b in sums] + [t(c) == S(c) for t in at]
        for case, b, s in signs:
            pr.have("the case of the code", case(c) == at_q(b, c), case_defs + [dom(c)])
            pr.have("a directory is kept in the same cases", imp(case(c), keep(c) if s else neg(keep(c))), ground + [case(c) == at_q(b, c)])

    def first_(a, hyp):
        pr = Proof(I, hyp)
        pr.have("nothing is decided before the first", earlier(a))
        at[:] = [t for t in at if holds(I, t(a) == S(a), pr.hyp, 1)]
        for t in at:
            pr.have("the space at first", t(a) == S(a))
        decide(pr, a)
        return pr.got

    def step_(a, b, hyp):
        pr = Proof(I, hyp)
        pr.have("decided before", earlier(a))
        pr.have("decided so far", earlier(b))
        for p in pairs:
            pr.have("the sets agree", p(a), agree + [dom(a), earlier(a)])
        for l, r in sums:
            pr.have("the sums agree", l(a) == r(a), sum_defs + [dom(a)] + [p(a) for p in pairs])
        pr.have("one of the cases", at_q(it.some, a), [exhaustive, dom(a)])
        next_ = hyp[len(universal):len(universal) + 4]
        ground = [at_q(it.some, a), sign(a), pr.have("the space of the specification after one step", S(b) == out(a), facts + next_)]
        ground += [l(a) == r(a) for l, r in sums] + [t(a) == S(a) for t in at]
        for t in at:
            ground.append(pr.have("the space of the code after one step", it.next_at(t, a, b), it.steps() + guards + next_))
            pr.have("the space after one step", t(b) == S(b), ground)
        decide(pr, b)
        return pr.got
    case_defs = [forall([x], imp(dom(x), case(x) == at_q(b, x))) for case, b, s in signs]
    sum_defs = [forall([x], imp(conj([dom(x)] + [p(x) for p in pairs]), a(x) == b(x))) for a, b in sums]
    universal = use + base + agree + case_defs + it.steps() + sum_defs
    with only(I):
        if not induction(I, "every decision is that of the specification", dom, lt, phi, universal, step=step_, first=first_):
            raise Unproved("decisions")
    # what remains at the end
    F_sel, F_fil = (lambda e: selx(e, lambda a: [])), (lambda e: filx(e, lambda a: []))
    SE, CE = total(I, "selected_size_end", F_sel, dsize, False), total(I, "covered_files_end", F_fil, one, False)
    end = (lambda e: TT, F_sel, F_fil, SE, CE, F)
    some_dir = exists([x], dom(x))
    last = const("last", P)
    decided = universal[-1]
    is_last = [dom(last), forall([x], imp(dom(x), neg(lt(last, x))))]
    with only(I):
        pr = Proof(I, use + is_last)
        pr.have("the space before the last", inv(here(last)))
        pr.have("the last space", F == out(last), facts + is_last)
        spec_step(pr, last, end)
        pr = Proof(I, use + [neg(some_dir)])
        pr.sums("nothing is selected", [(1, F_sel, dsize, SE)])
        pr.sums("no files are covered", [(1, F_fil, one, CE)])
        pr.have("no space is used", inv(end), pr.got + [imp(neg(some_dir), F == limit - N * block), neg(some_dir)])
        use.append(inv(end))
        # the space that the code returns
        for t in at:
            ends = it.ends(t, left)
            pr = Proof(I, universal + is_last)
            ground = [pr.have("the decision at last", conj([sign(last), t(last) == S(last)]), [universal[-1], dom(last)]),
                      pr.have("the last space", F == out(last), facts + is_last),
                      pr.have("the space of the code at last", it.last_at(t, last, left), ends + guards + is_last),
                      pr.have("the last case", at_q(it.some, last), [exhaustive, dom(last)])]
            for a, b in sums:
                ground.append(pr.have("the sums agree", a(last) == b(last)))
            pr.have("the space after the last", left == F, ground)
            pr = Proof(I, use + guards + ends + [neg(some_dir)])
            pr.have("no space is used", left == F)
        if at:
            use.append(left == F)
        # something remains once something is kept
        any_before = lambda c: exists([z], conj([dom(z), lt(z, c), keep(z)]))

        def some_step(a, b, hyp):
            pr = Proof(I, hyp)
            g = [pr.have("kept so far", any_before(b) == disj([any_before(a), keep(a)])),
                 pr.have("the space after one step", S(b) == out(a), facts + hyp[len(base):len(base) + 4]),
                 pr.have("the decision", imp(keep(a), after(a) >= 0), [defs[0], dom(a)]), imp(any_before(a), S(a) >= 0)]
            pr.have("the space does not run out", imp(any_before(b), S(b) >= 0), g)
            return [pr.got[-1]]
        base = list(use)
        if not induction(I, "the space does not run out", dom, lt, lambda c: imp(any_before(c), S(c) >= 0), use, step=some_step):
            raise Unproved("space")
        pr = Proof(I, use + is_last)
        kept_any = exists([z], conj([dom(z), keep(z)]))
        g = [pr.have("kept before the last", kept_any == disj([any_before(last), keep(last)])),
             pr.have("the space before the last", imp(any_before(last), S(last) >= 0)),
             pr.have("the last space", F == out(last), facts + is_last),
             pr.have("the decision", imp(keep(last), after(last) >= 0), [defs[0], dom(last)])]
        pr.have("the space does not run out", imp(kept_any, F >= 0), g)
        use.append(pr.got[-1])
    # what is selected
    def post(name, goal, using):
        with only(I):
            if not lemma_only(I, name, goal, using, 5):
                raise Unproved(name)
        return goal
    by_def = [f for n in sorted(decls_of(chosen(x))) if n in I.defs for f in I.defs[n]]
    signed = [universal[-1], exhaustive] + guards + order_facts(dom, lt)
    ch = post("a directory is selected exactly when it is kept and no directory above it is kept later",
              forall([x], chosen(x) == F_sel(x)), signed + by_def + [f for f in agree])
    spec = [ch] + defs + order_facts(dom, lt)
    post("only known directories are selected", forall([x], imp(chosen(x), dom(x))), [ch])
    post("no selected directory is inside another", forall([x, y], imp(conj([chosen(x), chosen(y), under(x, y)]), x == y)), spec)
    post("the remaining space is what the kept ones leave", left == F, use)
    post("something remains if anything is selected", imp(exists([x], chosen(x)), left >= 0), [ch, left == F, use[-1]])
    inside = lambda e: exists([z], conj([chosen(z), under(z, e)]))
    cover = post("a file has no link exactly when it is inside a selected directory",
                 forall([e_], conj([isfile(e_), neg(inside(e_))]) == conj([isfile(e_), neg(F_fil(e_))])),
                 spec + [greatest(dom, lt, lambda a: conj([keep(a), under(a, e_)]), e_)])
    size_all = total(I, "selected_total", chosen, dsize, False)
    links = total(I, "links_total", lambda e: conj([isfile(e), neg(inside(e))]), one, False)
    with only(I):
        pr = Proof(I, [ch, cover])
        l1 = pr.sums("the selected directories", [(1, chosen, dsize, size_all), (-1, F_sel, dsize, SE)])
        l2 = pr.sums("the links", [(1, lambda e: conj([isfile(e), neg(inside(e))]), one, links), (1, F_fil, one, CE), (-1, isfile, one, N)])
    post("the remaining space is the limit minus what the selected directories and the other links need",
         left == limit - size_all - links * block, [l1, l2, inv(end), left == F])
    return kind


e_ = const("e", P)


def units():
    return [Unit("prioritize_files", FM + "prioritize_files", prioritize_files, base_contracts(), follow),
            Unit("prioritize_dirs", FM + "prioritize_dirs", prioritize_dirs, base_contracts(), follow)]
