"""The SQL layer of the profile and remote databases (C09, C10, C11).

The statements are taken from the source and interpreted over symbolic tables. The representation invariant: the ID of
a row is that of its path, parents of stored paths are stored, and the closure table has exactly the pairs of stored
paths where one is at or above the other, with their distance. IDs are represented by the paths they belong to, that
is, distinct paths have distinct IDs (the handling of collisions has its own units)."""
from .base import *
from .removal import forbid, FS
from .select import proved
from pyvc import sql, induct

SD = "zielen.containerbase.SyncDBFile."
p, q, n = const("p", P), const("q", P), const("n", P)


class DB:
    """The state of a database before the call."""
    pass


def quiet(I):
    """Run set-up code without failures."""
    hooks, raises = I.hooks, I.raises
    I.hooks, I.raises = {}, {k: () for k in lib.RAISES}
    return lambda: (setattr(I, "hooks", hooks), setattr(I, "raises", raises))


def open_db(I, cls):
    """A database object whose tables are those that create() makes, in an arbitrary state."""
    back = quiet(I)
    try:
        I.hooks["sqlite_connect"] = lambda I, a, k: sql.connection(sql.new_database())
        c = I.loader.func(cls)
        new = Const("new_path", P)
        I.assume(neg(lib.isfile(new)))
        o = ObjV(c, {"path": Sym(new), "_conn": None, "_cur": None})
        I.call(BoundV(c.lookup("create"), o), [])
    finally:
        back()
    o.attrs["path"] = Sym(Const("db_path", P))
    I.inlined.clear()
    I.used_contracts.clear()
    w = DB()
    w.obj, w.db = o, o.attrs["_conn"].attrs["%db"]
    w.nodes, w.closure, w.coll = (w.db.attrs["t:" + t] for t in ("nodes", "closure", "collisions"))
    w.schema = w.db.attrs["s:nodes"]
    w.cols = [x for x in w.schema.rest if x != "path"]
    w.known = Function("known", P, B)
    w.old = {x: Function("old_" + x, P, w.schema.sorts[x]) for x in w.cols}
    w.nodes.dom = lambda c: w.known(c[0])
    w.nodes.val = lambda c: TupV([Sym(c[0]) if x == "path" else Sym(w.old[x](c[0])) for x in w.schema.rest])
    w.closure.dom = lambda c: conj([w.known(c[0]), w.known(c[1]), under(c[0], c[1])])
    w.closure.val = lambda c: TupV([Sym(depth(c[1]) - depth(c[0]))])
    salted, salt = Function("salted", P, B), Function("salt", P, P)
    w.coll.dom = lambda c: salted(c[0])
    w.coll.val = lambda c: TupV([Sym(salt(c[0]))])
    I.assume(conj([neg(w.known(EMPTY)), neg(w.known(NONE))]))
    I.assume(ForAll([p], Implies(And(w.known(p), dirname(p) != EMPTY), w.known(dirname(p))), patterns=[w.known(p), dirname(p)]))
    # induction along the hierarchy: a set closed under dirname contains all ancestors
    I.assume(ForAll([p, q], Implies(And(w.known(p), under(q, p), q != EMPTY), w.known(q)), patterns=[z3.MultiPattern(w.known(p), under(q, p))]))
    if not w.db.attrs["%fk"]:
        I.oblige("foreign keys are enforced", FF)
    return w


def of(o):
    w = DB()
    w.obj, w.db = o, o.attrs["_conn"].attrs["%db"]
    w.nodes, w.closure, w.coll = (w.db.attrs["t:" + t] for t in ("nodes", "closure", "collisions"))
    w.schema = w.db.attrs["s:nodes"]
    w.cols = [x for x in w.schema.rest if x != "path"]
    w.known0 = Function("known", P, B)
    return w


def col(w, name, nodes=None):
    m = nodes or w.nodes
    i = w.schema.rest.index(name)
    val = m.val
    return lambda c: term(val([c]).items[i], w.schema.sorts[name])


def known(w):
    dom = w.nodes.dom
    return lambda c: dom([c])


def representation(w, parents=True):
    """The representation invariant of the current state, as named formulas."""
    k, path = known(w), col(w, "path")
    cd, cv = w.closure.dom, w.closure.val
    out = [("every row has the ID of its path", forall([p], imp(k(p), path(p) == p))),
           ("the closure has only pairs of stored paths", forall([p, q], imp(cd([p, q]), conj([k(p), k(q)])))),
           ("the closure has only pairs of paths at or above each other", forall([p, q], imp(cd([p, q]), under(p, q)))),
           ("the closure has all pairs of paths at or above each other", forall([p, q], imp(conj([k(p), k(q), under(p, q)]), cd([p, q])))),
           ("with their distance", forall([p, q], imp(conj([k(p), k(q), under(p, q)]), cv([p, q]).items[0].e == depth(q) - depth(p))))]
    if parents:
        out += [("parents of stored paths are stored", forall([p], imp(conj([k(p), neg(dirname(p) == EMPTY)]), k(dirname(p))))),
                ("only paths are stored", conj([neg(k(EMPTY)), neg(k(NONE))]))]
    return out


def ancestors(mem):
    """At or above an element, without the empty path."""
    return lambda c: disj([mem(c), exists([q], conj([mem(q), under(c, q), neg(c == EMPTY)]))])


def child(k, d, c):
    return conj([k(c), dirname(c) == d])


def children_sum(I, k, prio):
    """The sum of the priorities of the immediate children, as a function of the directory."""
    d = const("d", P)
    outer = list(I.ctx)
    I.ctx = outer + [d]
    try:
        s = I.sum_term([n], child(k, d, n), prio(n))
    finally:
        I.ctx = outer
    return lambda c: z3.substitute(s, (d, c))


def children_local(k, local):
    return lambda c: conj([exists([n], child(k, c, n)), forall([n], imp(child(k, c, n), local(n)))])


def same_except(w, old, names, where):
    """Columns keep their values."""
    return [forall([p], imp(conj([known(w)(p), neg(where(p))]), col(w, x)(p) == old[x](p))) for x in names]


# --- contracts of the helpers -------------------------------------------------------------

def c_path_id(I, a):
    if a["path"] is None:
        I.raise_(TypeError)
    return Sym(term(a["path"], P))


def c_path_id_once(kind):
    pass


def set_col(w, name, f):
    val, i = w.nodes.val, w.schema.rest.index(name)

    def new(c):
        items = list(val(c).items)
        items[i] = Sym(f(c[0]))
        return TupV(items)
    w.nodes.val = new


def c_aggregate(name):
    def h(I, a):
        w = of(a["self"])
        mem = mem_of(I, a["paths"], "paths", once=True)
        settle(I, w)
        for what, f in representation(w, parents=False):
            I.oblige("pre:" + what, f, "pre")
        A, k, old = ancestors(mem), known(w), col(w, name)
        f = I.fresh_fn("new_" + name, P, w.schema.sorts[name])
        agg = children_sum(I, k, f) if name == "priority" else children_local(k, f)
        I.assume(forall([p], imp(neg(conj([A(p), k(p)])), f(p) == old(p))))
        I.assume(forall([p], imp(conj([A(p), k(p)]), f(p) == agg(p))))
        set_col(w, name, f)
    return h


def noop_cm(I, a):
    return ObjV(None, {}, "cm")


def contracts(kind, *skip):
    pre = PD if kind == "profile" else RD
    c = {SD + "_get_path_id": c_path_id, SD + "_transact": noop_cm, "zielen.utils.get_path_ancestry": c_ancestry}
    if kind == "profile":
        c[PD + "_update_priority"] = c_aggregate("priority")
        c[PD + "_update_local"] = c_aggregate("local")
    return c


def cls_of(kind):
    return (PD if kind == "profile" else RD)[:-1]


def body(kind):
    def deco(f):
        def b(I, fn):
            w = open_db(I, cls_of(kind))
            forbid(I, *FS)
            return f(I, fn, w)
        return b
    return deco


def unchanged(I, w, names=None, structure=True):
    """Nothing (or none of the named columns) is changed."""
    if structure:
        I.oblige("no path is added or removed", forall([p], known(w)(p) == w.known(p)))
    for x in names if names is not None else w.cols:
        I.oblige("column %s is unchanged" % x, forall([p], imp(w.known(p), col(w, x)(p) == w.old[x](p))))


def check_representation(I, w):
    for what, f in representation(w):
        I.oblige(what, f)


# --- the helpers ---------------------------------------------------------------------------

@body("profile")
def update_priority(I, f, w):
    S, mem = path_set("paths", I)
    kind, v = outcome(I, f, [w.obj, S])
    if kind == "raise":
        I.oblige("never fails", FF)
        return kind
    k, prio, A = known(w), col(w, "priority"), ancestors(mem)
    agg = children_sum(I, k, prio)
    I.oblige("each directory above gets the sum of its children", forall([p], imp(conj([A(p), k(p)]), prio(p) == agg(p))))
    I.oblige("other priorities are unchanged", forall([p], imp(conj([k(p), neg(A(p))]), prio(p) == w.old["priority"](p))))
    unchanged(I, w, ["directory", "local"])
    check_representation(I, w)
    return kind


@body("profile")
def update_local(I, f, w):
    S, mem = path_set("paths", I)
    kind, v = outcome(I, f, [w.obj, S])
    if kind == "raise":
        I.oblige("never fails", FF)
        return kind
    k, loc, A = known(w), col(w, "local"), ancestors(mem)
    agg = children_local(k, loc)
    I.oblige("each directory above is local iff it has children and all are", forall([p], imp(conj([A(p), k(p)]), loc(p) == agg(p))))
    I.oblige("other flags are unchanged", forall([p], imp(conj([k(p), neg(A(p))]), loc(p) == w.old["local"](p))))
    unchanged(I, w, ["directory", "priority"])
    check_representation(I, w)
    return kind


def never_fails(I, kind):
    if kind == "raise":
        I.oblige("never fails", FF)
    return kind == "raise"


# --- queries -------------------------------------------------------------------------------

def get_path_info(side):
    @body(side)
    def b(I, f, w):
        t = Const("path", P)
        kind, v = outcome(I, f, [w.obj, Sym(t)])
        if never_fails(I, kind):
            return kind
        fields_ = w.cols
        if v is None:
            I.oblige("nothing is found only for unknown paths", neg(w.known(t)))
        else:
            none, val = (v.none, v.v) if isinstance(v, OptV) else (FF, v)
            I.oblige("something is found exactly for known paths", neg(none) == w.known(t))
            I.oblige("it has all values", BoolVal(isinstance(val, TupV) and list(val.names or ()) == fields_))
            if isinstance(val, TupV) and len(val.items) == len(fields_):
                for x, y in zip(fields_, val.items):
                    I.oblige("the value of %s is the stored one" % x, imp(w.known(t), term(y, w.schema.sorts[x]) == w.old[x](t)))
        unchanged(I, w)
        return kind
    return b


def get_paths(side):
    @body(side)
    def b(I, f, w):
        third = w.cols[-1]
        root, d, t = Const("root", P), Const("directory_arg", B), Const("third_arg", B if side == "profile" else REAL)
        args, want = {}, [lambda p: w.known(p)]
        if I.choose("root given"):
            args["root"] = Sym(root)
            I.assume(conj([neg(root == EMPTY), neg(root == NONE)]))
            want.append(lambda p: under(root, p))
            want.append(lambda p: w.known(root))
        if I.choose("directory given"):
            args["directory"] = Sym(d)
            want.append(lambda p: w.old["directory"](p) == d)
        if I.choose("third given"):
            name = "local" if side == "profile" else "min_lastsync"
            args[name] = Sym(t)
            want.append((lambda p: w.old["local"](p) == t) if side == "profile" else (lambda p: w.old["lastsync"](p) > t))
        kind, v = outcome(I, f, [w.obj], args)
        if never_fails(I, kind):
            return kind
        if not isinstance(v, MapV):
            raise Unsupported("result of get_paths")
        if v.kshape is None:
            I.oblige("exactly the stored paths that match are listed", forall([p], neg(conj([g(p) for g in want]))))
            return kind
        I.oblige("exactly the stored paths that match are listed", forall([p], v.dom([p]) == conj([g(p) for g in want])))
        val = v.val([p])
        I.oblige("all values are given", BoolVal(isinstance(val, TupV) and list(val.names or ()) == w.cols))
        if isinstance(val, TupV) and len(val.items) == len(w.cols):
            for x, y in zip(w.cols, val.items):
                I.oblige("the value of %s is the stored one" % x, forall([p], imp(v.dom([p]), term(y, w.schema.sorts[x]) == w.old[x](p))))
        unchanged(I, w)
        return kind
    return b


# --- changes -------------------------------------------------------------------------------

def aggregates(I, w, A, names=("priority", "local")):
    k = known(w)
    for x in names:
        c = col(w, x)
        agg = children_sum(I, k, c) if x == "priority" else children_local(k, c)
        what = "the sum of its children" if x == "priority" else "whether all children are"
        I.oblige("each directory above has as %s %s" % (x, what), forall([p], imp(conj([A(p), k(p)]), c(p) == agg(p))))


def parents_of(mem):
    """All directories above the elements."""
    return lambda c: exists([q], conj([mem(q), under(c, q), neg(c == q), neg(c == EMPTY)]))


def update_paths(side):
    @body(side)
    def b(I, f, w):
        S, mem = path_set("paths", I)
        I.assume(neg(mem(EMPTY)))
        args = {}
        for x in w.cols:
            if I.choose(x + " given"):
                args[x] = Sym(Const("new_" + x, w.schema.sorts[x]))
        kind, v = outcome(I, f, [w.obj, S], args)
        if never_fails(I, kind):
            return kind
        k = known(w)
        A = parents_of(mem) if side == "profile" else lambda c: FF
        I.oblige("no path is added or removed", forall([p], k(p) == w.known(p)))
        for x in w.cols:
            agg = x in ("priority", "local")
            c, excl = col(w, x), (A if agg else lambda p: FF)
            if x in args:
                I.oblige("the updated paths have the new %s" % x, forall([p], imp(conj([mem(p), k(p), neg(excl(p))]), c(p) == args[x].e)))
                I.oblige("%s of all other paths is kept" % x, forall([p], imp(conj([k(p), neg(mem(p)), neg(excl(p))]), c(p) == w.old[x](p))))
            else:
                I.oblige("%s is kept" % x, forall([p], imp(conj([k(p), neg(excl(p))]), c(p) == w.old[x](p))))
        if side == "profile":
            aggregates(I, w, A)
        check_representation(I, w)
        return kind
    return b


def rm_paths(side):
    @body(side)
    def b(I, f, w):
        S, mem = path_set("paths", I)
        I.assume(neg(mem(EMPTY)))
        I.loops, I.record = [], True
        kind, v = outcome(I, f, [w.obj, S])
        if never_fails(I, kind):
            return kind
        w = with_old(of(w.obj), w)
        settle(I, w)
        k = known(w)
        gone = below(mem)
        I.oblige("exactly the paths and what is below them are removed", forall([p], k(p) == conj([w.known(p), neg(gone(p))])))
        A = parents_of(mem) if side == "profile" else lambda c: FF
        for x in w.cols:
            excl = A if x in ("priority", "local") else lambda p: FF
            I.oblige("%s of the others is kept" % x, forall([p], imp(conj([k(p), neg(excl(p))]), col(w, x)(p) == w.old[x](p))))
        if side == "profile":
            aggregates(I, w, A)
        I.oblige("known paths keep their salts", forall([p], imp(k(p), w.coll.dom([p]) == Function("salted", P, B)(p))))
        check_representation(I, w)
        return kind
    return b


@body("profile")
def increment(I, f, w):
    S, mem = path_set("paths", I)
    I.assume(neg(mem(EMPTY)))
    amount = Const("amount", REAL)
    kind, v = outcome(I, f, [w.obj, S, Sym(amount)])
    if never_fails(I, kind):
        return kind
    A, prio = parents_of(mem), col(w, "priority")
    I.oblige("the priorities of the paths are raised by the amount", forall([p], imp(conj([mem(p), w.known(p), neg(A(p))]), prio(p) == w.old["priority"](p) + amount)))
    I.oblige("the priorities of unrelated paths are kept", forall([p], imp(conj([w.known(p), neg(mem(p)), neg(A(p))]), prio(p) == w.old["priority"](p))))
    aggregates(I, w, A, ("priority",))
    unchanged(I, w, ["directory", "local"])
    check_representation(I, w)
    return kind


@body("profile")
def increment_repeated(I, f, w):
    """A sequence of paths in which each one may occur any number of times."""
    i, q = const("i", INT), const("q", P)
    at, n = Function("accessed", INT, P), Const("accesses", INT)
    inside = lambda j: conj([j >= 0, j < n])
    I.assume(forall([i], neg(disj([at(i) == EMPTY, at(i) == NONE]))))
    S = ListV([Part([i], inside(i), Sym(at(i)))])
    mem = lambda p: exists([i], conj([inside(i), at(i) == p]))
    amount = Const("amount", REAL)
    kind, v = outcome(I, f, [w.obj, S, Sym(amount)])
    if never_fails(I, kind):
        return kind
    A, prio = parents_of(mem), col(w, "priority")
    I.ctx = [q]
    total = I.sum_term([i], conj([inside(i), at(i) == q]), amount)
    I.ctx = []
    times = lambda p: z3.substitute(total, (q, p))
    I.oblige("the priorities of the paths are raised by the amount for every occurrence",
             forall([p], imp(conj([w.known(p), neg(A(p))]), prio(p) == w.old["priority"](p) + times(p))))
    aggregates(I, w, A, ("priority",))
    unchanged(I, w, ["directory", "local"])
    check_representation(I, w)
    return kind


@body("profile")
def adjust_all(I, f, w):
    c = Const("constant", REAL)
    kind, v = outcome(I, f, [w.obj, Sym(c)])
    if never_fails(I, kind):
        return kind
    I.oblige("all priorities are scaled alike", forall([p], imp(w.known(p), col(w, "priority")(p) == w.old["priority"](p) * c)))
    unchanged(I, w, ["directory", "local"])
    check_representation(I, w)
    return kind


@proved
def settle(I, w):
    """What is in the tables after paths were inserted or removed one after the other, by induction along their order.

    Only the statements proved are used from then on."""
    for q_, lt_, locs, named, normal, bc in I.loops:
        if len(q_.xs) != 1 or q_.xs[0].sort() != P:
            continue
        closure = [l for l in locs if l.kind == "map" and l.obj is w.closure and not l.unsup]
        nodes = [l for l in locs if l.kind == "map" and l.obj is w.nodes and not l.unsup]
        if closure:
            x = q_.xs[0]
            dom, lt = (lambda e: z3.substitute(q_.guard, (x, e))), (lambda e, f: lt_([e], [f]))
            if not nodes:
                settle_rows(I, w)
            decls = [d for l in closure + nodes for d in [l.decl] + list(l.vdecl or ())]
            keep = {d.name() for d in decls}
            with induct.only(I, [n for n in I.defs if n in keep or n.startswith("before!")]):
                if nodes:
                    settle_removals(I, w, dom, lt, nodes[0], closure[0])
                else:
                    settle_insertions(I, w, dom, lt, closure[0])
            I.loops = []
            return


def strong_induction(I, name, dom, lt, phi, base, extra=()):
    """Prove phi for all iterations from phi for the iterations before each; extra(y) are more facts on the iteration."""
    z, y = const("z", P), I.fresh("y", P)
    pr = induct.Proof(I, base + [dom(y), forall([z], imp(conj([dom(z), lt(z, y)]), phi(z)))])
    pr.have(name, phi(y))
    base.append(forall([z], imp(dom(z), phi(z))))


def settle_rows(I, w):
    """Rows that are inserted were not there before the loop."""
    for q_, lt_, locs, named, normal, bc in I.loops:
        for l in locs:
            if l.kind == "map" and l.obj is w.nodes and not l.unsup and len(q_.xs) == 1 and q_.xs[0].sort() == P:
                x = q_.xs[0]
                with induct.only(I, [n for n in I.defs if n == l.decl.name() or n.startswith("before!")]):
                    pr = induct.Proof(I, [f for t, f in I.pc])
                    pr.have("each row is inserted once", forall([x], imp(q_.guard, l.decl(x, x) == w.known0(x))))
                I.assume(pr.got[0])
                return


def settle_insertions(I, w, dom, lt, l):
    a, d, z = const("a", P), const("d", P), const("z", P)
    M = lambda c: lambda e: disj([w.known0(e), conj([dom(e), lt(e, c)])])
    phi = lambda c: forall([a, d], l.decl(c, a, d) == conj([M(c)(a), M(c)(d), under(a, d)]))
    dep = lambda c: forall([a, d], imp(l.decl(c, a, d), l.vdecl[0](c, a, d) == depth(d) - depth(a)))
    base = [f for t, f in I.pc]
    pr = induct.Proof(I, base)
    pr.have("parents are inserted first", forall([z], imp(conj([dom(z), neg(dirname(z) == EMPTY)]), disj([w.known0(dirname(z)), conj([dom(dirname(z)), lt(dirname(z), z)])]))))
    base += pr.got
    strong_induction(I, "the closure before each insertion", dom, lt, phi, base)
    strong_induction(I, "distances before each insertion", dom, lt, dep, base)
    E = lambda c: disj([w.known0(c), dom(c)])
    end = lambda c: conj([E(c[0]), E(c[1]), under(c[0], c[1])])
    pr = induct.Proof(I, base)
    cd, cv = w.closure.dom, w.closure.val
    pr.have("the closure after all insertions", forall([a, d], cd([a, d]) == end([a, d])))
    pr.have("distances after all insertions", forall([a, d], imp(end([a, d]), cv([a, d]).items[0].e == depth(d) - depth(a))))
    w.closure.dom, w.closure.val = end, lambda c: TupV([Sym(depth(c[1]) - depth(c[0]))])


def settle_removals(I, w, dom, lt, nodes, closure):
    a, d, z = const("a", P), const("d", P), const("z", P)
    gone = lambda e, lim: exists([z], conj([dom(z), under(z, e)] + lim(z)))
    M = lambda c: lambda e: conj([w.known0(e), neg(gone(e, lambda z: [lt(z, c)]))])
    rows = lambda c: forall([a], nodes.decl(c, a) == M(c)(a))
    pairs = lambda c: forall([a, d], closure.decl(c, a, d) == conj([M(c)(a), M(c)(d), under(a, d)]))
    phi = lambda c: conj([rows(c), pairs(c)])
    # the first of the paths above a path that are removed
    base = [f for t, f in I.pc] + [induct.greatest(dom, lambda x, y: lt(y, x), lambda e: under(e, a), a)]
    strong_induction(I, "the tables before each removal", dom, lt, phi, base)
    E = lambda c: conj([w.known0(c), neg(gone(c, lambda z: []))])
    end = lambda c: conj([E(c[0]), E(c[1]), under(c[0], c[1])])
    pr = induct.Proof(I, base)
    pr.have("the rows after all removals", forall([a], w.nodes.dom([a]) == E(a)))
    pr.have("the closure after all removals", forall([a, d], w.closure.dom([a, d]) == end([a, d])))
    w.nodes.dom, w.closure.dom = (lambda c: E(c[0])), end


def with_old(w, w0):
    w.old, w.known = w0.old, w0.known
    return w


def add_paths(side):
    @body(side)
    def b(I, f, w):
        files, mf = path_set("files", I)
        dirs, md = path_set("dirs", I)
        batch = lambda c: disj([mf(c), md(c)])
        I.assume(conj([neg(batch(EMPTY)), neg(batch(NONE))]))
        # a path can only be added along with its parent
        I.assume(forall([p], imp(conj([batch(p), neg(dirname(p) == EMPTY)]), disj([w.known(dirname(p)), batch(dirname(p))]))))
        args = {}
        if side == "profile":
            if I.choose("priority given"):
                args["priority"] = Sym(Const("new_priority", REAL))
            if I.choose("local given"):
                args["local"] = Sym(Const("new_local", B))
        I.loops, I.record = [], True
        now = const("now", REAL)
        I.hooks["time"] = lambda I: Sym(now)
        kind, v = outcome(I, f, [w.obj, files, dirs], args)
        if never_fails(I, kind):
            return kind
        w = with_old(of(w.obj), w)
        settle(I, w)
        k = known(w)
        new = lambda c: conj([batch(c), neg(w.known(c))])
        I.oblige("the paths are stored in addition", forall([p], k(p) == disj([w.known(p), batch(p)])))
        b_ = const("b", P)
        parent = lambda c: exists([b_], conj([batch(b_), dirname(b_) == c, neg(c == EMPTY)]))
        want = {"directory": lambda c: If(w.known(c), w.old["directory"](c), md(c))}
        I.oblige("parents are marked as directories", forall([p], imp(conj([k(p), parent(p)]), col(w, "directory")(p))))
        A = ancestors(parent) if side == "profile" else lambda c: FF
        given = {"directory": md}
        if side == "profile":
            given["priority"] = lambda c: args["priority"].e if "priority" in args else RealVal(0)
            given["local"] = lambda c: args["local"].e if "local" in args else TT
        else:
            given["lastsync"] = lambda c: now
        for x in w.cols:
            excl = parent if x == "directory" else A if x in ("priority", "local") else lambda c: FF
            I.oblige("%s of new paths is the one given" % x, forall([p], imp(conj([new(p), neg(excl(p))]), col(w, x)(p) == given[x](p))))
            I.oblige("%s of known paths is kept" % x, forall([p], imp(conj([w.known(p), neg(excl(p))]), col(w, x)(p) == w.old[x](p))))
        if side == "profile":
            aggregates(I, w, A)
        I.oblige("known paths keep their salts", forall([p], w.coll.dom([p]) == Function("salted", P, B)(p)))
        check_representation(I, w)
        return kind
    return b


@body("profile")
def mark_directory(I, f, w):
    S, mem = path_set("paths", I)
    kind, v = outcome(I, f, [w.obj, S])
    if never_fails(I, kind):
        return kind
    d = col(w, "directory")
    I.oblige("the paths are directories", forall([p], imp(conj([known(w)(p), mem(p)]), d(p))))
    I.oblige("other paths are as before", forall([p], imp(conj([known(w)(p), neg(mem(p))]), d(p) == w.old["directory"](p))))
    unchanged(I, w, ["priority", "local"])
    check_representation(I, w)
    return kind


@body("profile")
def add_inflated(I, f, w):
    files, mf = path_set("files", I)
    dirs, md = path_set("dirs", I)
    calls = []

    def c_add(I, a):
        a["files"], a["dirs"]
        mf2, md2 = mem_of(I, a["files"], "files", once=True), mem_of(I, a["dirs"], "dirs", once=True)
        I.oblige("the files are added", forall([p], mf2(p) == mf(p)))
        I.oblige("the directories are added", forall([p], md2(p) == md(p)))
        top = term(a.get("priority", 0), REAL)
        isfile_ = lambda c: conj([w.known(c), neg(w.old["directory"](c))])
        prio = w.old["priority"]
        I.oblige("no file has a higher priority", forall([p], imp(isfile_(p), prio(p) <= top)))
        I.oblige("it is the priority of a file", imp(exists([p], isfile_(p)), exists([p], conj([isfile_(p), prio(p) == top]))))
        I.oblige("without files it is zero", imp(neg(exists([p], isfile_(p))), top == 0))
        local = a.get("local", True)
        I.oblige("they are in the local directory", term(local, B))
        a["self"].attrs["%added"] = Sym(disj([term(a["self"].attrs.get("%added", False), B), TT]))
    I.contracts[PD + "add_paths"] = c_add
    kind, v = outcome(I, f, [w.obj, files, dirs])
    if never_fails(I, kind):
        return kind
    I.oblige("the paths are added", term(w.obj.attrs.get("%added", False), B))
    return kind


def create(side):
    def body_(I, f):
        forbid(I, *FS)
        t = Const("path", P)
        made, log = sql.new_database(), []

        def connect(I, a, k):
            I.oblige("the database is opened at its path", term(a[0], P) == t)
            I.oblige("an existing database is not opened", neg(lib.isfile(t)))
            log.append(1)
            return sql.connection(made)
        I.hooks["sqlite_connect"] = connect
        o = ObjV(I.loader.func(cls_of(side)), {"path": Sym(t), "_conn": None, "_cur": None})
        kind, v = outcome(I, f, [o])
        if kind == "raise":
            I.oblige("it only fails if the database exists", lib.isfile(t))
            I.oblige("FileExistsError is raised", BoolVal(v.cls is FileExistsError))
            return kind
        I.oblige("an existing database is not replaced", neg(lib.isfile(t)))
        db = o.attrs["_conn"].attrs["%db"] if isinstance(o.attrs["_conn"], ObjV) else None
        I.oblige("the connection is kept", BoolVal(db is not None and isinstance(o.attrs["_cur"], ObjV)))
        if db is None:
            return kind
        for n in ("nodes", "closure", "collisions"):
            have = "t:" + n in db.attrs
            I.oblige("there is a table " + n, BoolVal(have))
            if have:
                tab = db.attrs["t:" + n]
                xs = [const("x", s) for s in sorts_of(db.attrs["s:" + n].kshape())]
                I.oblige("the table %s is empty" % n, forall(xs, neg(tab.dom(xs))))
        I.oblige("foreign keys are enforced", BoolVal(bool(db.attrs["%fk"])))
        return kind
    return body_


def open_existing(side):
    def body_(I, f):
        forbid(I, *FS)
        t = Const("path", P)
        db = sql.new_database()

        def connect(I, a, k):
            I.oblige("the database is opened at its path", term(a[0], P) == t)
            I.oblige("only an existing database is opened", lib.isfile(t))
            return sql.connection(db)
        I.hooks["sqlite_connect"] = connect
        o = ObjV(I.loader.func(cls_of(side)), {})
        kind, v = outcome(I, f, [o, Sym(t)])
        if never_fails(I, kind):
            return kind
        conn = o.attrs.get("_conn")
        I.oblige("the path is kept", term(o.attrs["path"], P) == t)
        if conn is None:
            I.oblige("an existing database is opened", neg(lib.isfile(t)))
        else:
            I.oblige("foreign keys are enforced", BoolVal(bool(db.attrs["%fk"])))
            I.oblige("there is a cursor", BoolVal(isinstance(o.attrs.get("_cur"), ObjV)))
        return kind
    return body_


# --- IDs -------------------------------------------------------------------------------------

hash1, hash2 = Function("hash_of", P, P), Function("salted_hash_of", P, P, P)


def salt_of(w):
    val = w.coll.val
    return lambda c: term(val([c]).items[0], P)


def id_of(w):
    """The ID of a path, given the salts stored."""
    dom, salt = w.coll.dom, salt_of(w)
    return lambda c: If(dom([c]), hash2(c, salt(c)), hash1(c))


def c_id(I, a):
    w = of(a["self"])
    return Sym(id_of(w)(term(a["path"], P)))


def open_ids(I, cls):
    """A database where paths and IDs are different things: each row has the ID of its path."""
    w = open_db(I, cls)
    row, pathof = Function("row", P, B), Function("path_of", P, P)
    cols = {x: Function("row_" + x, P, w.schema.sorts[x]) for x in w.cols}
    w.nodes.dom = lambda c: row(c[0])
    w.nodes.val = lambda c: TupV([Sym(pathof(c[0])) if x == "path" else Sym(cols[x](c[0])) for x in w.schema.rest])
    w.closure.dom = lambda c: Function("in_closure", P, P, B)(c[0], c[1])
    w.row, w.pathof, w.id0 = row, pathof, id_of(w)
    I.assume(ForAll([p], Implies(row(p), w.id0(pathof(p)) == p), patterns=[row(p)]))
    return w


def path_id(side):
    """The ID is the first 64 bits of a cryptographic hash of the path, followed by its salt if it has one."""
    def body_(I, f):
        w = open_ids(I, cls_of(side))
        forbid(I, *FS)
        t = Const("path", P)
        I.assume(conj([neg(t == EMPTY), neg(t == NONE)]))
        kind, v = outcome(I, f, [w.obj, Sym(t)])
        if never_fails(I, kind):
            return kind
        H = lambda s: Function("from_bytes_big_True", P, INT)(Function("slice[None:8]", P, P)(Function("digest_sha256", P, P)(Function("str_encode", P, P)(s))))
        if not isinstance(v, Sym) or v.sort != INT:
            raise Unsupported("ID")
        has, salt = w.coll.dom([t]), salt_of(w)(t)
        I.oblige("without a salt it is the hash of the path", imp(neg(has), v.e == H(t)))
        I.oblige("with a salt it is that of the path and the salt", imp(has, v.e == H(concat(t, salt))))
        I.oblige("no row is changed", forall([p], w.nodes.dom([p]) == w.row(p)))
        I.oblige("no salt is changed", forall([p], conj([w.coll.dom([p]) == Function("salted", P, B)(p), salt_of(w)(p) == Function("salt", P, P)(p)])))
        return kind
    return body_


class Done(Exception):
    pass


def add_ids(side):
    """The IDs with which paths are added."""
    def body_(I, f):
        w = open_ids(I, cls_of(side))
        forbid(I, *FS)
        files, mf = path_set("files", I)
        dirs, md = path_set("dirs", I)
        batch = lambda c: disj([mf(c), md(c)])
        now = const("now", REAL)
        I.hooks["time"] = lambda I: Sym(now)
        i = const("i", P)

        def invariant(I, locs, env, omap):
            c = of(w.obj) if omap is None else None
            coll = w.coll if omap is None else omap.get(id(w.coll), w.coll)
            v = DB()
            v.coll = coll
            return [("known paths keep their IDs", forall([i], imp(w.row(i), id_of(v)(w.pathof(i)) == i)))]
        I.loop_inv[f.qual] = invariant
        steps = []

        def insert(I, st, arg, cur):
            if st[1] != "nodes":
                return
            v = of(I.deref(w.obj)) if hasattr(I, "deref") else of(w.obj)
            gid = id_of(v)
            # a new salt is as good as random: a salted path does not collide with a stored one
            I.assume(forall([p, i], imp(conj([v.coll.dom([p]), w.row(i), i == gid(p)]), w.pathof(i) == p)))
            I.oblige("known paths keep their IDs", forall([i], imp(w.row(i), gid(w.pathof(i)) == i)))
            I.oblige("no row is changed before", forall([i], v.nodes.dom([i]) == w.row(i)))
            parts = I.parts_of(arg)
            for q_ in parts:
                g, e = (q_.guard, q_.elem) if isinstance(q_, Part) else (TT, q_.v)
                get = lambda n: term(e.d[n], P)
                I.oblige("paths are added with their IDs", forall(q_.xs, imp(g, get("path_id") == gid(get("path")))))
                I.oblige("no path is added with the ID of another stored path", forall(list(q_.xs) + [i], imp(conj([g, w.row(i), i == get("path_id")]), w.pathof(i) == get("path"))))
            steps.append(1)
            raise Done()
        I.hooks["sql_executemany_insert"] = insert
        try:
            kind, v = outcome(I, f, [w.obj, files, dirs], {})
        except Done:
            return "return"
        I.oblige("paths are inserted", FF)
        return kind
    return body_


def units():
    con = contracts("profile")
    rcon = contracts("remote")
    no = {x: y for x, y in con.items() if not x.startswith(PD)}
    out = [Unit("_get_path_id", SD + "_get_path_id", path_id("profile"), {}),
           Unit("_update_priority", PD + "_update_priority", update_priority, no),
           Unit("_update_local", PD + "_update_local", update_local, no)]
    for side, pre, c in (("profile", PD, con), ("remote", RD, rcon)):
        for name, mk in (("get_path_info", get_path_info), ("get_paths", get_paths), ("update_paths", update_paths), ("rm_paths", rm_paths)):
            out.append(Unit(side + "_" + name, pre + name, mk(side), c))
        ids = dict(c)
        ids[SD + "_get_path_id"] = c_id
        out.append(Unit(side + "_create", pre + "create", create(side), {SD + "_transact": noop_cm}))
        out.append(Unit(side + "_open", SD + "__init__", open_existing(side), {}))
        out.append(Unit(side + "_add_ids", pre + "add_paths", add_ids(side), ids))
        out.append(Unit(side + "_add_paths", pre + "add_paths", add_paths(side), c))
    out += [Unit("_mark_directory", SD + "_mark_directory", mark_directory, no), Unit("add_inflated", PD + "add_inflated", add_inflated, con)]
    out += [Unit("increment", PD + "increment", increment, con), Unit("increment_repeated", PD + "increment", increment_repeated, con), Unit("adjust_all", PD + "adjust_all", adjust_all, con)]
    return out
