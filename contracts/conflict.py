"""Conflicts (C01)."""
from .base import *
from .removal import *
from pyvc import lib

MT = STATF["st_mtime"]


def c_rename(side):
    def h(I, a):
        sh, mem = as_mem(a["path_pairs"])
        I.effect("rename_%s" % side, mem=mem, shape=sh)
        I.maybe_raise("rename_%s" % side, OSError)
    return h


def rename_calls(I, calls):
    """All pairs renamed on a side: membership of (old, new)."""
    return lambda o, n: disj([m([o, n]) for m in calls])


def handle_conflicts(I, f):
    w = world(I)
    a1, LP = path_set("local_modified", I)
    a2, RP = path_set("remote_modified", I)
    p, q = const("p", P), const("q", P)
    for S in (LP, RP):
        I.assume(Not(S(EMPTY)))
    # the conflicting paths were found on both sides
    I.assume(forall([p], imp(conj([LP(p), RP(p)]), conj([w.ls.has(p), w.rs.has(p)]))))
    I.assume(forall([p], conj([neg(tstamp(p) == p), neg(tstamp(p) == EMPTY), neg(tstamp(p) == NONE)])))
    forbid(I, *FS)
    calls = {"rename_local": [], "rename_remote": []}
    for k in calls:
        I.hooks[k] = lambda I, k, a: calls[k].append(a["mem"])
    kind, v = outcome(I, f, [w.fm, a1, a2])
    conf = lambda p: conj([LP(p), RP(p), neg(conj([w.known(p), w.pdir(p)]))])
    lm, rm = (lambda p: MT(w.ls.stat(p))), (lambda p: MT(w.rs.stat(p)))
    lo = lambda p: conj([conf(p), lm(p) < rm(p)])
    ro = lambda p: conj([conf(p), rm(p) < lm(p)])
    cl, cr = rename_calls(I, calls["rename_local"]), rename_calls(I, calls["rename_remote"])
    I.oblige("renames locally only older conflicting files", forall([p, q], imp(cl(p, q), conj([lo(p), q == tstamp(p)]))))
    I.oblige("renames remotely only older conflicting files", forall([p, q], imp(cr(p, q), conj([ro(p), q == tstamp(p)]))))
    if kind == "raise":
        ok = v.cls is OSError
        if not ok:
            I.oblige("fails only if renaming fails", FF)
        return kind
    I.oblige("renames every older local copy", forall([p], imp(lo(p), cl(p, tstamp(p)))))
    I.oblige("renames every older remote copy", forall([p], imp(ro(p), cr(p, tstamp(p)))))
    res = fields(v, 2)
    for r, S, o, side in ((res[0], LP, lo, "local"), (res[1], RP, ro, "remote")):
        I.oblige("%s result: no path is dropped" % side, imp_all(S, lambda p: disj([r(p), conj([o(p), r(tstamp(p))])])))
        I.oblige("%s result: old names of renamed files are dropped" % side,
                 imp_all(o, lambda p: disj([neg(r(p)), exists([q], conj([o(q), p == tstamp(q)]))])))
        I.oblige("%s result: only the given paths and new names" % side,
                 imp_all(r, lambda p: disj([S(p), exists([q], conj([o(q), p == tstamp(q)]))])))
    return kind


def c_rename_files(I, a):
    sh, mem = as_mem(a["path_pairs"])
    I.effect("_rename_files", mem=mem, parent=term(a["parent_dir"], P))
    I.maybe_raise("_rename_files", FileNotFoundError, OSError)
    I.effect("_renamed_files")


def rename_side(side, root):
    def body(I, f):
        w = world(I)
        prs = Function("pairs", P, P, B)
        arg = SetV(Tup([P, P]), lambda c: prs(*c))
        forbid(I, *FS)
        calls = []
        I.hooks["_rename_files"] = lambda I, k, a: calls.append(a)
        done = []
        I.hooks["_renamed_files"] = lambda I, k, a: done.append(k)
        o, n = const("o", P), const("n", P)
        kind, v = outcome(I, f, [w.fm, arg])
        I.oblige("renames once", BoolVal(len(calls) == 1))
        if kind == "return":
            I.oblige("a failed rename is reported", BoolVal(bool(done)))
        if len(calls) == 1:
            I.oblige("renames in the %s directory" % side, calls[0]["parent"] == root)
            I.oblige("renames exactly the given pairs", forall([o, n], calls[0]["mem"]([o, n]) == prs(o, n)))
        return kind
    return body


def rename_files(I, f):
    w = world(I)
    prs = Function("pairs", P, P, B)
    arg = SetV(Tup([P, P]), lambda c: prs(*c))
    D = Const("parent_dir", P)
    o, n, o2, p = const("o", P), const("n", P), const("o", P), const("p", P)
    I.assume(forall([o, n], imp(prs(o, n), conj([neg(o == NONE), neg(n == NONE), neg(o == EMPTY), neg(n == EMPTY)]))))
    only(I, "rename")
    I.hooks["try_rename"] = lambda I, k, a: I.oblige("renames only the given pairs", exists([o, n], conj(
        [prs(o, n), term(a["src"], P) == join(D, o), term(a["dst"], P) == join(D, n)])), "frame")
    track(I, "rename")
    isd = lambda p: exists([o], conj([prs(o, p), w.known(o), w.pdir(o)]))
    isf = lambda p: exists([o], conj([prs(o, p), neg(conj([w.known(o), w.pdir(o)]))]))
    seen = []

    def adding(I, k, a):
        seen.append(k)
        I.oblige("%s: directories as directories" % k, iff_all(a["dirs"], isd))
        I.oblige("%s: files as files" % k, iff_all(a["files"], isf))
    I.hooks["profile.add_paths"] = I.hooks["remote.add_paths"] = adding
    # old names are distinct files; a new name is not a name that is replaced
    I.assume(forall([o, n], imp(prs(o, n), neg(exists([o2], prs(n, o2))))))
    I.assume(forall([o, n, p, o2], imp(conj([prs(o, n), prs(p, o2), under(o, p)]), o == p)))
    kind, v = outcome(I, f, [w.fm, arg, Sym(D)])
    if kind == "raise":
        I.oblige("databases keep everything if renaming fails",
                 conj([iff_all(lambda p: db_of(w.pdb).dom([p]), w.known), iff_all(lambda p: db_of(w.rdb).dom([p]), w.rknown)]))
        return kind
    I.oblige("renames all pairs", forall([o, n], imp(prs(o, n), happened(I, "rename", join(D, n), join(D, o)))))
    old = lambda p: exists([o, n], conj([prs(o, n), under(o, p)]))
    new = lambda p: exists([o], prs(o, p))
    for db, k, s in ((w.pdb, w.known, "profile"), (w.rdb, w.rknown, "remote")):
        I.oblige("%s database: old names and their contents replaced by the new names" % s,
                 iff_all(lambda p: db_of(db).dom([p]), lambda p: disj([conj([k(p), neg(old(p))]), new(p)])))
    return kind


STAMP = "%Y%m%d-%H%M%S"


def pieces(t):
    """The texts that were joined."""
    return pieces(t.arg(0)) + pieces(t.arg(1)) if z3.is_app(t) and t.decl().eq(concat) else [t]


def timestamp_path_unit(I, f):
    only(I)
    path = Const("path", P)
    kind, v = outcome(I, f, [Sym(path)], {"keyword": "conflict"})
    I.oblige("a name is found", BoolVal(kind == "return"))
    if kind == "return":
        want = [lib.splitroot(path), lit("_conflict-"), None, lib.splitext(path)]
        got = pieces(term(v, P))
        now = [t for t, w in zip(got, want) if w is None]
        I.oblige("the name has the time before its extension",
                 BoolVal(len(got) == 4 and all(w is None or g.eq(w) for g, w in zip(got, want))
                         and all(z3.is_app(t) and t.decl().name() == "strftime:" + STAMP for t in now)))
    return kind


def conflict_name(I, f):
    """A name as `timestamp_path` makes it differs from the original and lies in the same directory."""
    S = z3.StringSort()
    I.strsort = S
    d, r, e, t = (Const(n, S) for n in ("directory", "root", "extension", "time"))
    new = z3.Concat(r, z3.StringVal("_conflict-"), t, e)
    slash = lambda x: z3.Contains(x, z3.StringVal("/"))
    here = conj([neg(slash(r)), neg(slash(e)), neg(slash(t))])
    I.oblige("nothing is assumed of the path", TT)
    I.oblige("the name differs from the original", neg(z3.Concat(d, new) == z3.Concat(d, r, e)))
    I.oblige("the file stays in its directory", imp(here, neg(slash(new))))
    return "return"


def units():
    c = base_contracts()
    c[FM + "rename_local_files"] = c_rename("local")
    c[FM + "rename_remote_files"] = c_rename("remote")
    r = base_contracts()
    return [Unit("_rename_files", FM + "_rename_files", rename_files, r),
            Unit("rename_local_files", FM + "rename_local_files", rename_side("local", L), dict(r, **{FM + "_rename_files": c_rename_files})),
            Unit("rename_remote_files", FM + "rename_remote_files", rename_side("remote", R), dict(r, **{FM + "_rename_files": c_rename_files})),
            Unit("handle_conflicts", FM + "handle_conflicts", handle_conflicts, c),
            Unit("timestamp_path", "zielen.utils.timestamp_path", timestamp_path_unit, {}),
            Unit("conflict_name", "zielen.utils.timestamp_path", conflict_name, {})]
