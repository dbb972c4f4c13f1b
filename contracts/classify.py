"""Classification of paths: added, modified, deleted, stale (C02, C03, C16)."""
from .base import *

FM = "zielen.filelogic.FilesManager."


def compute_deleted(I, f):
    w = world(I)
    kind, v = outcome(I, f, [w.fm])
    if kind == "raise":
        I.oblige("compute_deleted never fails", FF)
        return kind
    loc, rem, trash = fields(v, 3)
    K, Lh, Rh, RK = w.known, w.ls.has, w.rs.has, w.rknown
    q = const("q", P)
    top = lambda miss: (lambda p: conj([K(p), neg(miss(p)), neg(exists([q], conj([K(q), neg(miss(q)), under(q, p), neg(q == p)])))]))
    I.oblige("local deletions are the topmost known paths missing remotely", iff_all(loc, top(Rh)))
    both = lambda p: disj([rem(p), trash(p)])
    I.oblige("remote deletions are known and missing locally", imp_all(both, lambda p: conj([K(p), neg(Lh(p))])))
    I.oblige("every topmost locally missing path is scheduled", imp_all(top(Lh), both))
    p = const("p", P)
    sub = forall([p], imp(K(p), RK(p)))
    I.oblige("only topmost paths are scheduled remotely", imp(sub, imp_all(both, top(Lh))))
    ut = Const("cfg_use_trash", B)
    I.oblige("trash holds exactly the remote deletions without local content",
             imp_all(both, lambda p: trash(p) == conj([ut, neg(w.ploc(p))])))
    I.oblige("trash and permanent deletions are disjoint", forall([p], neg(conj([rem(p), trash(p)]))))
    return kind


def compute_added(I, f):
    w = world(I)
    kind, v = outcome(I, f, [w.fm])
    if kind == "raise":
        I.oblige("compute_added never fails", FF)
        return kind
    loc, rem = fields(v, 2)
    I.oblige("added local paths exactly", iff_all(loc, lambda p: conj([
        w.ls.has(p), neg(w.known(p)), neg(unsafe(join(L, p), L)), neg(allmatch(L, p))])))
    I.oblige("added remote paths exactly", iff_all(rem, lambda p: conj([w.rs.has(p), neg(w.known(p))])))
    return kind


def compute_modified(I, f):
    w = world(I)
    kind, v = outcome(I, f, [w.fm])
    if kind == "raise":
        I.oblige("compute_modified never fails", FF)
        return kind
    loc, rem = fields(v, 2)
    ls = Const("cfg_last_sync", REAL)
    mt = STATF["st_mtime"]
    I.oblige("modified local paths exactly", iff_all(loc, lambda p: conj([
        w.ls.has(p), neg(w.ls.dir(p)), mt(w.ls.stat(p)) > ls, w.known(p), neg(unsafe(join(L, p), L))])))
    I.oblige("modified remote paths exactly", iff_all(rem, lambda p: disj([
        conj([w.rs.has(p), neg(w.rs.dir(p)), mt(w.rs.stat(p)) > ls, w.known(p)]),
        conj([w.rknown(p), neg(w.rdir(p)), w.rsync(p) > ls])])))
    return kind


def compute_stale(I, f):
    w = world(I)
    arg, S = path_set("retained", I)
    I.assume(Not(S(EMPTY)))
    kind, v = outcome(I, f, [w.fm, arg])
    if kind == "raise":
        I.oblige("compute_stale never fails", FF)
        return kind
    res = mem1(v)
    q = const("q", P)
    # a retained path counts with everything known below it
    I.oblige("stale paths exactly", iff_all(res, lambda p: conj([
        w.ls.has(p), neg(allmatch(L, p)), w.known(p),
        neg(exists([q], conj([S(q), w.known(q), disj([under(q, p), under(p, q)])])))])))
    return kind


def units():
    c = base_contracts()
    return [Unit("compute_deleted", FM + "compute_deleted", compute_deleted, c),
            Unit("compute_added", FM + "compute_added", compute_added, c),
            Unit("compute_modified", FM + "compute_modified", compute_modified, c),
            Unit("compute_stale", FM + "compute_stale", compute_stale, c)]
