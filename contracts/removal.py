"""Deleting files and moving them to the trash (C04, C05, C06)."""
from .base import *

FM = "zielen.filelogic.FilesManager."
NS = [FileNotFoundError]
DB_EFFECTS = ("profile.rm_paths", "remote.rm_paths")


def track(I, *kinds):
    """Record the effects of these kinds as sets of their arguments (in alphabetical order)."""
    for k in kinds:
        I.ghost.attrs["ev_" + k] = empty_set()


def happened(I, kind, *ts):
    """Whether the recorded effect happened with these arguments."""
    sh, m = as_mem(I.ghost.attrs["ev_" + kind])
    return FF if sh is None else m(list(ts))


def forbid(I, *kinds):
    """These effects must not happen at all."""
    for k in kinds:
        I.hooks[k] = lambda I, kind, args: I.oblige("no %s" % kind, FF, "frame")


FS = ("remove", "rmtree", "rmdir", "rename", "replace", "symlink", "mkdir", "makedirs", "copy2", "copy", "copyfile",
      "copytree", "move", "utime", "open_write", "link", "truncate", "chmod", "removedirs", "copystat")


def only(I, *kinds):
    forbid(I, *[k for k in FS if k not in kinds])


def dbs_without(I, w, gone, name):
    """Both databases lost exactly the paths at and below `gone` (values of the others' data may change)."""
    g = below(gone)
    I.oblige(name + ": profile database", iff_all(lambda p: db_of(w.pdb).dom([p]), lambda p: conj([w.known(p), neg(g(p))])))
    I.oblige(name + ": remote database", iff_all(lambda p: db_of(w.rdb).dom([p]), lambda p: conj([w.rknown(p), neg(g(p))])))


# --- _rm_files -------------------------------------------------------------------------

def rm_files(I, f):
    w = world(I)
    arg, S = path_set("doomed", I)
    D = Const("parent_dir", P)
    only(I, "remove", "rmtree")
    q = const("q", P)
    for k in ("try_remove", "try_rmtree"):
        I.hooks[k] = lambda I, kind, a: I.oblige("deletes only the given paths", exists([q], conj([S(q), term(a["path"], P) == join(D, q)])), "frame")
    track(I, "remove", "rmtree", "remove!FileNotFoundError")
    kind, v = outcome(I, f, [w.fm, arg, Sym(D)])
    if kind == "return":
        done = lambda p: disj([happened(I, k, join(D, p)) for k in ("remove", "rmtree", "remove!FileNotFoundError")] + [neg(lib.lexists(join(D, p)))])
        I.oblige("every given path is deleted or was missing", imp_all(S, done))
        dbs_without(I, w, S, "databases forget exactly the deleted paths")
    else:
        I.oblige("databases keep everything if deleting fails",
                 conj([iff_all(lambda p: db_of(w.pdb).dom([p]), w.known), iff_all(lambda p: db_of(w.rdb).dom([p]), w.rknown)]))
    return kind


def c_rm_files(I, a):
    """Contract of _rm_files."""
    fm = a["self"]
    mem = mem_of(I, a["paths"], "_rm_files(paths)")
    I.effect("_rm_files", mem=mem, parent=term(a["parent_dir"], P))
    I.maybe_raise("_rm_files", OSError)
    rm_from_dbs(I, fm, mem)


def rm_from_dbs(I, fm, mem):
    for o, k in ((fm.attrs["profile"], "profile"), (fm.attrs["remote_dir"], "remote")):
        db = o.attrs["_db_file"]
        db_rm_paths(k)(I, {"self": db, "paths": SetV(P, lambda c: mem(c[0]))})


# --- rm_local_files --------------------------------------------------------------------

def rm_local_files(I, f):
    w = world(I)
    arg, S = path_set("doomed", I)
    I.assume(Not(S(EMPTY)))
    forbid(I, *FS)
    calls = []
    I.hooks["_rm_files"] = lambda I, k, a: calls.append((a["mem"], a["parent"]))
    excl = lambda e: allmatch(L, e)
    kind, v = outcome(I, f, [w.fm, arg])
    q = const("q", P)
    I.oblige("deletes once", BoolVal(len(calls) == 1))
    if len(calls) != 1:
        return kind
    D, parent = calls[0]
    I.oblige("deletes in the local directory", parent == L)
    p, e = const("p", P), const("e", P)
    I.oblige("no excluded file is deleted, by itself or with its directory",
             forall([p, e], imp(conj([D(p), excl(e)]), neg(under(p, e)))))
    I.oblige("deletes only the given paths and their contents",
             imp_all(D, lambda p: exists([q], conj([S(q), under(q, p)]))))
    I.oblige("deletes every given path without excluded contents",
             imp_all(lambda p: conj([S(p), neg(exists([e], conj([excl(e), under(p, e)])))]), D))
    I.oblige("deletes the known contents of the other directories",
             forall([p, q], imp(conj([S(q), neg(q == EMPTY), w.known(p), under(q, p), neg(exists([e], conj([excl(e), under(p, e)])))]),
                                exists([e], conj([D(e), under(e, p)])))))
    if kind == "return":
        dbs_without(I, w, S, "databases forget exactly the given paths")
    return kind


# --- rm_remote_files, rm_excluded_files -------------------------------------------------

def rm_remote_files(I, f):
    w = world(I)
    arg, S = path_set("doomed", I)
    forbid(I, *FS)
    calls = []
    I.hooks["_rm_files"] = lambda I, k, a: calls.append((a["mem"], a["parent"]))
    kind, v = outcome(I, f, [w.fm, arg])
    I.oblige("deletes once", BoolVal(len(calls) == 1))
    if len(calls) == 1:
        I.oblige("deletes in the remote directory", calls[0][1] == R)
        I.oblige("deletes exactly the given paths", iff_all(calls[0][0], S))
    if kind == "return":
        dbs_without(I, w, S, "databases forget exactly the given paths")
    return kind


allexcl = Function("excluded_by_every_client", P, B)


def c_check_excluded(I, a):
    mem = mem_of(I, a["paths"], "check_excluded(paths)", once=True)
    return SetV(P, lambda c: conj([mem(c[0]), allexcl(c[0])]))


def rm_excluded_files(I, f):
    w = world(I)
    arg, S = path_set("excluded", I)
    forbid(I, *FS)
    calls = []
    I.hooks["_rm_files"] = lambda I, k, a: calls.append((a["mem"], a["parent"]))
    kind, v = outcome(I, f, [w.fm, arg])
    I.oblige("deletes once", BoolVal(len(calls) == 1))
    if len(calls) == 1:
        I.oblige("deletes in the remote directory", calls[0][1] == R)
        I.oblige("deletes exactly the excluded paths that every client excludes and the remote database knows",
                 iff_all(calls[0][0], lambda p: conj([S(p), allexcl(p), w.rknown(p)])))
    return kind


# --- cleanup_trash -----------------------------------------------------------------------

def cleanup_trash(I, f):
    w = world(I)
    only(I, "remove", "rmtree")
    now = Const("now", REAL)
    I.hooks["time"] = lambda I: Sym(now)
    T = term(w.remote.attrs["trash_dir"], P)
    none, per = Const("cfg_no_cleanup", B), Const("cfg_cleanup_period", INT)
    I.assume(Not(none))
    cut = now - z3.ToReal(per)
    old = lambda x: conj([dir_entry(T, x), STATF["st_mtime"](lstat(x)) <= cut])
    for k in ("try_remove", "try_rmtree"):
        I.hooks[k] = lambda I, kind, a: I.oblige("deletes only entries of the trash that are older than the period", old(term(a["path"], P)), "frame")
    track(I, "remove", "rmtree")
    kind, v = outcome(I, f, [w.fm])
    if kind == "return":
        x = const("x", P)
        I.oblige("every old entry is deleted",
                 forall([x], imp(old(x), disj([happened(I, "remove", x), happened(I, "rmtree", x)]))))
        I.oblige("whole directories are removed as such, links never followed",
                 forall([x], imp(happened(I, "rmtree", x), isdir_nf(x))))
        I.oblige("databases unchanged", conj([iff_all(lambda p: db_of(w.pdb).dom([p]), w.known), iff_all(lambda p: db_of(w.rdb).dom([p]), w.rknown)]))
    return kind


# --- trash_files ---------------------------------------------------------------------------

def c_update_mtime(I, a):
    I.effect("update_mtime", path=a["path"])
    I.maybe_raise("update_mtime", FileNotFoundError, OSError)


def trash_files(I, f):
    w = world(I)
    arg, S = path_set("trashed", I)
    only(I, "mkdir", "rename")
    T = term(w.remote.attrs["trash_dir"], P)
    q = const("q", P)
    I.hooks["mkdir"] = lambda I, k, a: I.oblige("creates only the trash directory", term(a["path"], P) == T, "frame")
    p2 = const("p", P)

    def renaming(I, k, a):
        s, d = term(a["src"], P), term(a["dst"], P)
        I.oblige("moves only the given paths of the remote directory", exists([q], conj([S(q), s == join(R, q)])))
        I.oblige("moves only to new names in the trash", exists([q], conj([d == join(T, q), neg(dir_entry(T, d))])))
        I.oblige("moves to different names", neg(exists([p2], happened(I, "try_rename", d, p2))))
    I.hooks["try_rename"] = renaming
    track(I, "try_rename", "rename", "update_mtime", "rename!FileNotFoundError")
    kind, v = outcome(I, f, [w.fm, arg])
    d = const("d", P)
    if kind == "return":
        I.oblige("every given path is moved or was missing",
                 imp_all(S, lambda p: exists([d], disj([conj([happened(I, "rename", d, join(R, p)), happened(I, "update_mtime", d)]),
                                                        happened(I, "rename!FileNotFoundError", d, join(R, p))]))))
        dbs_without(I, w, S, "databases forget exactly the trashed paths")
    return kind


from pyvc.lib import dir_entry


def units():
    c = base_contracts()
    c2 = dict(c)
    c2[FM + "_rm_files"] = c_rm_files
    c3 = dict(c2)
    c3["zielen.userdata.RemoteSyncDir.check_excluded"] = c_check_excluded
    c4 = dict(c)
    c4["zielen.fstools.update_mtime"] = c_update_mtime
    return [Unit("_rm_files", FM + "_rm_files", rm_files, c),
            Unit("rm_local_files", FM + "rm_local_files", rm_local_files, c2),
            Unit("rm_remote_files", FM + "rm_remote_files", rm_remote_files, c2),
            Unit("rm_excluded_files", FM + "rm_excluded_files", rm_excluded_files, c3),
            Unit("cleanup_trash", FM + "cleanup_trash", cleanup_trash, c),
            Unit("trash_files", FM + "trash_files", trash_files, c4)]
