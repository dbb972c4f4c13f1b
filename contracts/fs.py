"""File system helpers (C02, C13, C15, C16) and path helpers."""
from .base import *
from .removal import only, forbid, track, happened, FS
from pyvc.lib import in_tree, dir_entry, isdir, islink, isdir_nf, isabs, normpath, readlink, entry_of, lexists, dir_listing_fails
from pyvc.lib import fexists, lstat, isfile_nf
from pyvc import lib

FT = "zielen.fstools."


# --- scan_tree ---------------------------------------------------------------------

def c_scan_tree(I, a):
    """Contract of scan_tree: the entries of everything in the tree."""
    d = term(a["path"], P)
    dir_listing_fails(I, Sym(d))
    p = const("p", P)
    return GenV([Part([p], in_tree(d, p), Sym(entry_of(p)))])


def scan_tree(I, f):
    D = Const("directory", P)
    d, p, c = const("d", P), const("p", P), const("c", P)
    # walking a tree: its entries, and those of the directories in it
    I.assume(ForAll([d, p], in_tree(d, p) == Or(dir_entry(d, p), Exists([c], And(dir_entry(d, c), isdir_nf(c), in_tree(c, p)))),
                    patterns=[in_tree(d, p)]))
    only(I)
    kind, v = outcome(I, f, [Sym(D)])
    if kind == "return":
        sh, mem = as_mem(v)
        I.oblige("yields exactly the entries of the tree, without following links",
                 forall([p], mem([entry_of(p)]) == in_tree(D, p)))
        e = const("e", lib.ENTRY)
        I.oblige("yields nothing else", forall([e], imp(mem([e]), exists([p], e == entry_of(p)))))
    return kind


# --- get_path_ancestry ---------------------------------------------------------------

def get_path_ancestry(I, f):
    arg, S = path_set("paths", I)
    p, q = const("p", P), const("q", P)
    # relative paths: dirname gets to the empty path
    X = lambda p: exists([q], conj([S(q), under(p, q), disj([neg(p == EMPTY), S(EMPTY)])]))
    only(I)

    def inv(I, locs, env, omap):
        bag = out = None
        for l in locs.values():
            o = omap.get(id(l.obj), l.obj) if omap else l.obj
            if isinstance(o, BagV):
                bag = o
            elif isinstance(o, SetV):
                out = o
        if bag is None or out is None:
            raise Unsupported("loop invariant of get_path_ancestry")
        b, o = mem1(bag), mem1(out)
        both = lambda p: disj([b(p), o(p)])
        spec = lambda p: disj([S(p), conj([neg(p == EMPTY), exists([q], conj([S(q), under(p, q)]))])])
        return [("everything found is a path or an ancestor", imp_all(both, spec)),
                ("no path is lost", imp_all(S, both)),
                ("parents follow", imp_all(o, lambda p: disj([dirname(p) == EMPTY, both(dirname(p))])))]
    I.loop_inv[f.qual] = inv
    kind, v = outcome(I, f, [arg])
    if kind == "raise":
        I.oblige("never fails", FF)
        return kind
    r = mem1(v)
    # induction along the hierarchy: a set closed under dirname contains all ancestors
    I.assume(imp(forall([p], imp(conj([r(p), neg(dirname(p) == EMPTY)]), r(dirname(p)))),
                 forall([p, q], imp(conj([r(q), under(p, q), neg(p == EMPTY)]), r(p)))))
    I.oblige("exactly the paths and their ancestors",
             iff_all(r, lambda p: disj([S(p), conj([neg(p == EMPTY), exists([q], conj([S(q), under(p, q)]))])])))
    parts = I.parts_of(v)
    if len(parts) == 1 and isinstance(parts[0], Part) and parts[0].keys:
        ks = parts[0].keys
        x = parts[0].xs[0]
        I.oblige("sorted by depth, leaf to trunk",
                 BoolVal(len(ks) >= 1) if (ks[0][0].eq(depth(x)) and ks[0][1]) else FF)
    else:
        I.oblige("sorted by depth, leaf to trunk", BoolVal(len(parts) <= 1 and all(isinstance(x, Item) for x in parts)))
    return kind


# --- is_unsafe_symlink ---------------------------------------------------------------

def is_unsafe_symlink(I, f):
    lp, D = Const("link_path", P), Const("parent_path", P)
    I.assume(conj([isabs(lp), isabs(D)]))
    only(I)
    x, y = const("x", P), const("y", P)
    I.assume(forall([x, y], imp(isabs(x), isabs(join(x, y)))))
    I.assume(forall([x], imp(isabs(x), conj([isabs(dirname(x)), isabs(normpath(x))]))))
    I.hooks["commonpath"] = lambda I, items: I.oblige("commonpath compares absolute paths",
                                                      isabs(term(items[0], P)) == isabs(term(items[1], P)), "pre")
    kind, v = outcome(I, f, [Sym(lp), Sym(D)])
    if kind == "raise":
        I.oblige("never fails", FF)
        return kind
    t = readlink(lp)
    inside = conj([neg(isabs(t)), under(D, normpath(join(dirname(lp), t)))])
    r = I.truth(v)
    I.oblige("unsafe exactly if it is a link that is absolute or leads outside of the directory",
             lib.wrap_formula(r) == conj([islink(lp), neg(inside)]))
    return kind


# --- update_mtime ---------------------------------------------------------------------

def update_mtime(I, f):
    X = Const("path", P)
    only(I, "utime")
    now = Const("now", REAL)
    I.hooks["time"] = lambda I: Sym(now)
    I.hooks["options"] = ("utime",)
    seen = []
    I.hooks["tempfile"] = lambda I, k, a: (seen.append("dir"), I.oblige("changes only the directory itself", conj([term(a["dir"], P) == X, isdir(X), neg(islink(X))])))

    def utime(I, k, a):
        seen.append("utime")
        I.oblige("changes only the given path", term(a["path"], P) == X)
        o = a["options"]
        I.oblige("does not follow links", disj([BoolVal(o.get("follow_symlinks") is False), neg(islink(X))]))
        t = o.get("times")
        I.oblige("sets the current time", conj([eqv(t.items[1], Sym(now))]) if isinstance(t, TupV) else BoolVal(t is None))
    I.hooks["utime"] = utime
    del seen[:]
    kind, v = outcome(I, f, [Sym(X)])
    if kind == "return":
        I.oblige("an existing file is touched", imp(lexists(X), BoolVal(bool(seen))))
    return kind


# --- replace_file, replace_with_symlink -----------------------------------------------

secret = Function("secure_string", INT, P)


def c_secure_string(I, a):
    return Sym(I.fresh("random", P))


def replacing(make, margs):
    """Contract: dest is only ever changed by one atomic rename of a complete temporary file beside it."""
    def body(I, f):
        src, dst = Const("source", P), Const("dest", P)
        only(I, make, "replace", "rename", "remove")
        I.hooks["options"] = (make,)
        I.assume(conj([neg(src == NONE), neg(dst == NONE)]))
        st = {"made": [], "done": []}
        n = const("n", P)
        temp = lambda t: exists([n], conj([t == join(dirname(dst), n)]))
        new = []

        def making(I, k, a):
            t = term(a["dst"], P)
            I.oblige("writes only to a temporary file in the directory of the destination", conj([temp(t)]))
            I.oblige("never writes to the destination itself", neg(t == dst)) if False else None
            st["made"].append((I.pos, t, term(a["src"], P)))

        I.hooks["try_" + make] = making

        def moving(I, k, a):
            s, d = term(a["src"], P), term(a["dst"], P)
            I.oblige("replaces the destination with the complete temporary file",
                     conj([d == dst, happened_pair(I, make, s, src)]))
        I.hooks["try_replace"] = I.hooks["try_rename"] = moving

        def removing(I, k, a):
            I.oblige("removes only the temporary file", conj([temp(term(a["path"], P)), happened_pair(I, "try_" + make, term(a["path"], P), src)]))
        I.hooks["try_remove"] = removing
        track(I, make, "try_" + make, "replace", "rename", "remove", "try_remove")
        left = Function("lexists_afterwards", P, B)

        def asked(I, name, v):
            """What exists beside the destination changes with the first temporary file."""
            return Sym(left(term(v, P))) if name == "lexists" and st["made"] else None
        I.hooks["query"] = asked
        if make == "copy2":
            def opts(I, k, a):
                I.oblige("does not follow links in the source", BoolVal(a["options"].get("follow_symlinks") is False))
            I.hooks[make] = opts
        kind, v = outcome(I, f, [Sym(src), Sym(dst)])
        if kind == "return":
            I.oblige("the destination is replaced", disj([exists([n], happened(I, "replace", dst, n)), exists([n], happened(I, "rename", dst, n))]))
        else:
            t, s = const("t", P), const("s", P)
            I.oblige("a failed replacement leaves no temporary file", forall([t, s], imp(happened_pair(I, "try_" + make, t, s), disj([
                happened(I, "replace", dst, t), happened(I, "rename", dst, t), happened(I, "try_remove", t), neg(left(t))]))))
        return kind
    return body


def happened_pair(I, kind, dst, src):
    sh, m = as_mem(I.ghost.attrs["ev_" + kind])
    if sh is None:
        return FF
    return m([dst, src]) if len(sorts_of(sh)) == 2 else FF


# --- symlink_tree ------------------------------------------------------------------------

def c_replace_with_symlink(I, a):
    I.effect("try_replace_with_symlink", link_dest=a["link_dest"], path=a["path"])
    I.maybe_raise("replace_with_symlink", OSError)
    I.effect("replace_with_symlink", link_dest=a["link_dest"], path=a["path"])


def symlink_tree(I, f):
    src, dst = Const("src_dir", P), Const("dest_dir", P)
    fs, F = path_set("src_files", I)
    ds, D = path_set("src_dirs", I)
    ow = Const("overwrite", B)
    only(I, "mkdir", "symlink", "makedirs")
    p = const("p", P)
    I.hooks["try_makedirs"] = lambda I, k, a: I.oblige("creates only the destination", term(a["name"], P) == dst)
    I.hooks["try_mkdir"] = lambda I, k, a: I.oblige("creates exactly the directories", exists([p], conj([D(p), term(a["path"], P) == join(dst, p)])))
    I.hooks["try_symlink"] = lambda I, k, a: I.oblige("links files to their source", exists([p], conj(
        [F(p), neg(D(p)), term(a["src"], P) == join(src, p), term(a["dst"], P) == join(dst, p)])))
    I.hooks["try_replace_with_symlink"] = lambda I, k, a: I.oblige("existing files are replaced only with overwrite", conj([ow, exists([p], conj(
        [F(p), neg(D(p)), term(a["link_dest"], P) == join(src, p), term(a["path"], P) == join(dst, p)]))]))
    track(I, "mkdir", "symlink", "mkdir!FileExistsError", "symlink!FileExistsError", "replace_with_symlink")
    q = const("q", P)

    def parents(t):
        return lambda: forall([p, q], imp(conj([D(q), under(q, p), neg(q == p), t == join(dst, p)]),
                                          disj([happened(I, "mkdir", join(dst, q)), happened(I, "mkdir!FileExistsError", join(dst, q))])))
    for k, arg in (("try_mkdir", "path"), ("try_symlink", "dst")):
        def h(I, k, a, first=I.hooks[k], arg=arg):
            first(I, k, a)
            I.oblige("parent directories first", parents(term(a[arg], P)), "seq")
        I.hooks[k] = h
    kind, v = outcome(I, f, [Sym(src), Sym(dst), fs, ds, Sym(ow)])
    if kind == "return":
        r = mem1(v)
        mk = lambda p: happened(I, "mkdir", join(dst, p))
        ln = lambda p: happened(I, "symlink", join(dst, p), join(src, p))
        rp = lambda p: happened(I, "replace_with_symlink", join(src, p), join(dst, p))
        I.oblige("every directory is created or exists", imp_all(D, lambda p: disj([mk(p), happened(I, "mkdir!FileExistsError", join(dst, p))])))
        ex = lambda p: happened(I, "symlink!FileExistsError", join(dst, p), join(src, p))
        I.oblige("every file is linked, existed, or is replaced if asked for",
                 imp_all(lambda p: conj([F(p), neg(D(p))]), lambda p: disj([ln(p), conj([ex(p), disj([neg(ow), rp(p)])])])))
        I.oblige("returns exactly the created paths", iff_all(r, lambda p: disj([mk(p), ln(p), rp(p)])))
    return kind


# --- transfer_tree -----------------------------------------------------------------------

def c_replace_file(I, a):
    I.effect("try_replace_file", dst=a["dest_path"], src=a["source_path"])
    I.maybe_raise("replace_file", OSError)
    I.effect("replace_file", dst=a["dest_path"], src=a["source_path"])


def c_bar(I, cls, args, kwargs):
    return ObjV(cls, {}, "bar")


def c_bar_update(I, a):
    return None


def transfer_tree(with_files):
    def body(I, f):
        src, dst = Const("source", P), Const("dest", P)
        ex, X = path_set("exclude", I)
        fs, F = path_set("files", I)
        rm = Const("rm_source", B)
        p, q, d = const("p", P), const("q", P), const("d", P)
        realdir = lambda x: conj([isdir(x), neg(islink(x))])
        if with_files:
            sel = lambda p: disj([F(p), exists([q], conj([F(q), neg(islink(join(src, q))), isdir(join(src, q)), in_tree(join(src, q), join(src, p))]))])
        else:
            sel = lambda p: in_tree(src, join(src, p))
        chosen = lambda p: conj([sel(p), neg(X(p))])
        only(I, "makedirs", "remove", "rmdir")
        I.raises = {k: (OSError,) for k in ("makedirs", "remove", "rmdir")}
        I.hooks["try_makedirs"] = lambda I, k, a: I.oblige("creates only directories of selected files", exists([p], conj([chosen(p), disj([
            term(a["name"], P) == dirname(join(dst, p)), conj([term(a["name"], P) == join(dst, p), realdir(join(src, p))])])])))
        I.hooks["try_replace_file"] = lambda I, k, a: I.oblige("copies only selected files, each to its place", exists([p], conj([
            chosen(p), neg(realdir(join(src, p))), term(a["src"], P) == join(src, p), term(a["dst"], P) == join(dst, p)])))
        for k in ("try_remove", "try_rmdir"):
            I.hooks[k] = lambda I, k, a: I.oblige("removes only copied source files, if asked for", conj([rm, exists([p], conj([chosen(p), term(a["path"], P) == join(src, p),
                disj([happened(I, "replace_file", join(dst, p), join(src, p)), happened(I, "makedirs", join(dst, p))])]))]))
        track(I, "makedirs", "replace_file")
        kw = {"files": fs if with_files else None, "exclude": ex, "rm_source": Sym(rm), "message": Sym(Const("message", P))}
        kind, v = outcome(I, f, [Sym(src), Sym(dst)], kw)
        if kind == "return":
            I.oblige("every selected file is copied, every selected directory created", imp_all(chosen, lambda p: disj([
                conj([neg(realdir(join(src, p))), happened(I, "replace_file", join(dst, p), join(src, p))]),
                conj([realdir(join(src, p)), happened(I, "makedirs", join(dst, p))])])))
        return kind
    return body


# --- scan_paths ----------------------------------------------------------------------------

def scan_paths(cls, cached):
    """What a scan finds: with memoize, what the previous scan found, otherwise the tree as it is."""
    def body(I, f):
        root = Const("root", P)
        o = ObjV(I.loader.func("zielen.userdata." + cls), {"path": Sym(root)}, "syncdir")
        o.attrs["util_dir"] = Sym(join(root, lit(".zielen")))
        C = Function("cached", P, B)
        p, x = const("p", P), const("x", P)
        if cached:
            I.assume(exists([x], C(x)))
            o.attrs["_sub_entries"] = ListV([Part([x], C(x), TupV([Sym(entry_of(join(root, x))), Sym(x)]))])
        else:
            o.attrs["_sub_entries"] = ListV()
        fl, ln, dr, mz = (Const(n, B) for n in ("files", "symlinks", "dirs", "memoize"))
        ex, X = path_set("exclude", I)
        only(I)
        kw = dict(files=Sym(fl), symlinks=Sym(ln), dirs=Sym(dr), exclude=ex, memoize=Sym(mz))
        kind, v = outcome(I, f, [o], kw)
        if kind == "raise":
            return kind
        tree = lambda p: in_tree(root, join(root, p))
        src = (lambda p: disj([conj([mz, C(p)]), conj([neg(mz), tree(p)])])) if cached else tree
        full = lambda p: join(root, p)
        spec = lambda p: conj([src(p), disj([fl, neg(isfile_nf(full(p)))]), disj([dr, neg(isdir_nf(full(p)))]),
                               disj([ln, neg(islink(full(p)))]), neg(X(p))]
                              + ([neg(under(lit(".zielen"), p))] if cls.startswith("Remote") else []))
        if not isinstance(v, MapV) or v.kshape is None:
            raise Unsupported("result of scan_paths")
        I.oblige("exactly the paths in the directory of the requested types", iff_all(lambda p: v.dom([p]), spec))
        I.oblige("with their own stats, without following links",
                 forall([p], imp(v.dom([p]), term(v.val([p]), lib.STAT) == lstat(full(p)))))
        # what is remembered for later calls
        sh, mem = as_mem(o.attrs["_sub_entries"])
        if sh is not None:
            e = const("e", lib.ENTRY)
            I.oblige("the scan is remembered", forall([e, p], mem([e, p]) == conj([src(p), e == entry_of(full(p))])))
        else:
            I.oblige("the scan is remembered", forall([p], neg(src(p))))
        return kind
    return body


def units():
    c = base_contracts()
    st = {FT + "scan_tree": c_scan_tree}
    sec = {FT + "secure_string": c_secure_string, "zielen.utils.secure_string": c_secure_string}
    tt = dict(st, **{FT + "replace_file": c_replace_file, "zielen.utils.ProgressBar": c_bar, "zielen.utils.ProgressBar.update": c_bar_update})
    return [Unit("scan_tree", FT + "scan_tree", scan_tree, st),
            Unit("get_path_ancestry", "zielen.utils.get_path_ancestry", get_path_ancestry),
            Unit("is_unsafe_symlink", FT + "is_unsafe_symlink", is_unsafe_symlink),
            Unit("update_mtime", FT + "update_mtime", update_mtime),
            Unit("replace_file", FT + "replace_file", replacing("copy2", None), sec),
            Unit("replace_with_symlink", FT + "replace_with_symlink", replacing("symlink", None), sec),
            Unit("symlink_tree", FT + "symlink_tree", symlink_tree, {FT + "replace_with_symlink": c_replace_with_symlink}),
            Unit("scan_paths", "zielen.userdata.SyncDir.scan_paths", scan_paths("SyncDir", False), st),
            Unit("scan_paths_cached", "zielen.userdata.SyncDir.scan_paths", scan_paths("SyncDir", True), st),
            Unit("remote_scan_paths", "zielen.userdata.RemoteSyncDir.scan_paths", scan_paths("RemoteSyncDir", False), st),
            Unit("remote_scan_paths_cached", "zielen.userdata.RemoteSyncDir.scan_paths", scan_paths("RemoteSyncDir", True), st),
            Unit("transfer_tree", FT + "transfer_tree", transfer_tree(True), tt),
            Unit("transfer_tree_all", FT + "transfer_tree", transfer_tree(False), tt)]
