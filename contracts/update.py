"""Bringing one side up to date with the other, and setting up a new profile (C07, C12, C13, C16, C19)."""
from .base import *
from .removal import only, forbid, track, happened, FS
from .fs import FT, c_replace_with_symlink
from pyvc.lib import isdir

FM = "zielen.filelogic.FilesManager."
REMOTE_ERROR = "zielen.exceptions.RemoteError"


def no_special_files(I, s):
    """Everything in a directory is a regular file, a directory or a symbolic link."""
    p = const("p", P)
    I.assume(ForAll([p], Implies(s.has(p), Or(s.file(p), s.dir(p), s.link(p))), patterns=[s.has(p)]))


def arg_mem(v):
    """The paths in an argument, None if it was not given."""
    return None if v is None else mem1(v)


def c_symlink_tree(I, a):
    """symlink_tree: creates links and directories; returns which ones."""
    fm, dm = mem1(a["src_files"]), mem1(a["src_dirs"])
    I.effect("symlink_tree", **dict(a, fm=fm, dm=dm))
    I.maybe_raise("symlink_tree", FileNotFoundError, OSError)
    new = I.fresh_fn("created", P, B)
    p = const("p", P)
    I.assume(forall([p], imp(new(p), disj([fm(p), dm(p)]))))
    I.effect("symlink_tree_done", created=new)
    return SetV(P, lambda c: new(c[0]))


def c_transfer_tree(I, a):
    I.effect("transfer_tree", **dict(a, fm=arg_mem(a.get("files")), xm=arg_mem(a.get("exclude"))))
    I.maybe_raise("transfer_tree", FileNotFoundError, OSError)
    I.effect("transfer_tree_done")


def is_false(v):
    return BoolVal(v is False or v is None) if not isinstance(v, Sym) else neg(v.e)


def is_true_(v):
    return BoolVal(v is True) if not isinstance(v, Sym) else v.e


# --- update_local ------------------------------------------------------------------

def c_compute_stale(I, a):
    """compute_stale: files that are known, not excluded, and neither retained nor above or below something retained."""
    fm = a["self"]
    mem = mem_of(I, a["retained_paths"], "retained_paths", once=True)
    I.effect("compute_stale", mem=mem)
    st = Function("stale", P, B)
    p, q = const("p", P), const("q", P)
    known = db_of(fm.attrs["profile"].attrs["_db_file"]).dom
    has = Scan("local", L, 0).has
    I.assume(forall([p], st(p) == conj([has(p), neg(allmatch(L, p)), known([p]),
             neg(exists([q], conj([mem(q), known([q]), disj([under(q, p), under(p, q)])])))])))
    return SetV(P, lambda c: st(c[0]))


def grow(I, ev, mem):
    """Add everything with mem to a ghost set."""
    s = I.ghost.attrs[ev]
    r = I.binset("|", s, SetV(P, lambda c: mem(c[0])))
    s.shape, s.mem = r.shape, r.mem


def c_record_local(I, a):
    """ProfileDBFile.update_paths in a caller that only sets whether paths are local."""
    mem = mem_of(I, a["paths"], "profile.update_paths(paths)")
    v = a.get("local")
    I.oblige("changes nothing but whether paths are local", BoolVal(a.get("directory") is None and a.get("priority") is None and isinstance(v, bool)))
    I.effect("record", local=v, mem=mem)
    if isinstance(v, bool):
        grow(I, "ev_rec_%s" % v, mem)


def c_paths_only(I, a):
    """get_paths where the values may have changed: only which paths exist is known."""
    m = db_get_paths("profile")(I, a)
    fs = [I.fresh_fn("val", P, s) for s in sorts_of(m.vshape)]
    return MapV(P, m.dom, lambda c: unflatten(m.vshape, [f(*c) for f in fs]), None, m.vshape)


def update_local(I, f):
    w = world(I)
    arg, S = path_set("retained", I)
    I.assume(Not(S(EMPTY)))
    only(I)
    p, q = const("p", P), const("q", P)
    stale = Function("stale", P, B)
    full = lambda p: join(L, p)
    st = {"tree": 0, "transfer": 0, "transferred": 0, "stale": 0, "record": 0}

    def compute(I, k, a):
        st["stale"] += 1
        I.oblige("retains the given paths", iff_all(a["mem"], S))
    I.hooks["compute_stale"] = compute
    # everything compute_stale reads is unchanged at that point

    def replacing(I, k, a):
        I.oblige("replaces only unneeded known files, by links to their remote counterparts", exists([p], conj([
            stale(p), neg(islink(full(p))), neg(isdir(full(p))), term(a["path"], P) == full(p), term(a["link_dest"], P) == join(R, p)])))
    I.hooks["try_replace_with_symlink"] = replacing

    def tree(I, k, a):
        st["tree"] += 1
        I.oblige("links in the local directory to the remote directory", conj([term(a["src_dir"], P) == R, term(a["dest_dir"], P) == L]))
        I.oblige("never overwrites with links", is_false(a.get("overwrite")))
        I.oblige("links exactly the remote database's files", iff_all(a["fm"], lambda p: conj([w.rknown(p), neg(w.rdir(p))])))
        I.oblige("creates exactly the remote database's directories", iff_all(a["dm"], lambda p: conj([w.rknown(p), w.rdir(p)])))
        I.oblige("frees space first", imp_all(lambda p: conj([stale(p), neg(islink(full(p))), neg(isdir(full(p)))]),
                                              lambda p: happened(I, "replace_with_symlink", join(R, p), full(p))))
    I.hooks["symlink_tree"] = tree
    created = []
    I.hooks["symlink_tree_done"] = lambda I, k, a: created.append(a["created"])

    def transfer(I, k, a):
        st["transfer"] += 1
        I.oblige("copies from the remote to the local directory", conj([term(a["source"], P) == R, term(a["dest"], P) == L]))
        I.oblige("never removes the source", is_false(a.get("rm_source")))
        I.oblige("copies exactly the selected paths", iff_all(a["fm"], S) if a["fm"] else FF)
        I.oblige("without exceptions", forall([p], neg(a["xm"](p))) if a["xm"] else TT)
        I.oblige("links first", BoolVal(st["tree"] == 1))
    I.hooks["transfer_tree"] = transfer
    I.hooks["transfer_tree_done"] = lambda I, k, a: st.__setitem__("transferred", st["transferred"] + 1)

    def record(I, k, a):
        I.oblige("records only after all files are in place", BoolVal(st["transferred"] == 1 and st["tree"] == 1))
        if a["local"] is not True:
            I.oblige("records what is local last", forall([p], neg(mem1(I.ghost.attrs["ev_rec_True"])(p))))
    I.hooks["record"] = record
    track(I, "replace_with_symlink", "rec_True", "rec_False")
    kind, v = outcome(I, f, [w.fm, arg])
    if kind == "return":
        I.oblige("updates once", BoolVal(st["tree"] == 1 and st["transfer"] == 1 and st["stale"] == 1))
        if len(created) == 1:
            I.oblige("records the replaced and the newly created paths as not local", iff_all(
                mem1(I.ghost.attrs["ev_rec_False"]), lambda p: disj([created[0](p), conj([stale(p), neg(islink(full(p)))])])))
        I.oblige("records the selected paths and their contents as local", iff_all(
            mem1(I.ghost.attrs["ev_rec_True"]), lambda p: conj([w.known(p), exists([q], conj([S(q), under(q, p)]))])))
    else:
        I.oblige("a failure records nothing", forall([p], neg(disj([mem1(I.ghost.attrs["ev_rec_" + x])(p) for x in ("True", "False")]))))
    return kind


# --- update_remote -----------------------------------------------------------------

def update_remote(I, f):
    w = world(I)
    no_special_files(I, w.ls)
    arg, S = path_set("updated", I)
    I.assume(Not(S(EMPTY)))
    only(I)
    now = Const("now", REAL)
    I.hooks["time"] = lambda I: Sym(now)
    st = {"transfer": 0, "done": 0, "update": 0}
    full = lambda p: join(L, p)
    bad = lambda p: disj([conj([w.ls.has(p), w.ls.link(p), unsafe(full(p), L)]), allmatch(L, p)])

    def transfer(I, k, a):
        st["transfer"] += 1
        I.oblige("copies from the local to the remote directory", conj([term(a["source"], P) == L, term(a["dest"], P) == R]))
        I.oblige("never removes the source", is_false(a.get("rm_source")))
        I.oblige("copies the given paths", iff_all(a["fm"], S) if a["fm"] else FF)
        xm = a["xm"] or (lambda p: FF)
        I.oblige("never copies unsafe links or excluded files from directories", imp_all(lambda p: conj([bad(p), neg(S(p))]), xm))
        I.oblige("leaves out nothing else", imp_all(xm, lambda p: conj([bad(p), neg(S(p))])))
    I.hooks["transfer_tree"] = transfer
    I.hooks["transfer_tree_done"] = lambda I, k, a: st.__setitem__("done", st["done"] + 1)

    def upd(I, k, a):
        st["update"] += 1
        I.oblige("updates the sync time of exactly the given paths", iff_all(a["mem"], S))
        I.oblige("after the transfer", BoolVal(st["done"] == 1))
        x = a["args"]
        I.oblige("with the current time", conj([BoolVal(x.get("directory") is None), term(x["lastsync"], REAL) == now]) if x.get("lastsync") is not None else FF)
    I.hooks["remote.update_paths"] = upd
    forbid(I, "profile.update_paths")
    kind, v = outcome(I, f, [w.fm, arg])
    if kind == "return":
        I.oblige("updates once", BoolVal(st == {"transfer": 1, "done": 1, "update": 1}))
    else:
        I.oblige("a failure records nothing", BoolVal(st["update"] == 0))
    I.oblige("no path is added or removed", conj([iff_all(lambda p: db_of(w.pdb).dom([p]), w.known), iff_all(lambda p: db_of(w.rdb).dom([p]), w.rknown)]))
    return kind


# --- setting up --------------------------------------------------------------------

def setup_dir(I, f):
    w = world(I)
    no_special_files(I, w.rs)
    arg, U = path_set("unsafe", I)
    only(I)
    p = const("p", P)
    st = {"profile": 0, "remote": 0, "tree": 0}
    files = lambda p: conj([w.rs.has(p), neg(w.rs.dir(p)), neg(U(p))])
    dirs = lambda p: conj([w.rs.has(p), w.rs.dir(p)])

    def adding(side):
        def h(I, k, a):
            st[side] += 1
            I.oblige("records exactly the remote files without the unsafe links (%s)" % side, iff_all(a["files"], files))
            I.oblige("records exactly the remote directories (%s)" % side, iff_all(a["dirs"], dirs))
            if side == "profile":
                I.oblige("records the files as not local", is_false(a["local"]) if a["local"] is not None else FF)
        return h
    I.hooks["profile.add_paths"], I.hooks["remote.add_paths"] = adding("profile"), adding("remote")

    def tree(I, k, a):
        st["tree"] += 1
        I.oblige("links in the local directory to the remote directory", conj([term(a["src_dir"], P) == R, term(a["dest_dir"], P) == L]))
        I.oblige("unsafe links are not replaced", imp_all(lambda p: conj([U(p), neg(w.known(p)), neg(w.rs.dir(p))]), lambda p: neg(disj([a["fm"](p), a["dm"](p)]))))
        both = lambda p: disj([a["fm"](p), a["dm"](p)])
        I.oblige("links only recorded paths", imp_all(both, lambda p: disj([w.known(p), files(p), dirs(p)])))
        I.oblige("links every recorded path", imp_all(lambda p: disj([files(p), dirs(p)]), both))
        I.oblige("replaces the copied files", is_true_(a.get("overwrite")))
        I.oblige("after recording", BoolVal(st["profile"] == 1))
    I.hooks["symlink_tree"] = tree
    kind, v = outcome(I, f, [w.fm, arg])
    if kind == "return":
        I.oblige("each step once", BoolVal(st == {"profile": 1, "remote": 1, "tree": 1}))
    return kind


def c_setup_dir(I, a):
    I.effect("_setup_dir", mem=mem1(a["unsafe_symlinks"]))
    I.maybe_raise("_setup_dir", OSError)


def setup_from_remote(I, f):
    w = world(I)
    no_special_files(I, w.rs)
    only(I)
    forbid(I, "transfer_tree", "symlink_tree")
    calls = []
    I.hooks["_setup_dir"] = lambda I, k, a: calls.append(a["mem"])
    kind, v = outcome(I, f, [w.fm])
    if kind == "return" or calls:
        I.oblige("sets up once", BoolVal(len(calls) == 1))
    for m in calls[:1]:
        I.oblige("leaves out exactly the unsafe links of the remote directory",
                 iff_all(m, lambda p: conj([w.rs.has(p), w.rs.link(p), unsafe(join(R, p), R)])))
    return kind


def c_number(name):
    """A number that depends on the directory: local_NAME or remote_NAME."""
    return lambda I, a: Sym(Const("%s_%s" % ("remote" if a["self"].cls.name.startswith("Remote") else "local", name), INT))


def setup_from_local(I, f):
    w = world(I)
    no_special_files(I, w.ls)
    only(I)
    st = {"transfer": 0, "done": 0, "setup": 0}
    uns = lambda p: conj([w.ls.has(p), w.ls.link(p), unsafe(join(L, p), L)])
    need, avail = Const("local_usage", INT), Const("remote_space", INT)

    def transfer(I, k, a):
        st["transfer"] += 1
        I.oblige("copies from the local to the remote directory", conj([term(a["source"], P) == L, term(a["dest"], P) == R]))
        I.oblige("never removes the source", is_false(a.get("rm_source")))
        I.oblige("copies everything", BoolVal(a["fm"] is None))
        I.oblige("except for exactly the excluded files and unsafe links",
                 iff_all(a["xm"] or (lambda p: FF), lambda p: disj([allmatch(L, p), uns(p)])))
        I.oblige("only if there is enough space", need <= avail)
    I.hooks["transfer_tree"] = transfer
    I.hooks["transfer_tree_done"] = lambda I, k, a: st.__setitem__("done", st["done"] + 1)

    def setup(I, k, a):
        st["setup"] += 1
        I.oblige("after the transfer", BoolVal(st["done"] == 1))
        I.oblige("leaves out the unsafe links, except for the links of an interrupted attempt", iff_all(
            a["mem"], lambda p: conj([uns(p), neg(lib.readlink(join(L, p)) == join(R, p))])))
    I.hooks["_setup_dir"] = setup
    forbid(I, "symlink_tree")
    kind, v = outcome(I, f, [w.fm])
    if kind == "return":
        I.oblige("each step once", BoolVal(st == {"transfer": 1, "done": 1, "setup": 1}))
    return kind


def units():
    c = base_contracts()
    c[FT + "symlink_tree"], c[FT + "transfer_tree"] = c_symlink_tree, c_transfer_tree
    c[FT + "replace_with_symlink"] = c_replace_with_symlink
    ul = dict(c)
    ul[FM + "compute_stale"] = c_compute_stale
    ul[PD + "update_paths"], ul[PD + "get_paths"] = c_record_local, c_paths_only
    sl = dict(c)
    sl[FM + "_setup_dir"] = c_setup_dir
    sl["zielen.userdata.SyncDir.disk_usage"] = c_number("usage")
    sl["zielen.userdata.SyncDir.space_avail"] = c_number("space")
    return [Unit("update_local", FM + "update_local", update_local, ul),
            Unit("update_remote", FM + "update_remote", update_remote, c),
            Unit("_setup_dir", FM + "_setup_dir", setup_dir, c),
            Unit("setup_from_remote", FM + "setup_from_remote", setup_from_remote, sl),
            Unit("setup_from_local", FM + "setup_from_local", setup_from_local, sl)]
