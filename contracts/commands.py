"""Commands: the order of their steps and what is passed between them (C06, C07, C12, C17, C18, C20)."""
from .base import *
from .removal import only, forbid, track, happened, FS
from .update import is_false, is_true_, c_number, arg_mem, no_special_files
from pyvc.lib import isdir

FM = "zielen.filelogic.FilesManager."
PR = "zielen.profile.Profile."
RS = "zielen.userdata.RemoteSyncDir."
CB = "zielen.commandbase.Command."
FAIL = (OSError, KeyboardInterrupt)


class Log:
    """The completed steps of the current path, and what has to come before what."""
    def __init__(self, I):
        self.I, self.done, self.args = I, [], {}

    def before(self, what, *names):
        for n in names:
            self.I.oblige("%s only after %s" % (what, n), BoolVal(n in self.done))

    def never(self, what, *names):
        for n in names:
            self.I.oblige("%s only before %s" % (what, n), BoolVal(n not in self.done))

    def count(self, n):
        return self.done.count(n)


def step(log, name, check=None, result=None, raises=FAIL, changes=True):
    """A callee of a command: `check` sees its arguments before anything happens."""
    def h(I, a):
        lg = log[0]
        if changes:
            I.oblige("%s only while holding the lock" % name, BoolVal("lock" in lg.done and "unlock" not in lg.done))
        if check:
            check(I, lg, a)
        lg.args[name] = a
        I.maybe_raise(name, *raises)
        lg.done.append(name)
        return result(I, lg, a) if result else None
    return h


def lock_model(I, lg):
    """The lock is held while the socket is open."""
    def closing(I, o, a):
        if o.attrs.get("%held"):
            lg.done.append("unlock")
    I.hooks["socket_close"] = closing


def c_setup_profile(log, w_of):
    """setup_profile: takes the lock or fails; then reads the profile and opens both directories."""
    def h(I, a):
        lg = log[0]
        self = a["self"]
        o = ObjV(None, {"%held": False}, "socket")
        self.attrs["lock_socket"] = o
        I.maybe_raise("lock", I.loader.func("zielen.exceptions.StatusError"))
        o.attrs["%held"] = True
        lg.done.append("lock")
        I.maybe_raise("setup", I.loader.func("zielen.exceptions.InputError"), FileNotFoundError)
        w = w_of(I)
        self.attrs["local_dir"], self.attrs["remote_dir"] = w.local, w.remote
        lg.done.append("setup_profile")
    return h


def released(I, lg, kind, socket):
    I.oblige("the lock is released in the end", BoolVal("lock" not in lg.done or lg.done[-1] == "unlock" or "unlock" in lg.done))


# --- sync ----------------------------------------------------------------------------

def sync_main():
    log, W = [None], [None]
    p, q = const("p", P), const("q", P)
    sets = {}

    def S(name):
        if name not in sets:
            sets[name] = Function(name, P, B)
        return sets[name]

    def paths(*names):
        def r(I, lg, a):
            w = W[0]
            for n in names:
                I.assume(conj([neg(S(n)(EMPTY)), neg(S(n)(NONE))]))
            return TupV([SetV(P, (lambda f: lambda c: f(*c))(S(n))) for n in names], r.fields, r.cls)
        return r

    def tup(clsname, fields, *names):
        r = paths(*names)
        r.fields = fields

        def g(I, lg, a):
            r.cls = I.loader.func(clsname)
            return r(I, lg, a)
        return g

    LR = ("local", "remote")
    union = lambda *fs: (lambda p: disj([f(p) for f in fs]))
    allnew = union(S("new_local"), S("new_remote"))
    alldel = ("rm_local_files", "rm_remote_files", "trash_files")

    def reach(I, lg, a):
        lg.never("checking that the remote directory is reachable", *[n for n in ORDER if n not in ("add_exclude_file", "setup_profile")])

    def args(key, want, name):
        def c(I, lg, a):
            I.oblige("%s: %s" % (name, key), iff_all(mem_of(I, a[key], key), want))
        return c

    def seq(name, after=(), checks=()):
        def c(I, lg, a):
            lg.before(name, "setup_profile", "add_exclude_file", *after)
            I.oblige("%s once" % name, BoolVal(name not in lg.done))
            for x in checks:
                x(I, lg, a)
        return c

    def fresh_set(name):
        return lambda I, lg, a: SetV(P, (lambda f: lambda c: f(*c))(S(name)))

    def selection(sel, rest):
        def r(I, lg, a):
            I.assume(conj([neg(S(sel)(EMPTY)), neg(S(sel)(NONE))]))
            return TupV([Sym(Const(rest, INT)), SetV(P, lambda c: S(sel)(*c))], ("remaining_space", "paths"),
                        I.loader.func("zielen.commands.sync.SelectedPaths"))
        return r
    limit, exsize = Const("cfg_storage_limit", INT), Const("excluded_size", INT)
    excl = lambda p: conj([allmatch(L, p), W[0].rs.has(p)])
    chosen = union(S("selected_dirs"), S("selected_files"), excl)
    upd = union(S("updated_local"), S("updated_remote"))
    never_changed = lambda nm: seq(nm)
    copied = ("update_remote",)
    ORDER = ("rm_local_files", "rm_remote_files", "trash_files", "handle_conflicts", "update_remote", "update_local",
             "rm_excluded_files", "cleanup_trash", "remote.write", "profile.write", "remote.add_paths", "profile.add_paths", "profile.add_inflated")

    def adding(db):
        def h(I, a):
            lg = log[0]
            I.oblige("records new paths only while holding the lock", BoolVal("lock" in lg.done and "unlock" not in lg.done))
            lg.before(db, "setup_profile", "add_exclude_file")
            fm, dm = mem_of(I, a["files"], "files", once=True), mem_of(I, a["dirs"], "dirs", once=True)
            isd, isf = dirs_of(I)
            x = I.fresh("path", P)
            I.oblige("only new directories are recorded as directories (%s)" % db, imp(dm(x), conj([allnew(x), neg(isf(x))])))
            I.oblige("only new and renamed files are recorded (%s)" % db, imp(fm(x), disj([allnew(x), upd(x)])))
            I.maybe_raise(db, *FAIL)
            lg.done.append(db)
            lg.args.setdefault(db, []).append((fm, dm, "handle_conflicts" in lg.done))
            kw = {k: a.get(k) for k in ("local", "priority") if k in a}
            if db == "profile.add_paths":
                I.oblige("new paths are recorded as local with the initial priority", BoolVal(kw.get("local") is True and kw.get("priority") == 0))
        return h

    def recorded(db, files, dirs):
        """Some call so far recorded exactly these."""
        def t(I, lg):
            return disj([conj([iff_all(fm, files), iff_all(dm, dirs)]) for fm, dm, late in lg.args.get(db, [])])
        return t

    def dirs_of(I):
        w = W[0]
        isd = lambda p: disj([conj([w.ls.has(p), w.ls.dir(p)]), conj([w.rs.has(p), w.rs.dir(p)])])
        isf = lambda p: disj([conj([w.ls.has(p), neg(w.ls.dir(p))]), conj([w.rs.has(p), neg(w.rs.dir(p))])])
        return isd, isf

    def new_recorded(I, lg, a):
        isd, isf = dirs_of(I)
        files, dirs = lambda p: conj([allnew(p), neg(isd(p))]), lambda p: conj([allnew(p), neg(isf(p))])
        for db in ("remote.add_paths", "profile.add_paths"):
            I.oblige("all new paths are recorded first (%s)" % db, recorded(db, files, dirs)(I, lg))
        infl = Const("cfg_inflate_priority", B)
        lf, ld_ = lambda p: conj([S("new_local")(p), neg(isd(p))]), lambda p: conj([S("new_local")(p), neg(isf(p))])
        I.oblige("new local files get an inflated priority if configured", imp(infl, recorded("profile.add_inflated", lf, ld_)(I, lg)))
        if "profile.add_inflated" in lg.done:
            I.oblige("the inflated priority comes first", BoolVal(lg.done.index("profile.add_inflated") < lg.done.index("profile.add_paths")) if "profile.add_paths" in lg.done else TT)
            I.oblige("no inflated priority unless configured", infl)

    def upd_recorded(I, lg, a):
        none = lambda p: FF
        for db in ("remote.add_paths", "profile.add_paths"):
            I.oblige("files renamed in conflicts are recorded first (%s)" % db, recorded(db, upd, none)(I, lg))

    def complete(I, lg, a):
        I.oblige("the trash was cleaned up if configured", disj([Const("cfg_no_cleanup", B), BoolVal("cleanup_trash" in lg.done)]))

    def cleaning(I, lg, a):
        I.oblige("cleans up the trash only if configured", neg(Const("cfg_no_cleanup", B)))

    def last_sync(I, a):
        if "value" not in a:
            return Sym(Const("cfg_last_sync", REAL))
        lg = log[0]
        lg.before("recording the time of the sync", "rm_excluded_files", "update_local")
        lg.done.append("last_sync")

    ALL = ("rm_local_files", "rm_remote_files", "trash_files", "handle_conflicts", "update_remote", "update_local", "rm_excluded_files")
    con = base_contracts()
    con["zielen.filelogic.FilesManager"] = lambda I, cls, a, k: ObjV(cls, {}, "fm")
    con[CB + "setup_profile"] = lambda I, a: c_setup_profile(log, lambda I: W[0])(I, a)
    con[RS + "add_exclude_file"] = step(log, "add_exclude_file", reach, raises=(OSError, None))
    con.update({
        FM + "compute_added": step(log, "compute_added", seq("compute_added"), tup("zielen.commands.sync.UpdatedPaths", LR, "new_local", "new_remote"), changes=False),
        FM + "compute_deleted": step(log, "compute_deleted", seq("compute_deleted"), tup("zielen.commands.sync.DeletedPaths", LR + ("trash",), "del_local", "del_remote", "del_trash"), changes=False),
        FM + "compute_modified": step(log, "compute_modified", seq("compute_modified"), tup("zielen.commands.sync.UpdatedPaths", LR, "mod_local", "mod_remote"), changes=False),
        FM + "rm_local_files": step(log, "rm_local_files", seq("rm_local_files", ("compute_added", "compute_deleted", "compute_modified"), [args("paths", S("del_local"), "deletes locally what was deleted remotely")])),
        FM + "rm_remote_files": step(log, "rm_remote_files", seq("rm_remote_files", ("compute_added", "compute_deleted", "compute_modified"), [args("paths", S("del_remote"), "deletes remotely what was deleted locally")])),
        FM + "trash_files": step(log, "trash_files", seq("trash_files", ("compute_added", "compute_deleted", "compute_modified"), [args("paths", S("del_trash"), "moves to the trash what was deleted locally")])),
        FM + "handle_conflicts": step(log, "handle_conflicts", seq("handle_conflicts", alldel, [
            args("local_paths", union(S("mod_local"), S("new_local")), "conflicts among the changed files"),
            args("remote_paths", union(S("mod_remote"), S("new_remote")), "conflicts among the changed files"), new_recorded]),
            tup("zielen.commands.sync.UpdatedPaths", LR, "updated_local", "updated_remote")),
        FM + "update_remote": step(log, "update_remote", seq("update_remote", ("handle_conflicts",), [args("update_paths", S("updated_local"), "copies the changed local files"), upd_recorded])),
        FM + "get_excluded_size": step(log, "get_excluded_size", result=lambda I, lg, a: Sym(exsize), changes=False),
        FM + "prioritize_dirs": step(log, "prioritize_dirs", seq("prioritize_dirs", ("update_remote",), [
            lambda I, lg, a: I.oblige("selects directories within the storage limit without the excluded files", conj([
                term(a["space_limit"], INT) == limit - exsize, imp(exsize >= 0, term(a["space_limit"], INT) <= limit)]))]),
            selection("selected_dirs", "space_after_dirs"), changes=False),
        FM + "prioritize_files": step(log, "prioritize_files", seq("prioritize_files", ("prioritize_dirs",), [
            lambda I, lg, a: I.oblige("selects files within the space left by the directories", term(a["space_limit"], INT) == Const("space_after_dirs", INT)),
            args("exclude", S("selected_dirs"), "does not select files of selected directories again")]),
            selection("selected_files", "space_after_files"), changes=False),
        FM + "update_local": step(log, "update_local", seq("update_local", ("update_remote", "prioritize_dirs", "prioritize_files"), [
            args("update_paths", chosen, "keeps exactly the selected files and the excluded files that are still in the remote directory")])),
        FM + "rm_excluded_files": step(log, "rm_excluded_files", seq("rm_excluded_files", ("update_local",), [
            args("excluded_paths", excl, "removes only the excluded files that were kept locally")])),
        FM + "cleanup_trash": step(log, "cleanup_trash", seq("cleanup_trash", ALL[:3], [cleaning])),
        RS + "write": step(log, "remote.write", seq("remote.write", ALL, [complete])),
        PR + "write": step(log, "profile.write", seq("profile.write", ALL + ("remote.write", "last_sync"))),
        PR + "last_sync": last_sync,
        PD + "add_paths": adding("profile.add_paths"), RD + "add_paths": adding("remote.add_paths"), PD + "add_inflated": adding("profile.add_inflated"),
    })
    for k in ("rm_paths", "update_paths"):
        for db in (PD, RD):
            con[db + k] = step(log, "database change", lambda I, lg, a: I.oblige("no other database change", FF))

    def body(I, f):
        w = W[0] = world(I)
        no_special_files(I, w.ls)
        no_special_files(I, w.rs)
        log[0] = lg = Log(I)
        lock_model(I, lg)
        only(I)
        RE = I.loader.func("zielen.exceptions.RemoteError")
        cmd = ObjV(I.loader.func("zielen.commands.sync.SyncCommand"), {"profile": w.profile, "local_dir": None, "remote_dir": None, "lock_socket": None})
        kind, v = outcome(I, f, [cmd])
        released(I, lg, kind, None)
        if kind == "return":
            for n in ALL + ("remote.write", "profile.write", "last_sync"):
                I.oblige("a completed sync includes %s" % n, BoolVal(lg.count(n) == 1))
        return kind
    # the remote check fails with an anticipated error
    ae = con[RS + "add_exclude_file"]

    def add_exclude(I, a):
        con2 = step(log, "add_exclude_file", reach, raises=(I.loader.func("zielen.exceptions.RemoteError"), OSError))
        return con2(I, a)
    con[RS + "add_exclude_file"] = add_exclude
    return body, con


def units():
    b, c = sync_main()
    return [Unit("sync", "zielen.commands.sync.SyncCommand.main", b, c)]
