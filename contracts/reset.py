"""The reset and empty-trash commands (C06, C17, C18)."""
from .commands import *
from .update import c_transfer_tree, c_number
from pyvc.lib import dir_entry, normpath, dirname, readlink


def reset_main():
    log, W = [None], [None]
    usage, space = Const("remote_usage", INT), Const("local_space", INT)
    keep, noret = Const("keep_remote", B), Const("no_retrieve", B)
    p = const("p", P)

    def transfer(I, a):
        lg, w = log[0], W[0]
        I.oblige("transfers only while holding the lock", BoolVal("lock" in lg.done and "unlock" not in lg.done))
        lg.before("the transfer", "setup_profile")
        lg.never("the transfer", "removing the exclude file", "transfer")
        I.oblige("transfers nothing if asked not to retrieve", neg(noret))
        I.oblige("transfers only if the files fit locally", usage <= space)
        I.oblige("retrieves from the remote to the local directory", conj([term(a["source"], P) == R, term(a["dest"], P) == L]))
        fm, xm = arg_mem(a.get("files")), arg_mem(a.get("exclude"))
        q = const("q", P)
        I.oblige("retrieves every recorded path with its contents", FF if fm is None else forall([p], imp(w.rknown(p), exists([q], conj([fm(q), under(q, p)])))))
        I.oblige("retrieves nothing but what is recorded", FF if fm is None else imp_all(fm, w.rknown))
        I.oblige("leaves out nothing", TT if xm is None else forall([p], neg(xm(p))))
        rm = I.truth(a.get("rm_source"))
        I.oblige("removes the sources only if the remote is not kept", imp(rm if not isinstance(rm, bool) else BoolVal(rm), neg(keep)))
        I.maybe_raise("transfer", FileNotFoundError, OSError, KeyboardInterrupt)
        lg.done.append("transfer")

    def rescan(I, kind, a):
        lg = log[0]
        lg.rescan = scan_of(W[0].remote, "remote", R) if "transfer" in lg.done else None

    def deletion(I, kind, a):
        lg, w = log[0], W[0]
        t = term(a["path"], P)
        q = const("q", P)
        held = BoolVal("lock" in lg.done and "unlock" not in lg.done)
        s = getattr(lg, "rescan", None)
        remote = conj([exists([q], conj([dir_entry(R, q), t == q])), neg(keep), neg(noret), BoolVal("transfer" in lg.done),
                       FF if s is None else forall([q], imp(s.has(q), s.dir(q)))])
        full = join(L, q)
        local = FF
        if kind == "try_remove":
            local = exists([q], conj([w.ls.has(q), islink(full), t == full, under(R, normpath(join(dirname(full), readlink(full))))]))
            local = conj([local, disj([noret, BoolVal("transfer" in lg.done)])])
        prof = conj([t == term(w.profile.attrs["path"], P), BoolVal("removing the exclude file" in lg.done), disj([noret, BoolVal("transfer" in lg.done)])])
        I.oblige("deletes only while holding the lock", held)
        I.oblige("deletes only retrieved remote contents, links into the remote directory, and the profile in the end",
                 disj([remote, local, prof]), "frame")

    def last(I, kind, a):
        lg, w = log[0], W[0]
        if I.branch(term(a["path"], P) == term(w.profile.attrs["path"], P)):
            lg.done.append("profile deleted")

    con = base_contracts()
    con[CB + "setup_profile"] = c_setup_profile(log, lambda I: W[0])
    con["zielen.fstools.transfer_tree"] = transfer
    con["zielen.userdata.SyncDir.disk_usage"] = c_number("usage")
    con["zielen.userdata.SyncDir.space_avail"] = c_number("space")
    con[RS + "rm_exclude_file"] = step(log, "removing the exclude file", lambda I, lg, a: lg.before("removing the exclude file", "setup_profile"), raises=(OSError, KeyboardInterrupt))
    con[RS + "close"] = step(log, "closing", changes=False)

    def local_scan(I, a):
        lg = log[0]
        I.oblige("looks for links only after the transfer", disj([noret, BoolVal("transfer" in lg.done)]))
        return scan_contract("local")(I, a)
    con["zielen.userdata.SyncDir.scan_paths"] = local_scan

    def body(I, f):
        w = W[0] = world(I)
        no_special_files(I, w.ls)
        log[0] = lg = Log(I)
        lock_model(I, lg)
        only(I, "remove", "rmtree")
        I.hooks["try_remove"] = I.hooks["try_rmtree"] = deletion
        I.hooks["remote.rescan"] = rescan
        I.assume(neg(under(R, term(w.profile.attrs["path"], P))))
        cmd = ObjV(I.loader.func("zielen.commands.reset.ResetCommand"), {
            "profile": w.profile, "local_dir": None, "remote_dir": None, "lock_socket": None, "keep_remote": Sym(keep), "no_retrieve": Sym(noret)})
        track(I, "rmtree")
        kind, v = outcome(I, f, [cmd])
        released(I, lg, kind, None)
        if kind == "return":
            I.oblige("retrieves unless asked not to", disj([noret, BoolVal("transfer" in lg.done)]))
            I.oblige("deletes the profile", happened(I, "rmtree", term(w.profile.attrs["path"], P)))
        else:
            I.oblige("a failed reset keeps the profile", neg(happened(I, "rmtree", term(w.profile.attrs["path"], P))))
        return kind
    return body, con


def empty_trash_main():
    log, W = [None], [None]
    con = base_contracts()
    con[CB + "setup_profile"] = c_setup_profile(log, lambda I: W[0])

    def deletion(I, kind, a):
        lg = log[0]
        t, q = term(a["path"], P), const("q", P)
        I.oblige("deletes only while holding the lock", BoolVal("lock" in lg.done and "unlock" not in lg.done))
        I.oblige("deletes only entries of the trash directory", exists([q], conj([dir_entry(join(join(R, lit(".zielen")), lit("Trash")), q), t == q])), "frame")

    def body(I, f):
        w = W[0] = world(I)
        log[0] = lg = Log(I)
        lock_model(I, lg)
        only(I, "remove", "rmtree")
        I.hooks["try_remove"] = I.hooks["try_rmtree"] = deletion
        cmd = ObjV(I.loader.func("zielen.commands.emptytrash.EmptyTrashCommand"), {"profile": w.profile, "local_dir": None, "remote_dir": None, "lock_socket": None})
        track(I, "remove", "rmtree", "remove!FileNotFoundError")
        kind, v = outcome(I, f, [cmd])
        released(I, lg, kind, None)
        T = join(join(R, lit(".zielen")), lit("Trash"))
        if kind == "return":
            I.oblige("every entry of the trash is deleted or was missing", imp_all(lambda p: dir_entry(T, p), lambda p: disj([
                happened(I, k, p) for k in ("remove", "rmtree", "remove!FileNotFoundError")])))
        return kind
    return body, con


def disk_usage(I, f):
    w = world(I)
    s, t = w.ls, Const("total", INT)
    forbid(I, *FS)
    kind, v = outcome(I, f, [w.local])
    p = const("p", P)
    if kind == "return":
        want = I.sum_term([p], s.has(p), STATF["st_blocks"](s.stat(p)) * 512)
        I.oblige("the usage is the sum over everything in the directory", term(v, INT) == want)
    return kind


def excluded_size(I, f):
    w = world(I)
    s = w.ls
    forbid(I, *FS)
    kind, v = outcome(I, f, [w.fm])
    p = const("p", P)
    if kind == "return":
        want = I.sum_term([p], allmatch(L, p), STATF["st_blocks"](lstat(join(L, p))) * 512)
        I.oblige("the size is the sum over all excluded files", term(v, INT) == want)
        I.oblige("the size is not negative", term(v, INT) >= 0)
    return kind


def units():
    b, c = reset_main()
    be, ce = empty_trash_main()
    return [Unit("reset", "zielen.commands.reset.ResetCommand.main", b, c),
            Unit("empty_trash", "zielen.commands.emptytrash.EmptyTrashCommand.main", be, ce),
            Unit("disk_usage", "zielen.userdata.SyncDir.disk_usage", disk_usage, base_contracts()),
            Unit("get_excluded_size", "zielen.filelogic.FilesManager.get_excluded_size", excluded_size, base_contracts())]
