"""Selecting, locking and initializing profiles (C18, C19, C20, C22)."""
from .commands import *
from pyvc.lib import fexists, isdir, isfile, abspath, samefile, commonpath, dir_entry
from pyvc.interp import PyRaise
from pyvc import strings

STR = z3.StringSort()
IC = "zielen.commands.init.InitCommand."
ERR = "zielen.exceptions."
VALID_NAME = z3.Plus(strings.char_set([c for c in strings.CHARS if c.isalnum() or c in "_-"]))


def consts_of(e, out=None):
    out = {} if out is None else out
    todo, seen = [e], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
        elif z3.is_app(t):
            if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[t.decl().name()] = t
            todo.extend(t.children())
    return out


# --- lock and unlock ------------------------------------------------------------------

def lock_unit(I, f):
    I.strsort = STR
    only(I)
    uid_, name = Const("uid", INT), Const("name", STR)
    I.assume(uid_ >= 0)
    made, st = [], {"bind": 0}
    I.hooks["socket"] = lambda I, o, a: made.append((o, a))

    def bind(I, o, a):
        st["bind"] += 1
        A = term(a[0], STR)
        I.oblige("the address depends on nothing but the user and the profile", BoolVal(set(consts_of(A)) <= {"uid", "name"}))
        I.oblige("the lock ends with the process", z3.PrefixOf(term("\0", STR), A))
        u2, n2 = Const("other_uid", INT), Const("other_name", STR)
        B2 = z3.substitute(A, (uid_, u2), (name, n2))
        I.oblige("different users and profiles have different addresses", imp(conj([u2 >= 0, A == B2]), conj([u2 == uid_, n2 == name])))
    I.hooks["socket_bind"] = bind
    prof = ObjV(None, {"name": Sym(name)}, "profile")
    cmd = ObjV(I.loader.func("zielen.commands.sync.SyncCommand"), {"profile": prof, "lock_socket": None, "local_dir": None, "remote_dir": None})
    kind, v = outcome(I, f, [cmd])
    if kind == "return":
        o = cmd.attrs["lock_socket"]
        I.oblige("the socket is bound, open and kept", BoolVal(isinstance(o, ObjV) and o.tag == "socket" and bool(o.attrs["%bound"]) and not o.attrs["%closed"]))
        I.oblige("the socket is a unix domain socket", BoolVal(len(made) == 1 and made[0][1][:1] == [1]))
    elif made:
        I.oblige("failing to lock is reported as an error of the program", BoolVal(v.cls is I.loader.func(ERR + "StatusError")))
    return kind


def unlock_unit(I, f):
    """The decorated method, whatever it does to the lock."""
    only(I)
    closed = []
    I.hooks["socket_close"] = lambda I, o, a: closed.append(o)
    sock = ObjV(None, {"%bound": True, "%closed": False}, "socket")
    cmd = ObjV(None, {"lock_socket": None}, "command")
    args = []

    def method(I, a, k):
        args.append((list(a), dict(k)))
        if I.choose("locks"):
            cmd.attrs["lock_socket"] = sock
        I.maybe_raise("method", I.loader.func(ERR + "StatusError"), OSError, KeyboardInterrupt, SystemExit)
        return Sym(Const("result", INT))
    w = I.call(f, [Native("method", method)])
    x = Sym(Const("arg", INT))
    try:
        v = I.call(w, [cmd, x])
        kind = "return"
        I.oblige("the result is passed on", eqv(v, Sym(Const("result", INT))))
    except PyRaise as e:
        kind = "raise"
        I.oblige("errors are passed on", BoolVal(e.exc.cls in (OSError, KeyboardInterrupt, SystemExit, I.loader.func(ERR + "StatusError"))))
    I.oblige("runs the method once with its arguments", BoolVal(len(args) == 1 and args[0][0][0] is cmd and len(args[0][0]) == 2))
    locked = cmd.attrs["lock_socket"] is sock
    I.oblige("the lock is released exactly if it was taken", BoolVal(closed == ([sock] if locked else [])))
    return kind


# --- setup_profile ----------------------------------------------------------------------

def setup_profile():
    log = [None]
    con = base_contracts()
    con[CB + "lock"] = c_lock(log)

    def reading(I, lg, a):
        lg.before("reading the profile", "lock")
    con[PR + "read"] = step(log, "profile.read", reading, raises=(FileNotFoundError, OSError))

    def opened(which):
        def h(I, cls, args, kwargs):
            lg = log[0]
            lg.before("opening the %s directory" % which, "lock", "profile.read")
            I.oblige("opens no directory of a partial profile", neg(Const("cfg_status", P) == lit("partial")))
            I.maybe_raise("open_" + which, OSError)
            lg.done.append("open_" + which)
            return ObjV(cls, {"path": args[0], "%which": which}, "dir")
        return h

    def status(I, a):
        log[0].before("looking at the status", "lock", "profile.read")
        return Sym(Const("cfg_status", P))
    con[PR + "status"] = status

    def body(I, f):
        for k in ("Local", "Remote"):
            I.contracts.pop("zielen.userdata.%sSyncDir" % k, None)
        w = world(I)
        I.contracts["zielen.userdata.LocalSyncDir"], I.contracts["zielen.userdata.RemoteSyncDir"] = opened("local"), opened("remote")
        log[0] = lg = Log(I)
        only(I)
        cmd = ObjV(I.loader.func("zielen.commands.sync.SyncCommand"), {"profile": w.profile, "local_dir": None, "remote_dir": None, "lock_socket": None})
        kind, v = outcome(I, f, [cmd])
        l, r = cmd.attrs["local_dir"], cmd.attrs["remote_dir"]
        if kind == "return":
            I.oblige("a set up profile is locked, read and not partial", conj([BoolVal("lock" in lg.done and "profile.read" in lg.done), neg(Const("cfg_status", P) == lit("partial"))]))
            ok = isinstance(l, ObjV) and isinstance(r, ObjV) and l.attrs.get("%which") == "local" and r.attrs.get("%which") == "remote"
            I.oblige("both directories of the profile are opened", conj([term(l.attrs["path"], P) == Const("cfg_local_path", P), term(r.attrs["path"], P) == Const("cfg_remote_path", P)]) if ok else FF)
        return kind
    return body, con


def c_lock(log):
    def h(I, a):
        o = ObjV(None, {"%held": False}, "socket")
        a["self"].attrs["lock_socket"] = o
        I.maybe_raise("lock", I.loader.func(ERR + "StatusError"))
        o.attrs["%held"] = True
        log[0].done.append("lock")
    return h


# --- profiles -----------------------------------------------------------------------------

known, bad = Function("profile_exists", P, B), Function("unreadable", P, B)
lpath, cfgp, cfgexists = Function("profile_local_path", P, P), Function("profile_cfg_path", P, P), None


def profiles(I):
    PC = I.loader.func("zielen.profile.Profile")
    I.assume(neg(known(NONE)))
    q = const("q", P)
    I.assume(ForAll([q], lpath(q) != NONE))
    return MapV(P, lambda c: known(*c), lambda c: ObjV(PC, {"name": Sym(c[0]), "cfg_path": Sym(cfgp(c[0]))}, "abstract"), None, P)


def profile_contracts(classes):
    def read(I, a):
        n = term(a["self"].attrs["name"], P)
        if I.branch(bad(n)):
            I.maybe_raise("read", *classes(I)[:-1])
            I.raise_(classes(I)[-1])
    return {PR + "read": read, PR + "local_path": lambda I, a: Sym(lpath(term(a["self"].attrs["name"], P)))}


def select_profile():
    con = base_contracts()
    con.update(profile_contracts(lambda I: [FileNotFoundError, OSError, I.loader.func(ERR + "FileParseError")]))

    def body(I, f):
        only(I)
        I.raises["samefile"] = (FileNotFoundError, NotADirectoryError, PermissionError)
        inp = Const("input", P)
        I.assume(inp != NONE)
        cmd = ObjV(I.loader.func("zielen.commands.sync.SyncCommand"), {"profiles": profiles(I), "profile": None})
        kind, v = outcome(I, f, [cmd, Sym(inp)])
        ap, n = abspath(inp), const("n", P)
        match = lambda n: conj([known(n), neg(bad(n)), fexists(lpath(n)), samefile(ap, lpath(n))])
        if kind == "return":
            ok = isinstance(v, ObjV) and "name" in v.attrs
            got = term(v.attrs["name"], P) if ok else None
            I.oblige("selects a profile", BoolVal(ok))
            if ok:
                I.oblige("an exact name comes first", imp(known(inp), got == inp))
                I.oblige("otherwise the local directory is the given existing path", imp(neg(known(inp)), conj([fexists(ap), match(got)])))
        else:
            I.oblige("fails with an input error", BoolVal(v.cls is I.loader.func(ERR + "InputError")))
            I.oblige("fails only if there is no such profile", conj([neg(known(inp)), neg(conj([fexists(ap), exists([n], match(n))]))]))
        return kind
    return body, con


def overlaps(a, b):
    return disj([under(a, b), under(b, a)])


def verify_local_dir():
    con = base_contracts()
    con.update(profile_contracts(lambda I: [FileNotFoundError]))
    prog = Const("program_dir", P)
    con["zielen.paths.get_program_dir"] = lambda I, a: Sym(prog)

    def body(I, f):
        only(I)
        own, d = Const("own_name", P), Const("dir_path", P)
        cmd = ObjV(I.loader.func("zielen.commands.init.InitCommand"), {"profiles": profiles(I), "profile": ObjV(None, {"name": Sym(own)}, "profile")})
        kind, v = outcome(I, f, [cmd, Sym(d)])
        n = const("n", P)
        clash = lambda n: conj([known(n), neg(n == own), isfile(cfgp(n)), neg(bad(n)), overlaps(lpath(n), d)])
        wrong = disj([overlaps(prog, d), exists([n], clash(n))])
        I.oblige("the check itself does not fail", BoolVal(kind == "return"))
        if kind == "return":
            I.oblige("a directory is valid exactly if it overlaps neither another profile's nor the program's", (neg(wrong) if v is None else wrong) if not isinstance(v, OptV)
                     else v.none == neg(wrong))
        return kind
    return body, con


def check_dir(I, f):
    d, empty = Const("path", P), Const("expect_empty", B)
    access = Function("access", P, INT, B)
    only(I, "makedirs")
    I.raises.update(makedirs=(PermissionError, FileExistsError, OSError), scandir=())
    made = track(I, "makedirs")
    kind, v = outcome(I, f, [Sym(d), Sym(empty)])
    q = const("q", P)
    ok = lambda: disj([conj([fexists(d), isdir(d), access(d, IntVal(2)), imp(empty, neg(exists([q], dir_entry(d, q))))]),
                       conj([neg(fexists(d)), empty, happened(I, "makedirs", d)])])
    p = const("p", P)
    I.oblige("creates nothing but the directory", imp_all(lambda p: happened(I, "makedirs", p), lambda p: conj([p == d, neg(fexists(d)), empty])))
    if kind == "return":
        if v is None:
            I.oblige("a valid directory exists, is writable and is empty if it has to be", ok())
        else:
            I.oblige("a message is given only for an invalid directory", neg(ok()))
            I.oblige("the message is not empty", conj([term(v, P) != EMPTY, term(v, P) != NONE]))
    return kind


# --- stored state ------------------------------------------------------------------------------

def profile_write():
    con = base_contracts()
    con[PD + "commit"] = lambda I, a: (I.maybe_raise("commit", OSError), I.effect("commit"))
    con["zielen.containerbase.SyncDBFile.commit"] = con[PD + "commit"]
    con["zielen.profile.ProfileInfoFile.write"] = lambda I, a: I.effect("info")
    con["zielen.containerbase.JSONFile.write"] = lambda I, a: (I.effect("info"), I.maybe_raise("info", OSError))

    def body(I, f):
        w = world(I)
        only(I)
        done = []
        I.hooks["commit"] = lambda I, k, a: done.append(k)
        I.hooks["info"] = lambda I, k, a: (I.oblige("the database is committed before the profile's state is written", BoolVal(done == ["commit"])), done.append(k))
        kind, v = outcome(I, f, [w.profile])
        if kind == "return":
            I.oblige("both are written", BoolVal(done == ["commit", "info"]))
        return kind
    return body, con


def remote_write():
    con = base_contracts()
    con["zielen.containerbase.SyncDBFile.commit"] = lambda I, a: (I.maybe_raise("commit", OSError), I.effect("commit"))

    def body(I, f):
        w = world(I)
        only(I)
        done = []
        I.hooks["commit"] = lambda I, k, a: done.append(k)
        kind, v = outcome(I, f, [w.remote])
        if kind == "return":
            I.oblige("the database is committed", BoolVal(done == ["commit"]))
        return kind
    return body, con


def add_exclude_file(I, f):
    w = world(I)
    only(I, "copy")
    u = join(R, lit(".zielen"))
    src, pid = Const("filepath", P), Const("profile_id", P)

    def copying(I, k, a):
        vals = list(a.values())
        I.oblige("copies the exclude file under the profile's ID", conj([term(vals[0], P) == src, term(vals[1], P) == join(join(u, lit("exclude")), pid)]))
    I.hooks["try_copy"] = copying
    track(I, "copy")
    kind, v = outcome(I, f, [w.remote, Sym(src), Sym(pid)])
    done = happened(I, "copy", join(join(u, lit("exclude")), pid), src)
    if kind == "return":
        I.oblige("the exclude file is copied", done)
    elif v.cls is not OSError:
        I.oblige("a missing remote directory is reported as such", imp(neg(isdir(u)), BoolVal(v.cls is I.loader.func(ERR + "RemoteError"))))
    return kind


# --- initialization ------------------------------------------------------------------------------

def generate_contracts(log):
    """Profile.generate: completely generated, or failed."""
    def h(I, a):
        lg = log[0]
        lg.before("generating the profile", "lock", "profile.read")
        I.oblige("generates no profile twice", BoolVal("generate" not in lg.done and "generating" not in lg.done))
        lg.args["generate"] = a
        lg.done.append("generating")
        I.maybe_raise("generate", OSError, KeyboardInterrupt, I.loader.func(ERR + "FileParseError"))
        lg.done.append("generate")
    return h


def init_main():
    log, W, ex = [None], [None], [None]
    inp = Const("input", STR)
    excl, tmpl = Const("exclude_option", P), Const("template_option", P)
    noex, notm = Const("no_exclude_option", B), Const("no_template_option", B)
    ar, orig = Const("add_remote_option", B), Const("cfg_add_remote", B)
    valid_dir, no_overlap = Function("valid_dir", P, B, B), Function("no_overlap", P, B)
    lp, rp = Const("cfg_local_path", P), Const("cfg_remote_path", P)
    stored, partial, initialized = Const("stored_status", P), lit("partial"), lit("initialized")
    con = base_contracts()
    con[CB + "lock"] = c_lock(log)

    def the_profile(I, cls, a, k):
        lg = log[0]
        v = a[0] if a else k["name"]
        I.oblige("the profile has the given name", term(v, STR) == inp if isinstance(v, Sym) and v.sort == STR else FF)
        o = ObjV(cls, {"name": v, "path": Sym(Const("profile_path", P)), "exclude_path": Sym(Const("exclude_path", P)), "cfg_path": Sym(Const("cfg_path", P))}, "abstract")
        lg.args["profile"] = o
        return o

    def reading(I, a):
        lg = log[0]
        lg.before("reading the profile", "lock")
        lg.done.append("profile.read")
        lg.args["status"] = lg.args["read"] = None
        I.maybe_raise("read", PermissionError)
        if I.choose("no info"):
            lg.args["status"] = None
            I.raise_(FileNotFoundError)
        I.assume(disj([stored == partial, stored == initialized]))
        lg.args["status"] = lg.args["read"] = Sym(stored)
        if I.choose("no config"):
            I.raise_(FileNotFoundError)

    def status(I, a):
        lg = log[0]
        if "value" in a:
            lg.args["status"] = a["value"]
            return None
        lg.before("looking at the status", "lock", "profile.read")
        return lg.args["status"]

    def opened(which):
        def h(I, cls, args, kwargs):
            I.maybe_raise("open_" + which, OSError)
            return ObjV(cls, {"path": args[0] if args else kwargs["path"], "%which": which}, "dir")
        return h

    def manager(I, cls, args, kwargs):
        l, r = args[0], args[1]
        ok = l.attrs.get("%which") == "local" and r.attrs.get("%which") == "remote"
        I.oblige("works on the profile's directories", conj([term(l.attrs["path"], P) == lp, term(r.attrs["path"], P) == rp]) if ok else FF)
        return ObjV(cls, {}, "fm")

    def resumed(lg):
        return "generate" not in lg.done

    def ready(I, lg, what):
        """Everything is valid, the profile is locked, and it is neither initialized nor left without its files."""
        I.oblige("%s only with a valid name" % what, z3.InRe(inp, VALID_NAME))
        for no, o in ((noex, excl), (notm, tmpl)):
            I.oblige("%s only with valid options" % what, disj([no, o == EMPTY, isfile(o)]))
        lg.before(what, "lock", "profile.read")
        lg.never(what, "unlock")
        if resumed(lg):
            I.oblige("%s only for a new profile or one that is resumed" % what, stored == partial if lg.args["read"] is not None else FF)
            return orig
        I.oblige("%s never for an initialized profile" % what, BoolVal(lg.args["read"] is None))
        I.oblige("%s only with valid directories" % what, conj([
            *lg.args.get("checked", []), BoolVal(lg.args.get("kinds") == {"local", "overlap", "remote"})]))
        return ar

    def c_check(I, a):
        lg = log[0]
        d, e = term(a["path"], P), term(a["expect_empty"], B)
        I.maybe_raise("check_dir", OSError)
        v = valid_dir(d, e)
        for k, p, w in (("local", lp, ar), ("remote", rp, neg(ar))):
            if z3.eq(d, p):
                lg.args.setdefault("checked", []).append(conj([v, e == w]))
                lg.args.setdefault("kinds", set()).add(k)
        return OptV(v, message(I))

    def c_verify(I, a):
        lg = log[0]
        v = no_overlap(term(a["dir_path"], P))
        if z3.eq(term(a["dir_path"], P), lp):
            lg.args.setdefault("checked", []).append(v)
            lg.args.setdefault("kinds", set()).add("overlap")
        I.maybe_raise("verify", I.loader.func(ERR + "FileParseError"))
        return OptV(v, message(I))

    def settingup(which):
        def h(I, a):
            lg = log[0]
            add = ready(I, lg, "setting up files")
            lg.before("setting up files", "remote.generate")
            I.oblige("sets up files according to the original options", add if which == "remote" else neg(add))
            lg.done.append("begun")
            I.maybe_raise("setup", KeyboardInterrupt)
            lg.done.append("setup")
        return h

    def remote_step(name, checks=None):
        def h(I, a):
            lg = log[0]
            ready(I, lg, "changing the remote directory")
            if checks:
                checks(I, lg, a)
            lg.done.append("begun")
            I.maybe_raise(name, PermissionError)
            lg.done.append(name)
        return h

    def writing(I, a):
        lg = log[0]
        st = lg.args.get("status")
        ready(I, lg, "storing the profile")
        done = BoolVal(all(x in lg.done for x in ("setup", "add_exclude_file", "remote.write")))
        I.oblige("stored as initialized only after everything else", imp(term(st, P) == initialized if st is not None else FF, done))
        I.oblige("the remote's records are stored first", BoolVal("remote.write" in lg.done))
        I.maybe_raise("profile.write", PermissionError)
        lg.done.append("profile.write")

    def copied(I, lg, a):
        I.oblige("copies this profile's exclude file", conj([term(a["filepath"], P) == Const("exclude_path", P), term(a["profile_id"], P) == Const("cfg_id", P)]))
    def remote_written(I, lg, a):
        lg.before("storing the remote's records", "setup")
    con.update({
        "zielen.profile.Profile": the_profile, PR + "read": reading, PR + "status": status, PR + "generate": generate_contracts(log),
        PR + "add_remote": lambda I, a: Sym(orig), PR + "write": writing,
        PR + "last_sync": lambda I, a: None, PR + "last_adjust": lambda I, a: None,
        "zielen.fstools.check_dir": c_check, IC + "_verify_local_dir": c_verify,
        "zielen.userdata.LocalSyncDir": opened("local"), "zielen.userdata.RemoteSyncDir": opened("remote"),
        "zielen.filelogic.FilesManager": manager,
        RS + "generate": remote_step("remote.generate"), RS + "write": remote_step("remote.write", remote_written),
        RS + "add_exclude_file": remote_step("add_exclude_file", copied),
        FM + "setup_from_remote": settingup("remote"), FM + "setup_from_local": settingup("local"),
    })
    gen = con[PR + "generate"]

    def generating(I, a):
        lg = log[0]
        I.oblige("generates a profile only with a valid name", z3.InRe(inp, VALID_NAME))
        I.oblige("never generates an existing profile again", BoolVal(lg.args["read"] is None))
        opt = a["init_options"]
        I.oblige("the options are stored with the profile", conj([
            eqv(I.getitem(opt, "add_remote"), Sym(ar)),
            same_option(a.get("exclude_path"), noex, excl), same_option(a.get("template_path"), notm, tmpl)]))
        gen(I, a)
        lg.args["status"] = Sym(partial)
    con[PR + "generate"] = generating

    def body(I, f):
        log[0] = lg = Log(I)
        lock_model(I, lg)
        only(I, "rmtree", "rmdir")
        I.assume(strings.latin(inp))
        I.assume(conj([excl != NONE, tmpl != NONE]))
        hooks = []

        def exits(I, what, a):
            if what == "register":
                hooks.append(a)
            else:
                hooks[:] = [h for h in hooks if not same_fn(h[0], a[0])]
        I.hooks["atexit"] = exits

        def deletion(I, k, a):
            path = Const("profile_path", P)
            I.oblige("deletes nothing but the profile", term(a["path"], P) == path, "frame")
            I.oblige("deletes only while holding the lock", BoolVal("lock" in lg.done and "unlock" not in lg.done))
            I.oblige("never deletes a profile that can be used or resumed", BoolVal("begun" not in lg.done and "generating" in lg.done))
            lg.done.append("deleted")
        I.hooks["try_rmtree"] = I.hooks["try_rmdir"] = deletion
        I.raises["rmtree"] = (FileNotFoundError,)
        there = Const("profile_left", B)

        def asked(I, name, v):
            """Whether there is a profile directory changes when it is generated and deleted."""
            if name not in ("exists", "lexists", "isdir") or term(v, P).get_id() != Const("profile_path", P).get_id():
                return None
            if "deleted" in lg.done:
                return False
            if "generate" in lg.done:
                return True
            return Sym(there) if "generating" in lg.done else Sym(Const("profile_there", B))
        I.hooks["query"] = asked
        cmd = ObjV(I.loader.func("zielen.commands.init.InitCommand"), {
            "profile": None, "local_dir": None, "remote_dir": None, "lock_socket": None, "profiles": Opaque("profiles"), "profile_input": Sym(inp),
            "exclude": option(I, noex, excl), "template": option(I, notm, tmpl), "add_remote": Sym(ar)})
        kind, v = outcome(I, f, [cmd])
        released(I, lg, kind, None)
        # what is registered runs when the process ends
        if kind == "return":
            I.oblige("a completed initialization is stored", BoolVal("profile.write" in lg.done and "setup" in lg.done and "add_exclude_file" in lg.done))
            st = lg.args.get("status")
            I.oblige("a completed initialization is marked as such", term(st, P) == initialized if st is not None else FF)
        else:
            ok = BoolVal("generating" not in lg.done or "deleted" in lg.done or "generate" in lg.done and lg.args.get("kinds") == {"local", "overlap", "remote"})
            I.oblige("a failed attempt leaves no profile or one that can be completed", ok if "generate" in lg.done else disj([ok, neg(there)]))
        for h in reversed(hooks):
            I.call(h[0], list(h[1:]))
        return kind
    return body, con


def message(I):
    m = I.fresh("message", P)
    I.assume(conj([m != NONE, m != EMPTY]))
    return Sym(m)


def option(I, none, value):
    """An option that may not be given."""
    if I.choose("no option"):
        I.assume(none)
        return None
    I.assume(neg(none))
    return Sym(value)


def same_option(v, none, value):
    return none if v is None else conj([neg(none), term(v, P) == value])


def same_fn(a, b):
    if a is b:
        return True
    if isinstance(a, BoundV) and isinstance(b, BoundV):
        return a.f is b.f and a.self_ is b.self_
    return False


def profile_generate():
    """The info file, which makes the profile resumable, comes last."""
    con = base_contracts()
    log = []

    def st(name, *raises):
        def h(I, a):
            if FileExistsError in raises:
                if I.choose("exists"):
                    log.append(name)
                    I.raise_(FileExistsError)
            I.maybe_raise(name, *[r for r in raises if r is not FileExistsError])
            log.append(name)
        return h
    PF = "zielen.profile."
    con.update({
        PF + "ProfileConfigFile": lambda I, cls, a, k: ObjV(cls, {"path": a[0], "raw_vals": Opaque("values")}, "config"),
        PF + "ProfileExcludeFile.generate": st("exclude", OSError),
        PF + "ProfileDBFile.create": st("database", FileExistsError, PermissionError),
        PF + "ProfileConfigFile.prompt": st("prompt", KeyboardInterrupt),
        "zielen.containerbase.ConfigFile.read": st("read", OSError, ValueError),
        "zielen.containerbase.ConfigFile.write": st("config", OSError),
        "zielen.containerbase.ConfigFile.check_all": st("check", ),
        PF + "ProfileConfigFile.check_all": st("check", ),
    })

    def infos(I, a):
        I.oblige("the info file comes last", BoolVal(set(log) >= {"exclude", "database", "config"} and "info" not in log))
        I.maybe_raise("info", OSError)
        log.append("info")
    con[PF + "ProfileInfoFile.generate"] = infos

    def body(I, f):
        w = world(I)
        only(I, "makedirs")
        del log[:]
        opts = DictV()
        kind, v = outcome(I, f, [w.profile, opts, option(I, Const("no_exclude", B), Const("exclude", P)), option(I, Const("no_template", B), Const("template", P))])
        if kind == "return":
            I.oblige("everything is generated, the info file last", BoolVal(log[-1:] == ["info"] and {"exclude", "database", "config"} <= set(log)))
        else:
            I.oblige("no info file unless everything else is there", BoolVal("info" not in log))
        return kind
    return body, con


def units():
    sp, sc = setup_profile()
    se, sec = select_profile()
    ve, vec = verify_local_dir()
    pw, pwc = profile_write()
    rw, rwc = remote_write()
    im, imc = init_main()
    pg, pgc = profile_generate()
    return [Unit("init", IC + "main", im, imc), Unit("profile_generate", PR + "generate", pg, pgc), Unit("lock", CB + "lock", lock_unit, {}),
            Unit("unlock", "zielen.commandbase.unlock", unlock_unit, {}),
            Unit("setup_profile", CB + "setup_profile", sp, sc),
            Unit("select_profile", CB + "select_profile", se, sec),
            Unit("_verify_local_dir", IC + "_verify_local_dir", ve, vec),
            Unit("check_dir", "zielen.fstools.check_dir", check_dir, {}),
            Unit("profile_write", PR + "write", pw, pwc),
            Unit("remote_write", RS + "write", rw, rwc),
            Unit("add_exclude_file", RS + "add_exclude_file", add_exclude_file, base_contracts())]
