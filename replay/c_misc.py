"""Concrete checks of the commands, the daemon and stored metadata (C14, C17-C23)."""
from harness import *
import math
import socket


def errors():
    from zielen import exceptions
    return exceptions


@contextlib.contextmanager
def patched(*items):
    """patched((object, name, value), ...)"""
    saved = [(o, n, getattr(o, n)) for o, n, v in items]
    try:
        for o, n, v in items:
            setattr(o, n, v)
        yield
    finally:
        for o, n, v in saved:
            setattr(o, n, v)


def fake_profile(sc, name, config, info=None):
    d = sc.profiles + "/" + name
    os.makedirs(d, exist_ok=True)
    if config is not None:
        put(d + "/config", config)
    put(d + "/exclude", "")
    put(d + "/info.json", json.dumps({"Status": "initialized", "LastSync": None, "LastAdjust": None, "Version": "0", "ID": name,
                                     "InitOptions": {}} if info is None else info))
    return d


# --- C14 ----------------------------------------------------------------------------

def anycase(rng, s):
    return "".join(rng.choice([c.upper(), c.lower()]) for c in s)


GOOD, BAD, UNKNOWN = "good", "bad", "unspecified"


def gen_value(rng, key, sc):
    """(value, verdict, meaning)"""
    if key in ("LocalDir", "RemoteDir"):
        home = sc.d + "/home"
        v = rng.choice(["/", "/a", "/a/b", "/a//b", "/a/./b", "/a/../b", "/a/", "~/", "~/x", "~/x/y/", "~/../z", "~/.", "~//q", "/é/ü", "/a=b",
                        "/a#b", "/..", "~/a/../../b", "/~", "/a b", "a", "./a", "../a", "a/b", "a~/", "", "x:/y", " ", ".", "b/~/"])
        if v.strip().startswith(("/", "~/")):
            return v, GOOD, os.path.abspath(home + v[1:] if v.startswith("~") else v)
        return v, BAD, None
    if key == "StorageLimit":
        n = rng.choice([0, 1, 5, 10, 999, 1024, 12345678901234567890])
        if rng.random() < 0.65:
            p = rng.choice("KMG")
            u = rng.choice(["", "B", "iB"])
            e = {"K": 1, "M": 2, "G": 3}[p]
            return "%s%d%s%s%s" % (rng.choice(["", "0"]), n, rng.choice(["", " ", "  ", "\t"]), anycase(rng, p), anycase(rng, u)), GOOD, n * (1000 if u == "B" else 1024) ** e
        return rng.choice(["10", "10B", "10 TB", "-5 GB", "1.5GB", "GB", "10GBs", "10 G B", "x10GB", "ten GB", "", "10GiBB", "10KiK", "10iB", "10bKB",
                           "1 0GB", "0x10GB", "10GB 5", "10GB,", "5 5KiB", "+5KB", "10i", "1e3KB", "10KBiB", "10kib/s"]), BAD, None
    if key in ("SyncInterval", "PriorityHalfLife", "TrashCleanupPeriod"):
        mul = {"SyncInterval": 60, "PriorityHalfLife": 3600, "TrashCleanupPeriod": 86400}[key]
        k = rng.random()
        if k < 0.55:
            n = rng.choice([1, 2, 20, 30, 120, 999999, 10 ** 12])
            return rng.choice(["", "0", "00"]) + str(n), GOOD, n * mul
        if k < 0.65:
            return "0", (UNKNOWN if key == "PriorityHalfLife" else GOOD), 0
        if k < 0.75 and key == "TrashCleanupPeriod":
            return rng.choice(["-1", "-30", "-007"]), GOOD, None
        return rng.choice(["1.5", "abc", "1 0", "1h", "--1", "0x10", "1,000", "five", "1e3", "yes", "- 1", "1-"] +
                          (["-1", "-0"] if key != "TrashCleanupPeriod" else [])), BAD, None
    k = rng.random()
    if k < 0.4:
        return anycase(rng, rng.choice(["yes", "true"])), GOOD, True
    if k < 0.8:
        return anycase(rng, rng.choice(["no", "false"])), GOOD, False
    return rng.choice(["y", "n", "1", "0", "on", "off", "yess", "ye", "truefalse", "tr ue", "yes no", "none"]), BAD, None


DEFAULTS = {"SyncInterval": 20 * 60, "PriorityHalfLife": 120 * 3600, "UseTrash": True, "TrashCleanupPeriod": 30 * 86400,
            "InflatePriority": True, "AccountForSize": True}
REQUIRED = ["LocalDir", "RemoteDir", "StorageLimit"]
ATTRS = {"LocalDir": "local_path", "RemoteDir": "remote_path", "StorageLimit": "storage_limit", "SyncInterval": "sync_interval",
         "PriorityHalfLife": "priority_half_life", "UseTrash": "use_trash", "TrashCleanupPeriod": "cleanup_period",
         "InflatePriority": "inflate_priority", "AccountForSize": "account_for_size"}


def config_one(rng, sc, name):
    E = errors()
    from zielen.profile import Profile
    vals, want, verdict = {}, {}, GOOD
    # most files have at most one bad value, so that it is the reason for the rejection
    bad_key = rng.choice(list(ATTRS)) if rng.random() < 0.5 else None
    for key in ATTRS:
        for _ in range(200):
            v, ok, m = gen_value(rng, key, sc)
            if ok == GOOD or (key == bad_key and rng.random() < 0.7):
                break
        k = rng.random()
        if key not in REQUIRED and k < 0.25 and key != bad_key:
            want[key] = DEFAULTS[key]
            if k < 0.12:
                continue
            if key in ("UseTrash", "InflatePriority", "AccountForSize"):
                vals[key] = ""
                continue
            if k < 0.14:
                # a blank number may be rejected, but if it is accepted it means the default
                vals[key] = ""
                verdict = UNKNOWN if verdict == GOOD else verdict
                continue
            continue
        vals[key], want[key] = v, m
        if ok == BAD:
            verdict = BAD
        elif ok == UNKNOWN and verdict == GOOD:
            verdict = UNKNOWN
    kind = rng.random()
    if kind < 0.06:
        vals.pop(rng.choice(REQUIRED), None)
        verdict = BAD
    elif kind < 0.1:
        vals[rng.choice(REQUIRED)] = ""
        verdict = BAD
    elif kind < 0.18:
        vals[rng.choice(["Foo", "localdir", "LocalDirs", "Local Dir", "USETRASH", "", "StorageLimi", "x"])] = rng.choice(["1", "", "yes"])
        verdict = BAD
    lines = ["# a comment = with a separator\n", "   # LocalDir=/nowhere\n", "\n", "no separator here\n"]
    keys = list(vals)
    rng.shuffle(keys)
    for k in keys:
        lines.append("%s%s%s=%s%s%s\n" % (rng.choice(["", " "]), k, rng.choice(["", " "]), rng.choice(["", " ", "\t"]), vals[k], rng.choice(["", " "])))
        if rng.random() < 0.2:
            lines.append("#%s=comment\n" % k)
    fake_profile(sc, name, "".join(lines))
    p = Profile(name)
    try:
        p.read()
    except E.FileParseError:
        check(verdict != GOOD, "the config {!r} is rejected", vals)
        return
    check(verdict != BAD, "the config {!r} is accepted", vals)
    for key, attr in ATTRS.items():
        try:
            got = getattr(p, attr)
        except Exception as e:
            check(False, "the config {!r} is accepted but {} fails with {!r}", vals, attr, e)
        w = want.get(key)
        if key == "PriorityHalfLife" and vals.get(key) == "0":
            check(got != 0, "a half-life of zero is accepted")
            continue
        if isinstance(w, str) and w.startswith("//"):
            w = w[1:]
        if isinstance(got, str) and got.startswith("//"):
            got = got[1:]
        check(got == w and type(got) is type(w) or (isinstance(w, int) and not isinstance(w, bool) and not isinstance(got, bool) and got == w),
              "{} = {!r} with {} = {!r}; expected {!r}", attr, got, key, vals.get(key), w)


def config(rng, sc):
    for i in range(25):
        config_one(rng, sc, "p%d" % i)


def template(rng, sc):
    """A template may leave required values blank, but everything else in it is checked; the answers are checked too."""
    E = errors()
    from zielen.profile import ProfileConfigFile
    for i in range(10):
        key = rng.choice(list(ATTRS))
        v, ok, m = gen_value(rng, key, sc)
        f = sc.d + "/t"
        put(f, "".join("%s=%s\n" % (k, v if k == key else "") for k in REQUIRED + ([key] if key not in REQUIRED else [])))
        c = ProfileConfigFile(f)
        c.read()
        try:
            c.check_all(check_empty=False)
            acc = True
        except E.FileParseError:
            acc = False
        if v.strip() == "":
            check(acc, "a template with blank values is rejected")
        elif ok != UNKNOWN:
            check(acc == (ok == GOOD), "a template with {}={!r} is {}", key, v, "accepted" if acc else "rejected")
        if key in REQUIRED:
            msg = c.check_value(key, v.strip())
            check((msg is None) == (ok == GOOD), "check_value({!r}, {!r}) gives {!r}", key, v.strip(), msg)


# --- C17 ----------------------------------------------------------------------------

def block(n):
    return "x" * n


def reset_world(rng, sc, limit=None):
    """A synced profile, some of whose files are links, with the user's own links."""
    c = Client(sc, limit=limit or rng.choice(["0KiB", "9KiB", "30KiB", "1000000KiB"]), exclude=rng.choice([None, "excl*\n"]),
               extra="InflatePriority=no\n" if rng.random() < 0.5 else "")
    t = gen_tree(rng, rng.randint(1, 8))
    mk(c.L, t, {p: "data of " + p + block(rng.choice([0, 5000, 9000])) for p in t})
    if rng.random() < 0.4:
        put(c.L + "/excl.me", "excluded")
    if rng.random() < 0.3 and not os.path.lexists(c.L + "/safe-link"):
        os.symlink(sorted(t)[0], c.L + "/safe-link")
    c.sync()
    if rng.random() < 0.5:
        os.makedirs(sc.d + "/other", exist_ok=True)
        for i, tgt in enumerate(rng.sample(["/nowhere", "../other", sc.d + "/other", sc.d + "/remote-x/f", c.R + "/../other", c.R + "x", "a",
                                             "../" + os.path.basename(c.R) + "x"], 3)):
            os.symlink(tgt, c.L + "/mine%d" % i)
        if rng.random() < 0.3:
            os.symlink(c.R, c.L + "/mine-in")
    return c, t


def points_into(link, target, d):
    t = os.path.normpath(os.path.join(os.path.dirname(link), target))
    return t == d or t.startswith(d + "/")


def content(root, p):
    q = os.path.join(root, p)
    if os.path.islink(q):
        return ("link", os.readlink(q))
    if os.path.isdir(q):
        return ("dir", None)
    if os.path.isfile(q):
        return ("file", get(q))
    return None


def conserved(c, rem, what):
    """Every remote entry is still in the remote or in the local directory."""
    for p, v in rem.items():
        if p == ".zielen" or p.startswith(".zielen/"):
            continue
        here, there = content(c.L, p), content(c.R, p)
        check(here == v or there == v, "{}: {!r} is lost: it was {} but now is {} locally and {} remotely", what, p, str(v)[:80], str(here)[:80], str(there)[:80])


def reset(rng, sc):
    E = errors()
    c, t = reset_world(rng, sc)
    keep, nor = rng.random() < 0.3, rng.random() < 0.3
    extra = None
    if rng.random() < 0.45:
        extra = rng.choice(["unrecorded", sorted(p for p in t if t[p] == "dir")[0] + "/unrecorded" if "dir" in t.values() else "unrec", ".hidden"])
        if rng.random() < 0.4:
            os.symlink("/nowhere", c.R + "/" + extra)
        else:
            put(c.R + "/" + extra, "unrecorded data")
    loc, rem = snap(c.L), snap(c.R)
    trash = {p for p in rem if p.startswith(".zielen/Trash/")}
    rdb = set(c.rdb())
    pid = c.info()["ID"]
    deny = rng.random() < 0.15
    import zielen.userdata as U
    avail = None
    if rng.random() < 0.5:
        use = sum(os.lstat(c.R + "/" + p).st_blocks * 512 for p in rem if p != ".zielen" and not p.startswith(".zielen/"))
        avail = use - rng.choice([1, 512, 4096]) if deny else use + rng.choice([0, 1, 4096])
        if use == 0:
            deny = False
            avail = 0
    else:
        deny = False
    other = 10 ** 12 if deny else rng.choice([0, 10 ** 12])
    # the space where the remote directory is doesn't matter
    free = lambda p: other if under(c.R, os.path.abspath(str(p))) else avail
    fu = type("U", (), {"disk_usage": staticmethod(lambda p: type("D", (), {"free": free(p), "total": 10 ** 12, "used": 0})()),
                        "__getattr__": lambda s, n: getattr(shutil, n)})()
    err = None
    with patched((U, "shutil", fu)) if avail is not None else contextlib.nullcontext():
        try:
            c.reset(keep_remote=keep, no_retrieve=nor)
        except E.ProgramError as e:
            err = e
    loc2, rem2 = snap(c.L), snap(c.R)
    want = "reset(keep_remote=%s, no_retrieve=%s)" % (keep, nor)
    if deny and not nor:
        check(err is not None, "{} starts although the files don't fit", want)
        check(loc2 == loc and {p: v for p, v in rem2.items() if "db" not in p} == {p: v for p, v in rem.items() if "db" not in p} and os.path.isdir(c.dir),
              "{} changed something although the files don't fit", want)
        return
    if extra is not None and not nor and not keep:
        check(content(c.R, extra) == rem[extra] or content(c.L, extra) == rem[extra], "{} lost a remote file that it didn't retrieve: {!r}", want, extra)
        conserved(c, rem, want)
        # (what lies in a recorded directory is retrieved with it)
        check(content(c.L, extra) == rem[extra] or err is not None and os.path.isdir(c.dir), "{} succeeded although {!r} was not retrieved", want, extra)
        return
    check(err is None, "{} failed with {!r}", want, err)
    check(not os.path.lexists(c.dir), "{} left the profile", want)
    if keep or nor:
        drop = {".zielen/exclude/" + pid}
        for p in rem:
            if p in drop or p.startswith(".zielen/remote.db"):
                continue
            check(rem2.get(p) == rem[p], "{} changed {!r} in the remote directory from {} to {}", want, p, str(rem[p])[:80], str(rem2.get(p))[:80])
        check(".zielen/exclude/" + pid not in rem2, "{} left the exclude patterns in the remote directory", want)
    for p, v in loc.items():
        if v[0] == "link" and points_into(c.L + "/" + p, v[1], c.R):
            g = loc2.get(p)
            if nor or p not in rdb:
                check(g is None, "{} left the link {!r} to the remote directory", want, p)
            continue
        if nor or p not in rdb:
            check(loc2.get(p) == v, "{} changed {!r} in the local directory from {} to {}", want, p, str(v)[:80], str(loc2.get(p))[:80])
    if not nor:
        for p in rdb:
            check(loc2.get(p) == rem[p], "{}: {!r} was {} but the local directory now has {}", want, p, str(rem[p])[:80], str(loc2.get(p))[:80])
        if not keep:
            check(not os.path.isdir(c.R) or not snap(c.R), "{} left files in the remote directory: {}", want, sorted(rem2))


def reset_fault(rng, sc):
    """A failure or crash at any point of a reset loses nothing."""
    c, t = reset_world(rng, sc)
    keep, nor = rng.random() < 0.2, rng.random() < 0.1
    loc, rem = snap(c.L), snap(c.R)
    rem = {p: v for p, v in rem.items()}
    n = rng.randint(1, 2 * len(rem) + 6)
    crash = rng.random() < 0.4
    late = rng.random() < 0.3

    def pre(kind, paths):
        # when the profile is deleted, everything else is done
        if kind in ("rmdir", "unlink", "remove") and any(under(c.dir, p) for p in paths):
            if not nor and not keep:
                left = {p for p, v in snap(c.R).items() if v[0] != "dir" and not p.startswith(".zielen")} if os.path.isdir(c.R) else ()
                check(not left, "the profile is deleted while {} are still in the remote directory", left)
            for p, v in snap(c.L).items():
                check(not (v[0] == "link" and points_into(c.L + "/" + p, v[1], c.R)), "the profile is deleted before the link {!r} is removed", p)
        # remote contents are deleted only when nothing but directories is left
        if not nor and not keep and kind in ("rmdir", "unlink", "remove") and any(under(c.R + "/.zielen", p) for p in paths):
            left = {p for p, v in snap(c.R).items() if v[0] != "dir" and not under(".zielen", p)}
            check(not left, "remote contents are deleted while {} are still there", left)
        if late and kind in ("rmdir", "unlink", "remove") and any(under(c.R, p) for p in paths) and n % 3 == 0:
            raise Fault()

    def go():
        with Trace(sc.d, fault_at=n, fault=stop if crash else raiser(OSError(5, "injected")), pre=pre):
            c.reset(keep_remote=keep, no_retrieve=nor)
        return "done"
    st, out = in_child(go)
    check(st != 3, "{}", out)
    what = "reset(keep_remote=%s, no_retrieve=%s) %s at operation %d" % (keep, nor, "killed" if crash else "failing", n)
    conserved(c, rem, what)
    loc2 = snap(c.L)
    for p, v in loc.items():
        if not (v[0] == "link" and points_into(c.L + "/" + p, v[1], c.R)) and p not in rem:
            check(loc2.get(p) == v, "{}: {!r} was {} in the local directory but is {}", what, p, str(v)[:80], str(loc2.get(p))[:80])
    if keep or nor:
        for p, v in snap(c.R).items():
            if p in rem and not p.startswith(".zielen"):
                check(v == rem[p], "{}: {!r} changed in the remote directory", what, p)


# --- C18 ----------------------------------------------------------------------------

def state(c, ignore_db=True):
    out = {}
    for root in (c.L, c.R, c.dir):
        for p, v in snap(root).items():
            if ignore_db and (".db" in os.path.basename(p)):
                continue
            out[root + "/" + p] = v
    for d in (c.dir + "/local.db", c.R + "/.zielen/remote.db"):
        if os.path.isfile(d):
            try:
                out[d] = peek_db(d, "directory", os.environ.get("SCRATCH") or tempfile.gettempdir())
            except sqlite3.Error:
                out[d] = None
    return out


def command(rng, c, kind):
    from zielen.commands.sync import SyncCommand
    from zielen.commands.reset import ResetCommand
    from zielen.commands.emptytrash import EmptyTrashCommand
    from zielen.commands.init import InitCommand
    if kind == "sync":
        return SyncCommand(c.name)
    if kind == "reset":
        return ResetCommand(c.name, keep_remote=rng.random() < 0.3, no_retrieve=rng.random() < 0.3)
    if kind == "empty-trash":
        return EmptyTrashCommand(c.name)
    return InitCommand(c.name, exclude=c.exclude_file, template=c.template, add_remote=c.add_remote)


def locked_world(rng, sc, init=True):
    c = Client(sc, limit=rng.choice(["10KiB", "1000000KiB"]), init=init)
    t = gen_tree(rng, rng.randint(2, 6))
    mk(c.L, t)
    if init:
        c.sync()
        for p in list(t)[:2]:
            if t[p] == "file" and os.path.lexists(c.L + "/" + p) and rng.random() < 0.5:
                os.remove(c.L + "/" + p)
        mk(c.L, {"new%d" % i: "file" for i in range(3)})
        for i in range(3):
            put(c.R + "/.zielen/Trash/t%d" % i, "trash")
    return c


def try_lock(c):
    """Can the profile be locked?"""
    from zielen.commands.sync import SyncCommand
    from zielen.profile import Profile
    E = errors()
    from zielen.commands.init import InitCommand
    cmd = InitCommand(c.name)
    cmd.profile = Profile(c.name)
    try:
        cmd.lock()
    except E.StatusError:
        return False
    finally:
        close(cmd)
        try:
            cmd.profile._db_file._conn.close()
        except Exception:
            pass
    return True


def lock(rng, sc):
    E = errors()
    outer = rng.choice(["sync", "reset", "empty-trash", "init"])
    c = locked_world(rng, sc, init=outer != "init")
    other = None
    if rng.random() < 0.3:
        other = Client(sc, local="local2", remote="remote2")
        put(other.L + "/f", "other")
    inner = rng.choice(["sync", "reset", "empty-trash", "init"])
    at = rng.choice([1, 1, 2, 3, rng.randint(1, 25)])
    fail = rng.choice([None, None, OSError(5, "injected"), KeyboardInterrupt()])
    box = {"n": 0, "busy": False, "done": False}
    with quiet():
        cmd = command(rng, c, outer)

    def pre(kind, paths):
        if box["busy"]:
            return
        # creating the directories that everything lies in changes nothing
        box["n"] += 1
        if box["n"] == at and not box["done"]:
            box["done"] = box["busy"] = True
            try:
                attempt(kind, paths)
            finally:
                box["busy"] = False
            if fail is not None:
                raise fail

    def attempt(kind, paths):
        before = state(c)
        where = "a %s during operation %d (%s %s) of a %s" % (inner, at, kind, paths, outer)
        err, ok = None, False
        try:
            with quiet():
                k = command(rng, c, inner)
        except E.InputError:
            k = None
        if k is not None:
            try:
                with quiet():
                    k.main()
                ok = True
            except Exception as e:
                err = e
            finally:
                close(k)
            check(not ok, "{} succeeded", where)
            if outer != "init" or inner == "init":
                check(isinstance(err, E.ProgramError), "{} fails with {!r}", where, err)
            after = state(c)
            diff = sorted(p for p in set(before) | set(after) if before.get(p) != after.get(p))
            check(not diff, "{} changed {}", where, diff)
        check(not try_lock(c), "the profile is not locked in operation {} ({} {}) of a {}", at, kind, paths, outer)
        if other is not None:
            try:
                other.sync()
            except E.StatusError as e:
                check(False, "a {} on one profile blocks another profile", outer)
            check(get(other.R + "/f") == "other", "the other profile was not synced")
        uid = os.getuid()
        with patched((os, "getuid", lambda: uid + 1)):
            check(try_lock(c), "a {} blocks another user", outer)

    try:
        with quiet(), Trace(sc.d, pre=pre):
            cmd.main()
    except Violation:
        raise
    except (Exception, KeyboardInterrupt, SystemExit) as e:
        if fail is None or not box["done"]:
            raise
    if not os.path.isdir(c.dir):
        os.makedirs(c.dir)
    # cmd is still referenced here: the lock must have been released explicitly
    check(try_lock(c), "the profile stays locked after a {} that {}", outer, "failed" if fail and box["done"] else "succeeded")
    close(cmd)
    if not box["done"]:
        raise Skip


def lock_race(rng, sc):
    """What another operation stored before the lock was taken is not overwritten with older data."""
    c = locked_world(rng, sc)
    from zielen.commands.sync import SyncCommand
    E = errors()
    with quiet():
        a = SyncCommand(c.name)
    real = a.lock
    seen = {}

    def racing():
        c.sync()
        seen["info"] = c.info()
        return real()
    a.lock = racing
    files = {p: v for p, v in snap(c.L).items()}
    with quiet():
        a.main()
    names = [p for p in snap(c.L) if "_conflict-" in p]
    check(not names, "two syncs one after the other made conflicts: {}", names)
    close(a)


def init_race(rng, sc):
    """A profile that is initialized while another initialization starts is not initialized again."""
    c = locked_world(rng, sc, init=False)
    E = errors()
    with quiet():
        a = command(rng, c, "init")
    real = a.lock
    seen = {}

    def racing():
        c.init()
        seen["s"] = state(c)
        return real()
    a.lock = racing
    try:
        with quiet():
            a.main()
        ok = True
    except E.ProgramError:
        ok = False
    finally:
        close(a)
    check(not ok, "an initialized profile was initialized again")
    s = state(c)
    diff = sorted(p for p in set(s) | set(seen["s"]) if s.get(p) != seen["s"].get(p))
    check(not diff, "an initialization that was refused changed {}", diff)


def init_exit(rng, sc):
    """What a failed initialization does when its process exits, after it released the lock, changes nothing of another one's."""
    c = locked_world(rng, sc, init=False)
    E = errors()
    with quiet(), AtExit() as ax:
        bad = sc.d + "/bad-template"
        os.makedirs(sc.d + "/full", exist_ok=True)
        put(sc.d + "/full/f", "x")
        kind = rng.choice(["dir", "value", "locked"])
        put(bad, "LocalDir=%s\nRemoteDir=%s\nStorageLimit=%s\n" % (c.L if kind == "dir" else sc.d + "/new", sc.d + "/full", "x" if kind == "value" else "1KiB"))
        a = command(rng, c, "init")
        a.template, a.add_remote = bad, False
        if kind == "locked":
            b = command(rng, c, "init")
            b.profile = __import__("zielen.profile", fromlist=["x"]).Profile(c.name)
            b.lock()
        try:
            a.main()
            check(False, "an initialization with invalid input was accepted")
        except E.ProgramError:
            pass
        finally:
            close(a)
        if kind == "locked":
            # the other one has just created the directory of the profile
            os.makedirs(c.dir, exist_ok=True)
        else:
            c.init()
        s = state(c)
        ax.run()
        check(os.path.isdir(c.dir), "an initialization that failed ({}) removed the profile directory of another one at exit", kind)
        diff = sorted(p for p in set(s) | set(state(c)) if s.get(p) != state(c).get(p))
        check(not diff, "an initialization that failed ({}) changed {} at exit", kind, diff)
        if kind == "locked":
            close(b)


# --- C19 ----------------------------------------------------------------------------

class AtExit:
    """Collects what is registered to run at exit, and runs it."""
    def __enter__(self):
        import atexit
        self.fs = []
        self.saved = atexit.register, atexit.unregister
        atexit.register = lambda f, *a, **k: self.fs.append((f, a, k)) or f
        atexit.unregister = lambda f: self.fs.__setitem__(slice(None), [x for x in self.fs if x[0] != f])
        return self

    def run(self):
        while self.fs:
            f, a, k = self.fs.pop()
            f(*a, **k)

    def __exit__(self, *e):
        import atexit
        atexit.register, atexit.unregister = self.saved


def status(c):
    try:
        return c.info().get("Status")
    except (OSError, ValueError):
        return None


def init_invalid(rng, sc):
    """Nothing is transferred or linked unless everything is valid."""
    E = errors()
    other = None
    kind = rng.choice(["name", "exclude", "template", "no local", "local file", "remote full", "overlap", "overlap", "overlap", "overlap", "program", "local full",
                       "no remote", "config", "template value"])
    add_remote = rng.random() < 0.4
    name = "p%d-%d" % (os.getpid(), next(_names_))
    if kind == "overlap":
        other = Client(sc, local="x/y", remote="r0")
        put(other.L + "/o", "other")
        extra = rng.random() < 0.5
        if extra:
            o2 = Client(sc, local="w", remote="r1")
        # what killed initializations of other profiles may have left
        for i in range(rng.choice([0, 0, 2, 4])):
            pd = "%s/%s%d-%d" % (sc.profiles, rng.choice("anz"), i, os.getpid())
            os.mkdir(pd)
            if rng.random() < 0.5:
                put(pd + "/config", "LocalDir=%s\nRemoteDir=%s\nStorageLimit=1MB\n" % (sc.d + "/left%d" % i, sc.d + "/rleft%d" % i))
    L, Rm = sc.d + "/local", sc.d + "/remote"
    if kind == "overlap":
        L = rng.choice([other.L, other.L + "/sub", os.path.dirname(other.L), other.L + "/sub/sub2", other.L + "/"])
    elif kind == "program":
        from zielen.paths import get_program_dir
        g = get_program_dir()
        L = rng.choice([g, g + "/sub", os.path.dirname(g), sc.d + "/home", g + "/profiles"])
    os.makedirs(os.path.dirname(L.rstrip("/")), exist_ok=True)
    limit = "1000000KiB"
    tmpl, excl = sc.d + "/template", None
    if kind == "no local":
        add_remote = False
    elif kind == "local file":
        put(L, "a file")
    elif kind == "local full":
        add_remote = True
        put(L + "/f", "data")
    elif kind == "overlap" and add_remote:
        # the directory may not exist yet or be empty
        if os.path.isdir(L) and os.listdir(L):
            add_remote = False
    if kind not in ("no local", "local file") and not add_remote:
        os.makedirs(L, exist_ok=True)
        put(L + "/mine", "my data")
        put(L + "/dir/mine", "my data")
    if kind == "no remote":
        add_remote = True
        if os.path.isdir(L):
            shutil.rmtree(L)
    elif add_remote:
        os.makedirs(Rm)
        put(Rm + "/theirs", "remote data")
    elif kind == "remote full":
        put(Rm + "/theirs", "remote data")
    if kind == "remote full" and add_remote:
        shutil.rmtree(Rm)
        put(Rm, "a file")
    if kind == "name":
        name = rng.choice(["a b", "", "a/b", "../x", "a.b", "é!", "a\tb", "x$", "a\n", " a"])
    if kind == "exclude":
        excl = rng.choice([sc.d + "/missing", sc.d])
    put(tmpl, "LocalDir=%s\nRemoteDir=%s\nStorageLimit=%s\n" % (L, Rm, limit))
    if kind == "template":
        tmpl = sc.d + "/missing"
    if kind == "config":
        put(tmpl, "LocalDir=%s\nRemoteDir=%s\nStorageLimit=%s\nFoo=1\n" % (L, Rm, limit))
    if kind == "template value":
        put(tmpl, "LocalDir=%s\nRemoteDir=%s\nStorageLimit=%s\n%s" % (L, Rm, *rng.choice([("10", ""), ("10KB", "UseTrash=maybe\n"), ("ten", ""), ("10KB", "SyncInterval=x\n")])))
    from zielen.commands.init import InitCommand

    def sn(d):
        return {p: v for p, v in snap(d).items() if not p.startswith("home/")} if os.path.isdir(d) else get(d)
    before = sn(sc.d)
    pb = snap(sc.profiles) if os.path.isdir(sc.profiles) else {}
    err = None
    with AtExit() as ax:
        try:
            with quiet():
                cmd = InitCommand(name, exclude=excl, template=tmpl, add_remote=add_remote)
                cmd.main()
        except E.ProgramError as e:
            err = e
        finally:
            with quiet():
                ax.run()
    close(cmd)
    why = "%s (name %r, local %r, add_remote=%s)" % (kind, name, L, add_remote)
    check(err is not None, "an initialization with invalid input was accepted: {}", why)
    after = sn(sc.d)
    if isinstance(before, dict):
        # checking an expected empty directory may create it
        diff = sorted(p for p in set(before) | set(after) if before.get(p) != after.get(p)
                      and not (after.get(p) == ("dir", None) and sc.d + "/" + p in (L, Rm, os.path.dirname(L), L.rstrip("/"))) and ".db" not in p)
        check(not diff, "an initialization with invalid input ({}) changed {}", why, diff)
    pa = snap(sc.profiles) if os.path.isdir(sc.profiles) else {}
    diff = sorted(p for p in set(pa) | set(pb) if pa.get(p) != pb.get(p) and ".db" not in p)
    check(not diff, "an initialization with invalid input ({}) left {}", why, diff)


_names_ = itertools.count()


def init_done(c, want_local, add_remote, pid=None):
    """What an initialized profile looks like."""
    check(status(c) == "initialized", "the profile is {}", status(c))
    loc, rem = snap(c.L), snap(c.R)
    info = c.info()
    check(os.path.isfile(c.R + "/.zielen/exclude/" + info["ID"]), "the remote directory lacks the exclude patterns of the profile")
    check(get(c.R + "/.zielen/exclude/" + info["ID"]) == get(c.dir + "/exclude"), "the exclude patterns in the remote directory differ")
    rp = {p for p in rem if not under(".zielen", p)}
    check(set(c.rdb()) == rp, "the remote database lists {} but the remote directory has {}", sorted(c.rdb()), sorted(rp))
    check(set(c.db()) == rp, "the profile database lists {} but the remote directory has {}", sorted(c.db()), sorted(rp))
    for p, v in want_local.items():
        q = c.L + "/" + p
        if v[0] == "file":
            check(os.path.isfile(q) and get(q) == v[1], "{!r} is not in the local directory", p)
            check(rem.get(p) == v, "{!r} is not in the remote directory", p)
        elif v[0] == "dir":
            check(loc.get(p) == v and rem.get(p) == v, "the directory {!r} is missing", p)
    for k in ("LastSync", "LastAdjust"):
        check(info.get(k), "{} is not set", k)


def initialize(rng, sc):
    E = errors()
    c = Client(sc, init=False, add_remote=rng.random() < 0.4, exclude=rng.choice([None, "nothing\n"]))
    side = c.R if c.add_remote else c.L
    t = gen_tree(rng, rng.randint(1, 7))
    mk(side, t)
    want = snap(side)
    c.init()
    init_done(c, want, c.add_remote)
    # never again
    before = state(c)
    try:
        with AtExit() as ax:
            try:
                c.init()
            finally:
                with quiet():
                    ax.run()
        check(False, "an initialized profile was initialized again")
    except E.ProgramError:
        pass
    check(state(c) == before, "a refused initialization changed something")


def init_fault(rng, sc):
    """Failing or dying at any point leaves no profile or one that can be completed."""
    E = errors()
    c = Client(sc, init=False, add_remote=rng.random() < 0.4, exclude=rng.choice([None, "nothing\n"]))
    side = c.R if c.add_remote else c.L
    t = gen_tree(rng, rng.randint(1, 6))
    mk(side, t)
    want = snap(side)
    n = rng.randint(1, 14 + 5 * len(t))
    crash = rng.random() < 0.5
    exc = rng.choice([OSError(28, "injected"), KeyboardInterrupt()])
    what = "an initialization (add_remote=%s) %s at operation %d" % (c.add_remote, "killed" if crash else "failing", n)

    def pre(kind, paths):
        # "initialized" is stored only when everything else is in place
        if os.path.isfile(c.dir + "/info.json"):
            if status(c) == "initialized":
                check(set(c.rdb()) == set(want), "{}: it counts as initialized before the remote's records are stored", what)
                for p in want:
                    check(os.path.lexists(c.L + "/" + p) and os.path.lexists(c.R + "/" + p), "{}: it counts as initialized although {!r} is missing", what, p)
                check(os.listdir(c.R + "/.zielen/exclude"), "{}: it counts as initialized before the exclude patterns are stored", what)

    def go():
        with AtExit() as ax:
            try:
                with Trace(sc.d, fault_at=n, fault=stop if crash else raiser(exc), pre=pre):
                    c.init()
            except Violation:
                raise
            except (Exception, KeyboardInterrupt):
                with quiet():
                    ax.run()
                return "failed"
        return "done"
    st, out = in_child(go)
    check(st != 3, "{}", out)
    if out == "done":
        init_done(c, want, c.add_remote)
        return
    check(st in (77, 0), "{}: {}", what, out)
    s = status(c)
    if s == "initialized":
        # it died after that
        init_done(c, want, c.add_remote)
        return
    now = snap(side)
    for p, v in want.items():
        if v[0] == "file":
            q = side + "/" + p
            check(os.path.isfile(q) and get(q) == v[1], "{}: {!r} is gone", what, p)
    from zielen.commands.init import InitCommand
    resumed = s == "partial"
    with AtExit() as ax:
        try:
            with quiet():
                k = InitCommand(c.name) if resumed else InitCommand(
                    c.name, exclude=c.exclude_file, template=c.template, add_remote=c.add_remote)
                k.main()
        except (E.ProgramError, OSError, KeyError, ValueError, sqlite3.Error) as e:
            check(False, "{}: it can't be {}: {!r}", what, "resumed" if resumed else "repeated", e)
        finally:
            close(k)
    init_done(c, want, c.add_remote)


# --- C20 ----------------------------------------------------------------------------

def sync_world(rng, sc, conflict=True, tag=""):
    """A synced profile with pending changes of all kinds."""
    c = Client(sc, local="local" + tag, remote="remote" + tag, limit=rng.choice(["12KiB", "1000000KiB", "1000000KiB"]),
               extra=rng.choice(["", "UseTrash=no\n", "InflatePriority=no\n"]))
    t = {"d": "dir", "d/del1": "file", "d/keep": "file", "del2": "file", "rdel": "file", "mod": "file", "rmod": "file", "conf": "file", "z": "dir", "z/zz": "file"}
    mk(c.L, t)
    c.sync()
    os.remove(c.L + "/d/del1")
    os.remove(c.L + "/del2")
    os.remove(c.R + "/rdel")
    now = real_time()
    lt, rt = rng.sample([70, 90], 2)
    for p, side, dt in [("mod", c.L, 50), ("rmod", c.R, 60)] + ([("conf", c.L, lt), ("conf", c.R, rt)] if conflict else []):
        q = side + "/" + p
        if os.path.islink(q):
            os.remove(q)
        put(q, "changed %s %s" % (p, dt))
        os.utime(q, (now + dt, now + dt))
    put(c.L + "/new/sub/f", "new local")
    put(c.R + "/rnew/f", "new remote")
    return c


def phase(c, kind, paths):
    """The step of a sync that an operation belongs to."""
    if kind == "mkdir" and os.path.isdir(paths[0]):
        return "nothing"
    p = paths[-1] if kind in ("symlink", "copying") else paths[0]
    dst = paths[-1]

    def rel(x):
        for r in (c.L, c.R):
            if under(r, x):
                return os.path.relpath(x, r)
    r, d = rel(p), rel(dst)
    if kind == "commit":
        return "commit " + os.path.basename(p)
    if any(under(c.R + "/.zielen/exclude", x) for x in paths):
        return "exclude"
    if any(under(c.dir, x) for x in paths):
        return "profile"
    if kind in ("remove", "unlink", "rename", "replace") and r in ("d/del1", "del2", "rdel"):
        return "delete"
    if d and "_conflict-" in d and kind in ("rename", "replace") and r == "conf":
        return "conflict"
    if any(under(c.R + "/.zielen", x) for x in paths):
        return "bookkeeping"
    return "copy"


def sync_recorded(rng, sc):
    """What a sync has recorded as files and directories is what it is, and later edits of any file are synced."""
    c = sync_world(rng, sc)
    c.sync()
    r, db, rdb = snap(c.R, skip=(".zielen",)), c.db(), c.rdb()
    for p, (kind, _) in r.items():
        for d, n in ((db, "profile"), (rdb, "remote")):
            check(p in d, "after a sync, {!r} is not in the {} database", p, n)
            check(bool(d[p][0]) == (kind == "dir"), "after a sync, the {} {!r} is recorded with directory={} in the {} database", kind, p, d[p][0], n)
    p = rng.choice(sorted(p for p, v in r.items() if v[0] == "file"))
    q = c.L + "/" + p
    if os.path.islink(q):
        os.remove(q)
    put(q, "edited again")
    os.utime(q, (real_time() + 500, real_time() + 500))
    c.sync()
    check(get(c.R + "/" + p) == "edited again", "an edit of {!r} was not synced", p)


def sync_order(rng, sc):
    c = sync_world(rng, sc)
    last = c.info()["LastSync"]
    db0, rdb0 = c.db(), c.rdb()
    seen = []

    def pre(kind, paths):
        seen.append((phase(c, kind, paths), kind, paths))
        if seen[-1][0] not in ("profile",) and not seen[-1][0].startswith("commit"):
            check(c.info()["LastSync"] == last, "the time of the sync is stored before {} {}", kind, paths)
            check(c.db() == db0 and c.rdb() == rdb0, "a database is committed before {} {}", kind, paths)
        if seen[-1][0] == "commit local.db":
            check(c.rdb() != rdb0, "the profile database is committed before the remote database")
        if seen[-1][0] == "profile":
            check(c.rdb() != rdb0 or "LastSync" not in str(kind), "")
    with Trace(sc.d, pre=pre):
        c.sync()
    ph = [s[0] for s in seen]

    def span(k):
        ix = [i for i, p in enumerate(ph) if p == k]
        return (ix[0], ix[-1]) if ix else None
    de, co, cp = span("delete"), span("conflict"), span("copy")
    check(de and co and cp, "some step is missing: {}", sorted(set(ph)))
    check(de[1] < co[0], "conflicts are resolved ({}) before deletions are applied ({})", seen[co[0]][1:], seen[de[1]][1:])
    check(co[1] < cp[0], "files are copied ({}) before conflicts are resolved ({})", seen[cp[0]][1:], seen[co[1]][1:])
    rc, lc, pr = span("commit remote.db"), span("commit local.db"), span("profile")
    check(rc and lc, "the databases are not committed")
    check(cp[1] < rc[0] and cp[1] < lc[0] and cp[1] < pr[0] if pr else True, "something is recorded before {}", seen[cp[1]][1:])
    check(rc[1] < lc[0] and (not pr or rc[1] < pr[1]), "the remote database is committed after the profile's")
    check(c.info()["LastSync"] != last, "the time of the sync is not recorded")
    check(c.db() != db0 and c.rdb() != rdb0, "the databases are not committed")


def resolved(c):
    out = {}
    for p, v in snap(c.L).items():
        q = c.L + "/" + p
        if v[0] == "link" and points_into(q, v[1], c.R):
            out[p] = ("file", get(q)) if os.path.isfile(q) else ("dangling", v[1])
        else:
            out[p] = v
    return out


def strip(t):
    import re
    return {re.sub(r"_conflict-\d+-\d+", "_conflict", p): v for p, v in t.items()}


def sync_fault(rng, sc):
    """A sync that fails or dies is not recorded and can be repeated."""
    seed = rng.random()
    twin = sync_world(random.Random(seed), sc, conflict=False, tag="2")
    twin.sync()
    c = sync_world(random.Random(seed), sc, conflict=False)
    last, db0, rdb0 = c.info()["LastSync"], c.db(), c.rdb()
    n = rng.randint(1, 75)
    crash = rng.random() < 0.5
    what = "a sync %s at operation %d" % ("killed" if crash else "failing", n)
    marks = sc.d + "/marks"

    def go():
        log = real_open(marks, "w")

        def pre(kind, paths):
            log.write(phase(c, kind, paths) + " " + repr((kind, paths)) + "\n")
            log.flush()
        with Trace(sc.d, fault_at=n, fault=stop if crash else raiser(OSError(28, "injected")), pre=pre):
            try:
                c.sync()
            except sqlite3.Error:
                raise
        return "done"
    st, out = in_child(go)
    check(st != 3, "{}", out)
    ops = get(marks).split("\n")[:-1]
    m = [x.partition(" (")[0] for x in ops]
    if out == "done" and len(m) < n:
        raise Skip
    check(out != "done" or len(m) < n or m[-1] != "copy", "{}: the failure ({}) is ignored", what, m[n - 1:])
    rc = [i for i, p in enumerate(m) if p == "commit remote.db"]
    lc = [i for i, p in enumerate(m) if p == "commit local.db"]
    if out != "done":
        what += " (%s)" % (ops[-1] if m else "")
        if not rc or rc[0] == len(m) - 1:
            check(c.rdb() == rdb0, "{}: the remote database was committed", what)
            check(c.db() == db0, "{}: the profile database was committed", what)
            check(c.info()["LastSync"] == last, "{}: the time of the sync was recorded", what)
        elif not lc or lc[0] == len(m) - 1:
            check(c.db() == db0, "{}: the profile database was committed", what)
    c.sync()
    # files that a killed process left are new files
    mine = {"d", "d/del1", "d/keep", "del2", "rdel", "mod", "rmod", "conf", "z", "z/zz", "new", "new/sub", "new/sub/f", "rnew", "rnew/f"}

    def strip(t):
        # a killed process leaves temporary files
        return {p: v for p, v in t.items() if p in mine}
    check(crash or set(snap(c.L)) <= mine, "{}: it left {}", what, sorted(set(snap(c.L)) - mine))
    a, b = strip(resolved(c)), strip(resolved(twin))
    diff = {p: (a.get(p), b.get(p)) for p in set(a) | set(b) if a.get(p) != b.get(p)}
    check(not diff, "{}: after repeating it, the local directory differs from that of an undisturbed sync: {}", what, diff)
    ra = {p: v for p, v in strip(snap(c.R)).items() if not under(".zielen", p)}
    rb = {p: v for p, v in strip(snap(twin.R)).items() if not under(".zielen", p)}
    check(ra == rb, "{}: after repeating it, the remote directory differs from that of an undisturbed sync: {}", what, {p: (ra.get(p), rb.get(p)) for p in set(ra) | set(rb) if ra.get(p) != rb.get(p)})
    check(set(strip(c.db())) == set(twin.db()) and set(strip(c.rdb())) == set(twin.rdb()), "{}: after repeating it, the databases differ from those of an undisturbed sync", what)


def unreachable(rng, sc):
    E = errors()
    c = sync_world(rng, sc)
    way = rng.choice(["gone", "empty", "no bookkeeping"])
    if way == "gone":
        os.rename(c.R, c.R + "-away")
    elif way == "empty":
        os.rename(c.R, c.R + "-away")
        os.makedirs(c.R)
    else:
        os.rename(c.R + "/.zielen", sc.d + "/away")
    loc, info, db, rem = snap(c.L), c.info(), c.db(), snap(c.R)
    err = None
    writes = []
    try:
        with Trace(sc.d, pre=lambda k, p: writes.append((k, p))):
            c.sync()
    except E.ProgramError as e:
        err = e
    check(isinstance(err, E.RemoteError), "a sync without its remote directory ({}) gives {!r}", way, err)
    check(snap(c.L) == loc and snap(c.R) == rem and c.info() == info and c.db() == db, "a sync without its remote directory ({}) changed something", way)


# --- C21 ----------------------------------------------------------------------------

class Done(BaseException):
    pass


def daemon(rng, sc):
    import zielen.daemon as D
    half = rng.choice([1, 2, 120])
    c = Client(sc, extra="PriorityHalfLife=%d\nInflatePriority=no\n" % half)
    t = gen_tree(rng, rng.randint(2, 6))
    if "file" not in t.values():
        t["f"] = "file"
    mk(c.L, t)
    c.sync()
    files = sorted(p for p in t if t[p] == "file")
    base = c.db()
    T0 = 1.6e9
    clock = {"t": T0}
    info = c.info()
    with AtExit():
        with quiet():
            d = D.Daemon(c.name)
    d.profile.read()
    d.profile.last_adjust = T0 - rng.choice([0, 1, 100, 599, 600, 601, 5000])
    last_adjust = d.profile.last_adjust
    d.profile.write()
    box = {}

    class WM:
        def __init__(self, *a, **k):
            box["watched"] = []

        def add_watch(self, path, mask, **k):
            box["watched"].append((path, mask, k))

    class Notifier:
        def __init__(self, wm, callback, *a, **k):
            box["cb"] = callback

        def start(self):
            box["started"] = True

    class Th:
        def __init__(self, *a, **k):
            pass

        def start(self):
            pass
    rounds = rng.randint(1, 7)
    weights = {p: 0.0 for p in files}
    counted, pending = {}, []
    COOL, INC, ADJ = d.COOLDOWN_PERIOD, d.INCREMENT_AMOUNT, d.ADJUST_INTERVAL
    busy = {"now": None}
    log = []
    real_inc, real_adj = d.profile.increment, d.profile.adjust_all
    st = {"last": last_adjust}

    def inc(paths, by, *a, **k):
        if busy["now"] == "increment":
            raise sqlite3.OperationalError("database is locked")
        return real_inc(paths, by, *a, **k)

    def adj(x, *a, **k):
        if busy["now"] == "adjust":
            raise sqlite3.OperationalError("database is locked")
        return real_adj(x, *a, **k)

    def feed():
        """Between two rounds: accesses happen and time passes."""
        n = rng.choice([0, 1, 2, 5])
        for _ in range(n):
            clock["t"] += rng.choice([0, 0, 0.26, 0.53, 0.79, 1.27, 3.1, 10.3])
            # whether the end of the cooldown period belongs to it is not specified
            while any(abs(clock["t"] - x - COOL) < 1e-3 for x in counted.values()):
                clock["t"] += 0.01
            k = rng.random()
            if k < 0.75:
                p, isdir = rng.choice(files), False
            elif k < 0.85:
                p, isdir = rng.choice(sorted(t)), True
            else:
                p, isdir = rng.choice(["unknown", ".zielen/remote.db", files[0] + "x"]), False
            root = rng.choice([c.L, c.R])
            box["cb"](type("Ev", (), {"pathname": root + "/" + p, "dir": isdir, "mask": 32, "name": os.path.basename(p), "path": os.path.dirname(root + "/" + p)})())
            log.append((round(clock["t"] - T0, 2), p, isdir))
            if not isdir and p in weights:
                last = counted.get(p)
                if last is None or clock["t"] > last + COOL:
                    counted[p] = clock["t"]
                    pending.append(p)
        clock["t"] += rng.choice([0, 0.51, 3, 3, 599, 600, 1300])
        while abs(clock["t"] - st["last"] - ADJ) < 1e-3:
            clock["t"] += 0.01
        busy["now"] = rng.choice([None, None, "increment", "adjust"])
        log.append(("round at", round(clock["t"] - T0, 2), "busy: %s" % busy["now"]))

    def account():
        """What the round that just ended should have done."""
        due = clock["t"] >= st["last"] + ADJ
        if due and busy["now"] == "adjust":
            return
        if due:
            f = 0.5 ** (ADJ / (half * 3600))
            for p in weights:
                weights[p] *= f
            st["last"] = clock["t"]
        if busy["now"] == "increment":
            return
        for p in pending:
            weights[p] += INC
        del pending[:]
    rnd = {"n": 0}

    def pause(s):
        account()
        if rnd["n"] >= rounds and busy["now"] is None:
            raise Done
        if rnd["n"] > rounds + 40:
            raise Done
        rnd["n"] += 1
        feed()
        if rnd["n"] >= rounds:
            busy["now"] = None

    class FakeTime:
        time = staticmethod(lambda: clock["t"])
        sleep = staticmethod(pause)

        def __getattr__(self, n):
            return getattr(time, n)
    fp = type("P", (), {"WatchManager": WM, "ThreadedNotifier": Notifier, "IN_OPEN": 32, "IN_CREATE": 256, "__getattr__": lambda s, n: 0})()
    d.profile.increment, d.profile.adjust_all = inc, adj
    ft = type("T", (), {"Thread": Th, "__getattr__": lambda s, n: getattr(__import__("threading"), n)})()
    try:
        with patched((D, "pyinotify", fp), (D, "threading", ft), (D, "time", FakeTime())), quiet():
            d.main()
    except Done:
        pass
    finally:
        close(d)
    watched = {w[0] for w in box["watched"]}
    check(watched == {c.L, c.R}, "the daemon watches {}", watched)
    for w in box["watched"]:
        check(w[1] & 32 and w[1] & 256, "openings or creations in {} are not watched", w[0])
    db = c.db()
    for p in files:
        check(math.isclose(db[p][1], weights[p] + 0, rel_tol=1e-9, abs_tol=1e-12), "{!r} has priority {} instead of {} (half-life {} h, last adjusted at {}) after {}", p, db[p][1], weights[p], half, last_adjust - T0, log)


# --- C22 ----------------------------------------------------------------------------

def select(rng, sc):
    E = errors()
    from zielen.commands.sync import SyncCommand
    os.makedirs(sc.profiles, exist_ok=True)
    names = rng.sample(["work", "work2", "wor", "home", "w", "local", "dir", "a-b", "x_y", "Work"], rng.randint(1, 5))
    good = {}
    for i, n in enumerate(names):
        L = sc.d + "/dirs/%s" % rng.choice(["local%d" % i, "sub/local%d" % i, n + "-files%d" % i])
        kind = rng.choice(["ok", "ok", "ok", "no config", "bad config", "no info", "unreadable", "garbage", "no dir", "partial", "no access", "file above", "bad info"])
        cfg = "LocalDir=%s\nRemoteDir=%s\nStorageLimit=10KiB\n" % (L, sc.d + "/r%d" % i)
        if kind == "no access":
            os.makedirs(sc.d + "/closed%d/x" % i)
            os.chmod(sc.d + "/closed%d" % i, 0)
            cfg = cfg.replace(L, sc.d + "/closed%d/x" % i)
        elif kind == "file above":
            put(sc.d + "/file%d" % i, "a file")
            cfg = cfg.replace(L, sc.d + "/file%d/x" % i)
        elif kind != "no dir":
            os.makedirs(L, exist_ok=True)
        if kind == "bad config":
            cfg = rng.choice(["Foo=bar\n", "", "LocalDir=x\n", cfg + "UseTrash=perhaps\n"])
        d = fake_profile(sc, n, None if kind == "no config" else cfg)
        if kind == "no info":
            os.remove(d + "/info.json")
        elif kind == "bad info":
            put(d + "/info.json", rng.choice(["", "{", "x"]))
        elif kind == "unreadable":
            os.chmod(d + "/config", 0)
        elif kind == "garbage":
            with real_open(d + "/config", "wb") as f:
                f.write(b"LocalDir=\xff\xfe\x80\n")
        elif kind in ("ok", "partial"):
            good[n] = L
        if kind == "partial":
            pass
    if rng.random() < 0.3:
        os.symlink(sc.profiles + "/" + names[0], sc.profiles + "/linked")
    if rng.random() < 0.3:
        put(sc.profiles + "/stray", "a file")
    cwd = rng.choice([sc.d, sc.d + "/dirs"] + list(good.values()))
    os.makedirs(cwd, exist_ok=True)
    if rng.random() < 0.4:
        # a directory that has the name of a profile
        os.makedirs(cwd + "/" + rng.choice(names), exist_ok=True)
    os.chdir(cwd)
    L = rng.choice(list(good.values())) if good else sc.d + "/dirs/none"
    if rng.random() < 0.4 and os.path.isdir(L):
        os.makedirs(L + "/inside", exist_ok=True)
    link = sc.d + "/link"
    os.symlink(L, link)
    arg = rng.choice(names + [L, L + "/", os.path.relpath(L, cwd), ".", link, L + "/inside", os.path.dirname(L), L + "x", L[:-1], "wo", "WORK", "nothing",
                              rng.choice(names)[:-1] or "q", rng.choice(names) + "x", "linked", "stray", rng.choice(names) + "/", sc.d, " " + names[0],
                              L + "/../" + os.path.basename(L), os.path.basename(L)])
    # what is meant
    if arg in names:
        want = arg
    else:
        want = None
        if os.path.exists(os.path.abspath(arg)):
            for n, l in good.items():
                if os.path.samefile(os.path.abspath(arg), l):
                    want = n
    got, err = None, None
    try:
        with quiet():
            got = SyncCommand(arg).profile.name
    except E.InputError as e:
        err = e
    except (OSError, ValueError, KeyError, E.ProgramError) as e:
        check(False, "selecting {!r} among {} fails with {!r}", arg, good, e)
    check(got == want, "{!r} selects the profile {!r} instead of {!r} (profiles {}, local directories {}, working directory {})", arg, got, want, names, good, cwd)


# --- C23 ----------------------------------------------------------------------------

def timestamps(rng, sc):
    from zielen.profile import Profile
    zones = ["UTC", "America/New_York", "Asia/Kolkata", "Pacific/Auckland", "EST5EDT", "XXX-14", "XXX+12:30"]
    saved = os.environ.get("TZ")
    d = fake_profile(sc, "p", "LocalDir=/a\nRemoteDir=/b\nStorageLimit=1KB\n")
    try:
        for _ in range(15):
            v = rng.choice([0.0, 1.0, rng.randint(0, 4 * 10 ** 9) * 1.0, rng.uniform(0, 4e9), rng.randint(0, 4 * 10 ** 9) + 0.000001,
                            round(rng.uniform(1e9, 2e9), 6), 1e9 + 0.999999, 1553994000 + rng.uniform(-7200, 7200), 1572739200 + rng.uniform(-9e4, 9e4)])
            w = rng.uniform(0, 4e9)
            os.environ["TZ"] = rng.choice(zones)
            time.tzset()
            p = Profile("p")
            p.read()
            a, b = rng.choice([("last_sync", "last_adjust"), ("last_adjust", "last_sync")])
            setattr(p, b, w)
            setattr(p, a, v)
            p._info_file.write()
            if rng.random() < 0.7:
                os.environ["TZ"] = rng.choice(zones)
                time.tzset()
            q = Profile("p")
            q.read()
            for x in (p, q):
                check(abs(getattr(x, a) - v) <= 1.1e-6, "{} was set to {!r} but reads {!r} ({})", a, v, getattr(x, a), os.environ["TZ"])
                check(abs(getattr(x, b) - w) <= 1.1e-6, "{} was set to {!r} but reads {!r} after {} was set", b, w, getattr(x, b), a)
            check(q.id == "p" and q.status == "initialized", "other metadata changed")
    finally:
        if saved is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = saved
        time.tzset()


def gen_text(rng, n=8):
    return "".join(rng.choice(list("abcXYZ019 =#/~._-+é{}%$\\\"'\t")) for _ in range(rng.randint(0, n))).strip()


def config_file(rng, sc):
    from zielen.containerbase import ConfigFile
    for _ in range(10):
        keys = rng.sample(["LocalDir", "RemoteDir", "StorageLimit", "UseTrash", "A", "Ab", "B c", "é", "Foo", "x.y", "k1", "k2"], rng.randint(1, 7))
        vals = {k: gen_text(rng) for k in keys}
        src, tpl, dst = sc.d + "/src", sc.d + "/tpl", sc.d + "/dst"
        lines = []
        for k in keys:
            lines.append("%s%s%s=%s%s%s\n" % (rng.choice(["", "  ", "\t"]), k, rng.choice(["", " "]), rng.choice(["", "  "]), vals[k], rng.choice(["", " "])))
            if rng.random() < 0.3:
                lines.append(rng.choice(["# %s=other\n" % k, "\n", "no separator\n", "   #x\n"]))
        put(src, "".join(lines))
        tlines, tkeys = [], []
        pool = keys + ["Unknown", "Other"]
        rng.shuffle(pool)
        for k in pool:
            if rng.random() < 0.85:
                tkeys.append(k)
                tlines.append(("key", k, "%s%s%s=%s\n" % (rng.choice(["", " "]), k, rng.choice(["", "  "]), rng.choice(["", "default", "a=b", " x "]))))
            if rng.random() < 0.5:
                x = rng.choice(["# comment %s=1\n" % k, "  # indented = comment\n", "\n", "a line without separator\n", "#%s=\n" % k, "\t#\n", "    \n", "#=\n"])
                tlines.append(("other", None, x))
        put(tpl, "".join(x[2] for x in tlines))
        c = ConfigFile(src)
        c.read()
        check(c.raw_vals == vals, "{!r} is read as {!r} instead of {!r}", get(src), c.raw_vals, vals)
        w = ConfigFile(dst)
        w.raw_vals = dict(c.raw_vals)
        w.write(tpl)
        r = ConfigFile(dst)
        r.read()
        for k in tkeys:
            if k in vals:
                check(r.raw_vals.get(k) == vals[k], "{} = {!r} was written through a template but reads back as {!r}", k, vals[k], r.raw_vals.get(k))
        out = get(dst).split("\n")
        check(len(out) == len(get(tpl).split("\n")), "the written config has {} lines but its template {}", len(out), len(get(tpl).split("\n")))
        for got, (kind, k, line) in zip(out, tlines):
            if kind == "other" or k not in vals:
                check(got + "\n" == line, "the line {!r} of the template is written as {!r}", line, got)
            else:
                check(got.partition("=")[0].strip() == k, "the line for {} is written as {!r}", k, got)
        check(get(tpl) == "".join(x[2] for x in tlines), "the template changed")


def json_file(rng, sc):
    from zielen.containerbase import JSONFile

    def val(depth=0):
        k = rng.randrange(7 if depth < 3 else 5)
        if k == 0:
            return gen_text(rng)
        if k == 1:
            return rng.choice([None, True, False])
        if k == 2:
            return rng.randint(-10 ** 12, 10 ** 12)
        if k == 3:
            return rng.uniform(-1e6, 1e6)
        if k == 4:
            return ""
        if k == 5:
            return [val(depth + 1) for _ in range(rng.randint(0, 3))]
        return {gen_text(rng): val(depth + 1) for _ in range(rng.randint(0, 3))}
    for _ in range(5):
        v = {gen_text(rng): val() for _ in range(rng.randint(0, 5))}
        j = JSONFile(sc.d + "/j")
        j.vals = v
        j.write()
        k = JSONFile(sc.d + "/j")
        k.read()
        check(k.vals == v, "{!r} was written but {!r} is read", v, k.vals)


def metadata_history(rng, sc):
    """The profile's metadata survives syncs and a resumed initialization."""
    c = Client(sc, exclude="# mine\n/x y\n\n*.tmp\n", extra="# my comment\nUseTrash=no\n\nSyncInterval=7\n")
    put(c.L + "/a", "a")
    tpl = get(c.template)
    check(get(c.dir + "/config") == tpl, "the template {!r} was written as {!r}", tpl, get(c.dir + "/config"))
    check(get(c.dir + "/exclude").endswith(get(c.exclude_file)), "the exclude patterns are stored as {!r}", get(c.dir + "/exclude"))
    i0 = c.info()
    t0 = real_time()
    c.sync()
    t1 = real_time()
    from zielen.profile import Profile
    p = Profile(c.name)
    p.read()
    check(t0 - 1e-5 <= p.last_sync <= t1 + 1e-5, "a sync between {} and {} is stored as {}", t0, t1, p.last_sync)
    i1 = c.info()
    check({k: v for k, v in i0.items() if k != "LastSync"} == {k: v for k, v in i1.items() if k != "LastSync"}, "a sync changed {} to {}", i0, i1)


def new_dirs(rng, sc):
    """Unsafe links and excluded files in new local directories are not synced."""
    c = Client(sc, exclude="*.tmp\n", limit=rng.choice(["0KiB", "1000000KiB"]))
    mk(c.L, gen_tree(rng, 3))
    c.sync()
    unsafe, excl, norm = {}, {}, {}
    os.makedirs(sc.d + "/out/sub", exist_ok=True)
    put(sc.d + "/out/f", "outside")
    for _ in range(rng.randint(1, 2)):
        for d in rng.sample(["n1", "n1/n2", "n3", "n1/n2/n4"], rng.randint(1, 3)):
            os.makedirs(c.L + "/" + d, exist_ok=True)
            k = rng.random()
            for n, where in (("l%d" % rng.randrange(3), unsafe), ("x%d.tmp" % rng.randrange(3), excl), ("f%d" % rng.randrange(3), norm)):
                p = d + "/" + n
                if rng.random() < 0.7 and not os.path.lexists(c.L + "/" + p):
                    if where is unsafe:
                        where[p] = rng.choice(["/etc/passwd", sc.d + "/out/f", "../" * (p.count("/") + 1) + "out/f", sc.d + "/out/sub", "/nowhere",
                                               c.R + "/nothing", c.R + "-x/f"])
                        os.symlink(where[p], c.L + "/" + p)
                    else:
                        where[p] = "data " + p
                        put(c.L + "/" + p, where[p])
        c.sync()
        rem, db, rdb = snap(c.R), c.db(), c.rdb()
        for p in list(unsafe) + list(excl):
            kind = "unsafe link" if p in unsafe else "excluded file"
            check(p not in rem, "the {} {!r} was copied to the remote directory", kind, p)
            check(p not in db and p not in rdb, "the {} {!r} is in a database", kind, p)
        for p, v in unsafe.items():
            check(content(c.L, p) == ("link", v), "the unsafe link {!r} was changed locally", p)
        for p, v in excl.items():
            check(content(c.L, p) == ("file", v), "the excluded file {!r} was changed locally", p)
        for p, v in norm.items():
            check(rem.get(p) == ("file", v), "{!r} was not copied to the remote directory", p)
