"""Concrete falsifiers: run the real code on generated cases and look for one that breaks a property.

Run as an unprivileged user.  Every destructive effect stays in a scratch directory.
usage: harness.py PROPERTY --seed N --budget SECONDS [--case INDEX] [--only CHECK]
The last line of the output is a JSON object describing the result.
"""
import argparse
import builtins
import contextlib
import errno
import gc
import importlib
import io
import itertools
import json
import os
import random
import shutil
import sqlite3
import stat
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
sys.path.insert(0, REPO)
sys.path.insert(1, HERE)
sys.dont_write_bytecode = True

real_open, real_time = builtins.open, time.time
R = {n: getattr(os, n) for n in (
    "remove", "unlink", "rmdir", "rename", "replace", "symlink", "mkdir", "link", "utime", "stat", "lstat",
    "scandir", "open", "readlink", "chmod", "truncate")}


class Violation(Exception):
    pass


class Skip(Exception):
    """The case is outside of what the check covers."""


class Fault(Exception):
    pass


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args))


_names = itertools.count()


def put(path, data=""):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with real_open(path, "w") as f:
        f.write(data)


def get(path):
    with real_open(path, errors="replace") as f:
        return f.read()


def snap(root, skip=()):
    """{relative path: (kind, content)} of a tree, links not followed."""
    out = {}

    def go(d, rel):
        with R["scandir"](d) as it:
            entries = list(it)
        for e in entries:
            p = rel + e.name
            if p in skip:
                continue
            if e.is_symlink():
                out[p] = ("link", os.readlink(e.path))
            elif e.is_dir(follow_symlinks=False):
                out[p] = ("dir", None)
                go(e.path, p + "/")
            else:
                out[p] = ("file", get(e.path))
    if os.path.isdir(root):
        go(root, "")
    return out


def ancestors(p):
    out = []
    while "/" in p:
        p = p.rsplit("/", 1)[0]
        out.append(p)
    return out


def under(d, p):
    return p == d or p.startswith(d + "/")


class Scratch:
    """A scratch directory with an own home directory."""
    def __init__(self, base, suffix=""):
        self.d = tempfile.mkdtemp(prefix="zc-", suffix=suffix, dir=base)
        os.makedirs(self.d + "/home")
        os.environ["HOME"] = self.d + "/home"
        os.environ["XDG_CONFIG_HOME"] = self.d + "/home/.config"
        os.environ["XDG_DATA_HOME"] = self.d + "/home/.local"
        self.profiles = self.d + "/home/.config/zielen/profiles"

    def close(self):
        for dp, dn, fn in os.walk(self.d):
            try:
                os.chmod(dp, 0o700)
            except OSError:
                pass
        shutil.rmtree(self.d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    """Silence the code under test."""
    out, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield sys.stdout
    finally:
        sys.stdout, sys.stderr = out, err


class Client:
    """An initialized profile."""
    def __init__(self, sc, local="local", remote="remote", limit="1000000KiB", extra="", exclude=None,
                 add_remote=False, name=None, init=True):
        self.sc = sc
        self.L, self.R = sc.d + "/" + local, sc.d + "/" + remote
        os.makedirs(self.L, exist_ok=True)
        os.makedirs(self.R, exist_ok=True)
        self.name = name or "v%d-%d" % (os.getpid(), next(_names))
        self.template = sc.d + "/template-" + self.name
        self.limit, self.extra = limit, extra
        put(self.template, "LocalDir=%s\nRemoteDir=%s\nStorageLimit=%s\n%s" % (self.L, self.R, limit, extra))
        self.exclude_file = None
        if exclude is not None:
            self.exclude_file = sc.d + "/exclude-" + self.name
            put(self.exclude_file, exclude)
        self.add_remote = add_remote
        self.dir = sc.profiles + "/" + self.name
        if init:
            self.init()

    def init(self):
        from zielen.commands.init import InitCommand
        with quiet():
            c = InitCommand(self.name, exclude=self.exclude_file, template=self.template, add_remote=self.add_remote)
            c.main()
        return c

    def config(self, limit=None, extra=None):
        self.limit = limit or self.limit
        self.extra = self.extra if extra is None else extra
        put(self.dir + "/config", "LocalDir=%s\nRemoteDir=%s\nStorageLimit=%s\n%s" % (
            self.L, self.R, self.limit, self.extra))

    def sync(self):
        from zielen.commands.sync import SyncCommand
        with quiet():
            c = SyncCommand(self.name)
            c.main()
        return c

    def reset(self, **kw):
        from zielen.commands.reset import ResetCommand
        with quiet():
            c = ResetCommand(self.name, **kw)
            c.main()
        return c

    def open(self):
        """A set up command and its files manager, as inside of a sync."""
        from zielen.commands.sync import SyncCommand
        from zielen.filelogic import FilesManager
        with quiet():
            c = SyncCommand(self.name)
            c.setup_profile()
        fm = FilesManager(c.local_dir, c.remote_dir, c.profile)
        return c, fm

    def db(self):
        """Committed contents of the profile database: {path: (directory, priority, local)}."""
        return read_db(self.dir + "/local.db", "directory, priority, local")

    def rdb(self):
        return read_db(self.R + "/.zielen/remote.db", "directory, lastsync")

    def info(self):
        return json.loads(get(self.dir + "/info.json"))


def read_db(path, cols):
    con = real_connect(path)
    try:
        return {r[0]: tuple(r[1:]) for r in con.execute("SELECT path, %s FROM nodes" % cols).fetchall()}
    finally:
        con.close()


def peek_db(path, cols, tmp):
    """The content of a database that may just be being deleted, without opening it."""
    d = tempfile.mkdtemp(dir=tmp)
    try:
        for e in ("", "-wal"):
            if os.path.isfile(path + e):
                with open(path + e, "rb") as f, open(d + "/db" + e, "wb") as g:
                    g.write(f.read())
        return read_db(d + "/db", cols)
    finally:
        real_rmtree(d)


real_connect, real_rmtree = sqlite3.connect, shutil.rmtree


def close(c):
    """Release what a half-run command holds."""
    for o in (getattr(c, "lock_socket", None),):
        try:
            o.close()
        except Exception:
            pass
    for o in (getattr(c, "remote_dir", None), getattr(c, "profile", None)):
        try:
            o._db_file._conn.rollback()
            o._db_file._conn.close()
        except Exception:
            pass


# --- generated trees ----------------------------------------------------------------

NAMES = ["a", "b", "c", "a b", "ab", "a-b", "a.txt", "a.tar.gz", ".h", "é", "a+", "%d", "a'b", "Aa", "x_y", "_", "b.d"]


def gen_tree(rng, n=None, dirs=0.4, names=NAMES):
    """{path: "dir"|"file"} closed under parents."""
    n = rng.randint(1, 10) if n is None else n
    t = {}
    for _ in range(n):
        ds = [p for p, k in t.items() if k == "dir" and p.count("/") < 3]
        parent = rng.choice(ds) + "/" if ds and rng.random() < 0.6 else ""
        p = parent + rng.choice(names)
        if p not in t:
            t[p] = "dir" if rng.random() < dirs else "file"
    return t


def subtree(rng, t, keep=0.7):
    """A random subset of a tree, closed under parents."""
    out = {}
    for p in sorted(t, key=lambda p: (p.count("/"), p)):
        if all(a in out for a in ancestors(p)) and rng.random() < keep:
            out[p] = t[p]
    return out


def mk(root, t, data=None):
    for p in sorted(t, key=lambda p: (p.count("/"), p)):
        k = t[p]
        if k == "dir":
            os.makedirs(os.path.join(root, p), exist_ok=True)
        elif k == "file":
            put(os.path.join(root, p), (data or {}).get(p, "data of " + p))
        else:
            os.makedirs(os.path.dirname(os.path.join(root, p)), exist_ok=True)
            os.symlink(k[1], os.path.join(root, p))


# --- tracing and fault injection ----------------------------------------------------

class Trace:
    """Records primitive operations on the file system and databases; can fail or stop at the n-th one.

    pre(kind, paths) is called before, post(kind, paths) after each operation."""
    WRITES = ("remove", "unlink", "rmdir", "rename", "replace", "symlink", "mkdir", "link", "utime", "chmod", "truncate")

    def __init__(self, root, fault_at=None, fault=None, pre=None, post=None, only=None):
        self.root, self.fault_at, self.fault, self.pre, self.post, self.only = root, fault_at, fault, pre, post, only
        self.n, self.ops, self.saved = 0, [], []

    def path(self, p, dir_fd=None):
        if isinstance(p, os.DirEntry) or hasattr(p, "path"):
            p = p.path
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if dir_fd is not None and isinstance(p, str):
            try:
                p = os.path.join(os.readlink("/proc/self/fd/%d" % dir_fd), p)
            except OSError:
                pass
        return os.path.abspath(p) if isinstance(p, str) else str(p)

    def step(self, kind, paths):
        self.ops.append((kind,) + tuple(paths))
        if self.pre:
            self.pre(kind, paths)
        if self.only is None or kind in self.only:
            self.n += 1
            if self.fault_at is not None and self.n == self.fault_at:
                self.fault(kind, paths)

    def wrap(self, mod, name, kind=None):
        f = getattr(mod, name)
        two = name in ("rename", "replace", "symlink", "link")
        kind = kind or name

        def w(*a, **k):
            fd = k.get("dir_fd") if not two else k.get("src_dir_fd")
            if two and name == "symlink":
                ps = [str(a[0] if a else k.get("src")), self.path(a[1] if len(a) > 1 else k.get("dst"), k.get("dir_fd"))]
            elif two:
                ps = [self.path(a[0] if a else k.get("src"), fd), self.path(a[1] if len(a) > 1 else k.get("dst"), k.get("dst_dir_fd"))]
            else:
                ps = [self.path(a[0] if a else k.get("path"), fd)]
            self.step(kind, ps)
            r = f(*a, **k)
            if self.post:
                self.post(kind, ps)
            return r
        self.saved.append((mod, name, f))
        setattr(mod, name, w)

    def __enter__(self):
        for n in self.WRITES:
            self.wrap(os, n)
        me = self

        def t_open(file, mode="r", *a, **k):
            if isinstance(mode, str) and any(c in mode for c in "wax+") and isinstance(file, (str, os.PathLike)):
                me.step("write", [me.path(file)])
            return real_open(file, mode, *a, **k)
        self.saved.append((builtins, "open", builtins.open))
        builtins.open = t_open
        self.saved.append((shutil, "_USE_CP_SENDFILE", getattr(shutil, "_USE_CP_SENDFILE", None)))
        shutil._USE_CP_SENDFILE = False
        real_cf = shutil.copyfileobj

        def t_copyfileobj(src, dst, *a, **k):
            data = src.read()
            half = data[:len(data) // 2]
            dst.write(half)
            dst.flush()
            me.step("copying", [me.path(getattr(src, "name", "?")), me.path(getattr(dst, "name", "?"))])
            dst.write(data[len(half):])
        self.saved.append((shutil, "copyfileobj", real_cf))
        shutil.copyfileobj = t_copyfileobj
        self.wrap(shutil, "copystat", "copystat") if False else None
        real_conn = sqlite3.connect

        class Conn(sqlite3.Connection):
            zpath = None

            def commit(self):
                if self.in_transaction:
                    me.step("commit", [self.zpath or "?"])
                return super().commit()

            def close(self):
                return super().close()

        def t_connect(path, *a, **k):
            k.setdefault("factory", Conn)
            c = real_conn(path, *a, **k)
            try:
                c.zpath = path
            except AttributeError:
                pass
            return c
        self.saved.append((sqlite3, "connect", real_conn))
        sqlite3.connect = t_connect
        return self

    def __exit__(self, *exc):
        for mod, name, f in reversed(self.saved):
            setattr(mod, name, f)
        self.saved = []
        return False


def raiser(exc):
    def f(kind, paths):
        raise exc
    return f


def in_child(fn):
    """Run fn in a forked child; returns (exit status, output)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            msg = fn()
            os.write(w, (msg or "").encode()[:60000])
            code = 0
        except Violation as e:
            os.write(w, ("VIOLATION " + str(e)).encode()[:60000])
            code = 3
        except BaseException:
            os.write(w, traceback.format_exc().encode()[-60000:])
            code = 4
        finally:
            os._exit(code)
    os.close(w)
    out = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        out += b
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    return (os.WEXITSTATUS(st) if os.WIFEXITED(st) else -1), out.decode(errors="replace")


def stop(kind, paths):
    """Fault: the process dies."""
    os._exit(77)


# --- running ------------------------------------------------------------------------

def blame(e):
    """Is an unexpected exception the fault of the code under test?"""
    tb = traceback.extract_tb(e.__traceback__)
    if not any("/zielen/" in f.filename for f in tb):
        return False
    if isinstance(e, OSError) and e.errno in (errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.ENOSPC) and "injected" not in str(e):
        return False
    # an API that the harness expects is not there (the harness called it wrongly)
    if isinstance(e, (AttributeError, TypeError, ImportError, NameError)):
        last = [f for f in tb if "/zielen/" in f.filename or f.filename.startswith(HERE)]
        return "/zielen/" in last[-1].filename and not last[-1].filename.startswith(HERE)
    return True


ODD = ("[a-z]", "[x]y", "*", "?", " b", "%41", "_", "#c", "=", "\u00e9", "'", '"', "$HOME", "~", ";", "\\", "&", "(", "{1}", "%s", ".zielen", "|", "--")


def run_case(fn, seed, name, index, base):
    rng = random.Random("%s/%s/%s" % (seed, name, index))
    # directories may have any name
    odd = random.Random("%s/%s/%s/name" % (seed, name, index))
    sc = Scratch(base, odd.choice(ODD) if odd.random() < 0.3 else "")
    cwd = os.getcwd()
    try:
        fn(rng, sc)
    finally:
        os.chdir(cwd)
        sc.close()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", default="1")
    ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--case", type=int)
    ap.add_argument("--only")
    ap.add_argument("--maxcases", type=int, default=100000)
    a = ap.parse_args()
    base = os.environ.get("SCRATCH") or tempfile.gettempdir()
    # nothing that the code under test registers may run at the end of this process
    import atexit
    atexit.register = lambda f, *x, **k: f
    atexit.unregister = lambda f: None
    os.umask(0o022)
    sys.modules["harness"] = sys.modules["__main__"]
    mod = importlib.import_module("cases")
    checks = mod.CHECKS[a.prop]
    if a.only:
        checks = [c for c in checks if c.__name__ == a.only]
    t0 = real_time()
    res = {"property": a.prop, "seed": a.seed, "evaluations": 0, "skipped": 0, "harness_errors": [], "checks": {},
           "violation": None}
    idx = a.case if a.case is not None else 0
    skips = {c.__name__: 0 for c in checks}
    broken = set()
    while res["violation"] is None:
        for c in checks:
            if c.__name__ in broken:
                continue
            if a.case is None and real_time() - t0 > a.budget and (idx > 0 or real_time() - t0 > 4 * a.budget):
                break
            why = None
            try:
                run_case(c, a.seed, c.__name__, idx, base)
                res["evaluations"] += 1
                res["checks"][c.__name__] = res["checks"].get(c.__name__, 0) + 1
            except Skip as e:
                res["skipped"] += 1
            except Violation as e:
                why = str(e)
            except (Exception, SystemExit, KeyboardInterrupt) as e:
                if blame(e):
                    why = "unexpected failure: " + "".join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:]
                else:
                    broken.add(c.__name__)
                    res["harness_errors"].append(traceback.format_exc()[-1500:])
            if why:
                res["violation"] = {"check": c.__name__, "case": idx, "seed": a.seed, "what": why[:4000]}
                break
        idx += 1
        if idx % 50 == 0:
            gc.collect()
        if a.case is not None or idx >= a.maxcases or real_time() - t0 > a.budget or len(broken) == len(checks):
            break
    res["secs"] = round(real_time() - t0, 2)
    sys.stdout.flush()
    print(json.dumps(res))
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
