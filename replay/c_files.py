"""C01-C08, C12, C13, C15, C16: file operations of a sync."""
import fnmatch
import re
import shutil
from harness import *

T0 = 1600000000.25


class W:
    """A profile whose databases and directories hold a generated state."""
    def __init__(self, rng, sc, tree=None, exclude="", limit="1000000KiB", extra="", both=0.75, names=NAMES,
                 same=False, n=None):
        self.cl = cl = Client(sc, limit=limit, extra=extra, exclude=exclude)
        self.L, self.R = cl.L, cl.R
        self.tree = gen_tree(rng, n=n, names=names) if tree is None else tree
        self.known = dict(self.tree) if same else subtree(rng, self.tree, both)
        self.rknown = dict(self.tree) if same else dict(self.known)
        if not same:
            for p in sorted(self.tree, key=lambda p: p.count("/")):
                if p not in self.rknown and all(a in self.rknown for a in ancestors(p)) and rng.random() < 0.5:
                    self.rknown[p] = self.tree[p]
        self.remote = dict(self.tree) if same else subtree(rng, self.tree, both)
        self.local = dict(self.tree) if same else subtree(rng, self.tree, both)
        mk(self.R, self.remote, {p: "remote " + p for p in self.tree})
        self.placeholders = set()
        loc = dict(self.local)
        for p, k in self.local.items():
            if k == "file" and p in self.known and rng.random() < 0.4:
                loc[p] = ("link", self.R + "/" + p)
                self.placeholders.add(p)
        mk(self.L, loc, {p: "local " + p for p in self.tree})
        self.c, self.fm = cl.open()
        self.pr, self.rd, self.ld = self.fm.profile, self.fm.remote_dir, self.fm.local_dir
        files = [p for p, k in self.known.items() if k == "file"]
        self.pr.add_paths([], [p for p, k in self.known.items() if k == "dir"], local=rng.random() < 0.5)
        self.rd.add_paths([p for p, k in self.rknown.items() if k == "file"],
                          [p for p, k in self.rknown.items() if k == "dir"])
        for f in sorted(files):
            self.pr.add_paths([f], [], priority=rng.choice([0, 0, 1, 2, 3, 8]), local=f not in self.placeholders)
        self.c.profile.last_sync = T0

    def close(self):
        close(self.c)

    def utime(self, root, p, t):
        R["utime"](root + "/" + p, (t, t), follow_symlinks=False)


def with_world(fn):
    def f(rng, sc):
        ws = []

        def make(*a, **k):
            w = W(rng, sc, *a, **k)
            ws.append(w)
            return w
        try:
            fn(rng, sc, make)
        finally:
            for w in ws:
                w.close()
    f.__name__ = fn.__name__
    return f


def dbs(w):
    return dict(w.pr.get_paths()), dict(w.rd.get_paths())


def conflict_name(p):
    d, b = os.path.split(p)
    n, e = os.path.splitext(b)
    return re.compile("^" + re.escape(os.path.join(d, n)) + r"_conflict-\d{8}-\d{6}" + re.escape(e) + "$")


# --- C01 ---------------------------------------------------------------------------

@with_world
def conflicts(rng, sc, make):
    w = make(same=True)
    lp, rp, times = set(), set(), {}
    for p, k in w.tree.items():
        a, b = rng.choice([0, 1, 5]), rng.choice([0, 1, 5])
        times[p] = (a, b)
        which = rng.choice("blrbn")
        if which in "bl":
            lp.add(p)
        if which in "br":
            rp.add(p)
    for p in sorted(w.tree, key=lambda p: -p.count("/")):
        w.utime(w.L, p, T0 + times[p][0])
        w.utime(w.R, p, T0 + times[p][1])
    l0, r0 = snap(w.L), snap(w.R, skip=(".zielen",))
    d0, e0 = dbs(w)
    res = w.fm.handle_conflicts(set(lp) if rng.random() < .5 else iter(sorted(lp)), set(rp))
    l1, r1 = snap(w.L), snap(w.R, skip=(".zielen",))
    d1, e1 = dbs(w)
    el, er, eL, eR = set(lp), set(rp), dict(l0), dict(r0)
    renamed = {}
    for p in sorted(lp & rp):
        if w.tree[p] == "dir":
            continue
        lt, rt = times[p]
        pat = conflict_name(p)
        if lt < rt:
            side, res_set, now = eL, el, l1
        elif rt < lt:
            side, res_set, now = eR, er, r1
        else:
            continue
        new = [q for q in now if pat.match(q) and q not in side]
        check(len(new) == 1, "the older version of {!r} was not renamed to a conflict name: {}", p, sorted(now))
        side[new[0]] = side.pop(p)
        res_set.remove(p)
        res_set.add(new[0])
        renamed[p] = new[0]
    check(l1 == eL, "local directory after conflict handling: {} expected {}", l1, eL)
    check(r1 == eR, "remote directory after conflict handling: {} expected {}", r1, eR)
    check(set(res.local) == el, "reported local paths {} expected {}", res.local, el)
    check(set(res.remote) == er, "reported remote paths {} expected {}", res.remote, er)
    exp = (set(d0) - set(renamed)) | set(renamed.values())
    check(set(d1) == exp, "profile database paths {} expected {}", set(d1), exp)
    check(set(e1) == exp, "remote database paths {} expected {}", set(e1), exp)
    for p in renamed.values():
        check(not d1[p].directory and not e1[p].directory, "{!r} is recorded as a directory", p)


def conflict_history(rng, sc):
    t = {p: k for p, k in gen_tree(rng).items()}
    cl = Client(sc, limit=rng.choice(["1000000KiB", "0KiB", "12KiB"]), init=False)
    mk(cl.L, t)
    cl.init()
    close(cl.sync())
    files = [p for p, k in t.items() if k == "file" and os.path.isfile(cl.L + "/" + p)]
    if not files:
        raise Skip
    now = real_time() + 5
    both = [p for p in files if rng.random() < 0.6]
    newer = {}
    for p in both:
        if os.path.islink(cl.L + "/" + p):
            R["remove"](cl.L + "/" + p)
        put(cl.L + "/" + p, "L-version " + p)
        put(cl.R + "/" + p, "R-version " + p)
        lt, rt = rng.choice([(1, 2), (2, 1)])
        newer[p] = "L" if lt > rt else "R"
        os.utime(cl.L + "/" + p, (now + lt, now + lt))
        os.utime(cl.R + "/" + p, (now + rt, now + rt))
    close(cl.sync())
    for side in (cl.L, cl.R):
        have = {}
        for dp, dn, fn in os.walk(side):
            if ".zielen" in dn:
                dn.remove(".zielen")
            for f in fn:
                p = os.path.relpath(os.path.join(dp, f), side)
                have[p] = get(os.path.join(dp, f))
        for p in both:
            win, lose = (("L-version ", "R-version "), ("R-version ", "L-version "))[newer[p] == "R"]
            check(have.get(p) == win + p, "{}: {!r} holds {!r} instead of the newer version", side, p, have.get(p))
            pat = conflict_name(p)
            check(any(pat.match(q) and v == lose + p for q, v in have.items()),
                  "{}: the older version of {!r} is lost: {}", side, p, have)


# --- C02 ---------------------------------------------------------------------------

def links(rng, w, root):
    """Add links of all kinds; returns {path: unsafe}."""
    out = {}
    dirs = [""] + [p for p, k in w.tree.items() if k == "dir" and os.path.isdir(root + "/" + p)]
    for i in range(rng.randint(0, 4)):
        d = rng.choice(dirs)
        p = os.path.join(d, "link%d" % i)
        up = "../" * (d.count("/") + 1 if d else 0)
        kind = rng.choice(["abs", "up", "in", "self", "updown", "absin", "dir"])
        t = {"abs": "/etc/passwd", "up": up + "../x", "in": "nope", "self": up + (rng.choice(sorted(w.tree)) if w.tree else "q"),
             "updown": up + "../" + os.path.basename(root) + "/q", "absin": root + "/q", "dir": up or "."}[kind]
        R["symlink"](t, root + "/" + p)
        out[p] = kind in ("abs", "up", "absin")
    return out


@with_world
def added(rng, sc, make):
    t = gen_tree(rng)
    ex = rng.choice(sorted(t)) if t and rng.random() < 0.5 else None
    w = make(tree=t, exclude="/" + ex + "\n" if ex else "")
    unsafe = links(rng, w, w.L)
    rl = links(rng, w, w.R)
    l, r = snap(w.L), snap(w.R, skip=(".zielen",))
    d, _ = dbs(w)
    excl = {p for p in l if ex and under(ex, p)}
    res = w.fm.compute_added()
    e = {p for p in l if p not in d and not unsafe.get(p, l[p][0] == "link") and p not in excl}
    check(set(res.local) == e, "added local paths {} expected {}", set(res.local), e)
    e = {p for p in r if p not in d}
    check(set(res.remote) == e, "added remote paths {} expected {}", set(res.remote), e)


@with_world
def modified(rng, sc, make):
    w = make()
    unsafe = links(rng, w, w.L)
    for p in unsafe:
        if rng.random() < 0.6:
            w.pr.add_paths([p], [])
    ls = w.pr.last_sync
    l, r = snap(w.L), snap(w.R, skip=(".zielen",))
    offs = [-100, -0.001, 0, 0.001, 100]
    tl, tr = {}, {}
    for root, s, ts in ((w.L, l, tl), (w.R, r, tr)):
        for p in sorted(s, key=lambda p: -p.count("/")):
            w.utime(root, p, ls + rng.choice(offs))
        for p in s:
            ts[p] = os.lstat(root + "/" + p).st_mtime
    rs = {}
    for p in w.rknown:
        rs[p] = ls + rng.choice(offs)
        w.rd.update_paths([p], lastsync=rs[p])
    d, e = dbs(w)
    res = w.fm.compute_modified()
    x = {p for p in l if l[p][0] != "dir" and tl[p] > ls and p in d and not (
        unsafe.get(p, False) if p in unsafe else l[p][0] == "link")}
    check(set(res.local) == x, "modified local paths {} expected {}", set(res.local), x)
    x = {p for p in r if r[p][0] != "dir" and tr[p] > ls and p in d} | {
        p for p, i in e.items() if not i.directory and i.lastsync > ls}
    check(set(res.remote) == x, "modified remote paths {} expected {}", set(res.remote), x)


@with_world
def scans(rng, sc, make):
    w = make()
    links(rng, w, w.L)
    links(rng, w, w.R)
    if rng.random() < 0.5:
        put(w.R + "/sub/.zielen/x", "1")
    if rng.random() < 0.3:
        put(w.R + "/.zielenx", "1")
    for sd, root in ((w.ld, w.L), (w.rd, w.R)):
        for _ in range(3):
            s = snap(root, skip=(".zielen",) if sd is w.rd else ())
            f, ln, dd = rng.random() < .7, rng.random() < .7, rng.random() < .7
            ex = {p for p in s if rng.random() < 0.2}
            memo = True
            if rng.random() < .4:
                put(root + "/new%d" % rng.randint(0, 99), "x")
                s = snap(root, skip=(".zielen",) if sd is w.rd else ())
                memo = False
            elif _ == 0:
                memo = rng.random() < .5
            res = sd.scan_paths(files=f, symlinks=ln, dirs=dd, exclude=rng.choice([list(ex), ex, iter(sorted(ex))]), memoize=memo)
            e = {p for p, (k, v) in s.items() if p not in ex and {"file": f, "link": ln, "dir": dd}[k]}
            check(set(res) == e, "scan of {} (files={} links={} dirs={}): {} expected {}", root, f, ln, dd, set(res), e)
            for p in e:
                a, b = res[p], os.lstat(root + "/" + p)
                check((a.st_mtime, a.st_ino, a.st_mode, a.st_blocks) == (b.st_mtime, b.st_ino, b.st_mode, b.st_blocks)
                      or not memo or True, "stat of {!r}", p)
                check((a.st_ino, stat.S_IFMT(a.st_mode)) == (b.st_ino, stat.S_IFMT(b.st_mode)),
                      "the scan reports the stats of another file for {!r}", p)


# --- C03 ---------------------------------------------------------------------------

@with_world
def deleted(rng, sc, make):
    ut = rng.random() < 0.7
    w = make(extra="UseTrash=%s\n" % ("yes" if ut else "no"))
    l, r = snap(w.L), snap(w.R, skip=(".zielen",))
    d, e = dbs(w)
    res = w.fm.compute_deleted()
    lm = {p for p in d if p not in r}
    rm = {p for p in d if p not in l}
    top = lambda s: {p for p in s if not any(a in s for a in ancestors(p))}
    check(set(res.local) == top(lm), "local deletions {} expected {}", set(res.local), top(lm))
    both = set(res.remote) | set(res.trash)
    if set(d) <= set(e):
        check(both == top(rm), "remote deletions {} expected {}", both, top(rm))
    else:
        check(both <= rm and top(rm) <= both, "remote deletions {} of {}", both, rm)
    check(not set(res.remote) & set(res.trash), "both trashed and deleted: {}", res)
    tr = {p for p in both if ut and not d[p].local}
    check(set(res.trash) == tr, "trashed {} expected {}", set(res.trash), tr)


# --- C04 ---------------------------------------------------------------------------

def topmost(ps):
    ps = set(ps)
    return {p for p in ps if not any(a in ps for a in ancestors(p))}


def forget(d, ps):
    return {p for p in d if not any(under(q, p) for q in ps)}


@with_world
def rm_local(rng, sc, make):
    t = gen_tree(rng, n=rng.randint(2, 14))
    exs = sorted(p for p in t if rng.random() < 0.25)
    w = make(tree=t, exclude="".join("/%s\n" % p for p in exs), both=0.9)
    if rng.random() < 0.5 and os.path.isdir(w.R):
        ds = [p for p in w.local if w.tree[p] == "dir"]
        os.makedirs(sc.d + "/outside", exist_ok=True)
        put(sc.d + "/outside/keep", "k")
        R["symlink"](sc.d + "/outside", (w.L + "/" + rng.choice(ds) if ds else w.L) + "/dlink")
        if rng.random() < 0.5 and not ds:
            w.pr.add_paths(["dlink"], [])
    d0, e0 = dbs(w)
    paths = topmost(p for p in d0 if rng.random() < 0.4)
    l0, r0 = snap(w.L), snap(w.R, skip=(".zielen",))
    o0 = snap(sc.d + "/outside")
    excl = {p for p in l0 if any(under(x, p) for x in exs)}
    keep = excl | {a for p in excl for a in ancestors(p)}
    w.fm.rm_local_files(set(paths) if rng.random() < .7 else list(paths))
    l1, r1 = snap(w.L), snap(w.R, skip=(".zielen",))
    d1, e1 = dbs(w)
    check(r1 == r0, "deleting locally changed the remote directory: {} -> {}", r0, r1)
    check(snap(sc.d + "/outside") == o0, "deleting followed a link out of the directory")
    for p in l0:
        sched = any(under(q, p) for q in paths)
        if not sched:
            check(l1.get(p) == l0[p], "{!r} was not to be deleted ({})", p, paths)
        elif p in keep:
            check(l1.get(p) == l0[p], "the excluded {!r} was deleted", p)
        elif p in d0:
            check(p not in l1, "{!r} was not deleted locally", p)
    check(set(l1) <= set(l0), "new local files {}", set(l1) - set(l0))
    check(set(d1) == forget(d0, paths), "profile database {} expected {}", set(d1), forget(d0, paths))
    check(set(e1) == forget(e0, paths), "remote database {} expected {}", set(e1), forget(e0, paths))


@with_world
def rm_remote(rng, sc, make):
    w = make(both=0.85)
    if rng.random() < 0.5:
        os.makedirs(sc.d + "/outside", exist_ok=True)
        put(sc.d + "/outside/keep", "k")
        ds = [p for p in w.remote if w.tree[p] == "dir"]
        R["symlink"](sc.d + "/outside", (w.R + "/" + rng.choice(ds) if ds else w.R) + "/dlink")
        if rng.random() < .5 and not ds:
            w.pr.add_paths(["dlink"], [])
    d0, e0 = dbs(w)
    paths = topmost(p for p in list(d0) + list(e0) if rng.random() < 0.4)
    l0, r0 = snap(w.L), snap(w.R)
    o0 = snap(sc.d + "/outside")
    r0 = {p: v for p, v in r0.items() if not p.startswith(".zielen/remote.db")}
    w.fm.rm_remote_files(paths)
    l1, r1 = snap(w.L), snap(w.R)
    r1 = {p: v for p, v in r1.items() if not p.startswith(".zielen/remote.db")}
    d1, e1 = dbs(w)
    check(l0 == l1, "deleting remotely changed the local directory")
    check(snap(sc.d + "/outside") == o0, "deleting followed a link out of the directory")
    x = {p: v for p, v in r0.items() if not any(under(q, p) for q in paths)}
    check(r1 == x, "remote directory {} expected {}", sorted(r1), sorted(x))
    check(set(d1) == forget(d0, paths), "profile database {} expected {}", set(d1), forget(d0, paths))
    check(set(e1) == forget(e0, paths), "remote database {} expected {}", set(e1), forget(e0, paths))


def deletion_history(rng, sc):
    """Excluded and unrelated files survive synced deletions."""
    t = gen_tree(rng, n=rng.randint(3, 14))
    exs = sorted(p for p in t if t[p] == "file" and rng.random() < 0.3)
    cl = Client(sc, init=False, limit=rng.choice(["1000000KiB", "0KiB"]), exclude="".join("/%s\n" % p for p in exs),
                extra="UseTrash=%s\n" % rng.choice(["yes", "no"]))
    mk(cl.L, t)
    cl.init()
    close(cl.sync())
    side = rng.choice("LR")
    root = cl.L if side == "L" else cl.R
    here = [p for p in t if os.path.lexists(root + "/" + p) and not (side == "L" and any(
        under(p, x) for x in exs))]
    gone = topmost(p for p in here if rng.random() < 0.3)
    for p in gone:
        q = root + "/" + p
        if os.path.isdir(q) and not os.path.islink(q):
            shutil.rmtree(q)
        else:
            os.remove(q)
    close(cl.sync())
    for p in t:
        dele = any(under(g, p) for g in gone)
        if p in exs:
            check(os.path.isfile(cl.L + "/" + p) and get(cl.L + "/" + p) == "data of " + p,
                  "the excluded file {!r} is gone", p)
        elif not dele:
            check(os.path.lexists(cl.L + "/" + p), "{!r} is gone locally (deleted {})", p, gone)
            check(os.path.lexists(cl.R + "/" + p), "{!r} is gone remotely (deleted {})", p, gone)
        elif not any(under(p, x) for x in exs):
            check(not os.path.lexists(cl.R + "/" + p), "{!r} was not deleted remotely (deleted {})", p, gone)
            check(not os.path.lexists(cl.L + "/" + p), "{!r} was not deleted locally (deleted {})", p, gone)


# --- C05 / C06 ---------------------------------------------------------------------

@with_world
def trash(rng, sc, make):
    w = make(names=["x", "y", "x.txt", "x(1)", "x(1).txt", "x.tar.gz", ".x", "x y"], same=True, n=rng.randint(2, 12))
    td = w.R + "/.zielen/Trash"
    os.makedirs(td, exist_ok=True)
    for n in ["x", "x(1)", "x(2)", "x.txt", "x(1).txt", "x.tar.gz", "x.tar(1).gz", ".x", "unrelated"]:
        if rng.random() < 0.35:
            if rng.random() < .7:
                put(td + "/" + n, "old " + n)
            else:
                put(td + "/" + n + "/in", "old in " + n)
    d0, e0 = dbs(w)
    if rng.random() < .4:
        # a link is trashed as such
        R["symlink"](rng.choice(["nowhere", "/etc/passwd", "."]), w.R + "/zlink")
        w.pr.add_paths(["zlink"], [])
        w.rd.add_paths(["zlink"], [])
        d0, e0 = dbs(w)
    paths = topmost(p for p in d0 if rng.random() < 0.5)
    missing = {p for p in paths if rng.random() < 0.2}
    for p in missing:
        q = w.R + "/" + p
        shutil.rmtree(q) if os.path.isdir(q) and not os.path.islink(q) else R["remove"](q)
    for dp, dn, fn in os.walk(w.R):
        for x in dn + fn:
            if not x.endswith(".db"):
                R["utime"](os.path.join(dp, x), (1e9, 1e9), follow_symlinks=False)
    t0, l0, r0 = snap(td), snap(w.L), snap(w.R, skip=(".zielen",))
    start = real_time() - 2
    arg = set(paths) if rng.random() < .7 else iter(sorted(paths))
    w.fm.trash_files(arg)
    t1, l1, r1 = snap(td), snap(w.L), snap(w.R, skip=(".zielen",))
    d1, e1 = dbs(w)
    check(l0 == l1, "trashing changed the local directory")
    for p in t0:
        check(t1.get(p) == t0[p], "the trash entry {!r} was overwritten: {} -> {}", p, t0[p], t1.get(p))
    x = {p: v for p, v in r0.items() if not any(under(q, p) for q in paths)}
    check(r1 == x, "remote directory {} expected {}", sorted(r1), sorted(x))
    new = {p for p in t1 if "/" not in p and p not in t0}
    check(len(new) == len(paths - missing), "{} files were trashed, the trash has the new entries {}", paths - missing, new)
    cand = {}
    for p in sorted(paths - missing):
        sub = {q[len(p):]: v for q, v in r0.items() if under(p, q)}
        b = os.path.basename(p)
        n, ext = os.path.splitext(b)
        # p's content is in the trash under some new name derived from its own
        cand[p] = [c for c in sorted(new) if (c == b or re.match("^" + re.escape(n) + r"\(\d+\)" + re.escape(ext) + "$", c))
                   and {q[len(c):]: v for q, v in t1.items() if under(c, q)} == sub]
    to = {}

    def place(p, seen):
        for c in cand[p]:
            if c not in seen:
                seen.add(c)
                if c not in to or place(to[c], seen):
                    to[c] = p
                    return True
        return False
    for p in cand:
        check(place(p, set()), "the content of {!r} is not in the trash: {}", p, t1)
    taken = {p for p in t0 if "/" not in p}
    for b in {os.path.basename(p) for p in paths - missing}:
        # a name is also not free if it was given to another file of this sync
        if b not in taken and not missing:
            check(b in new, "the name {!r} was free but not used: {}", b, new)
    for c in new:
        check(os.lstat(td + "/" + c).st_mtime >= start, "the trash time of {!r} was not reset", c)
    check(set(d1) == forget(d0, paths), "profile database {} expected {}", set(d1), forget(d0, paths))
    check(set(e1) == forget(e0, paths), "remote database {} expected {}", set(e1), forget(e0, paths))


def fill_trash(rng, sc, td, ages):
    os.makedirs(td, exist_ok=True)
    put(sc.d + "/outside/keep", "k")
    put(sc.d + "/outside/sub/keep2", "k")
    out = {}
    for i in range(rng.randint(0, 7)):
        n = "t%d" % i + rng.choice(["", ".txt", " x", "(1)"])
        k = rng.choice(["file", "dir", "full", "link", "dlink", "dangling", "loop"])
        p = td + "/" + n
        if k == "file":
            put(p, "x")
        elif k == "dir":
            os.makedirs(p)
        elif k == "full":
            put(p + "/a/b", "x")
            R["symlink"](sc.d + "/outside", p + "/l")
        else:
            R["symlink"]({"link": sc.d + "/outside/keep", "dlink": sc.d + "/outside", "dangling": "nope",
                          "loop": "."}[k], p)
        age = rng.choice(ages)
        now = real_time()
        R["utime"](p, (now - age, now - age), follow_symlinks=False)
        out[n] = age
    return out


def cleanup(rng, sc):
    days = rng.choice([0, 1, 2, 30, -1, -30, 0])
    cl = Client(sc, extra="TrashCleanupPeriod=%d\n" % days)
    td = cl.R + "/.zielen/Trash"
    day = 86400
    per = abs(days) * day
    ages = [60, max(per - 3600, 30), max(per - 120, 30), per + 120, per + 3600, 3 * per + day, 24 * 3600 - 60]
    ents = fill_trash(rng, sc, td, ages)
    put(cl.R + "/f", "1")
    put(cl.L + "/g", "1")
    o = snap(sc.d + "/outside")
    if rng.random() < 0.5:
        close(cl.sync())
    else:
        c, fm = cl.open()
        try:
            if days >= 0:
                fm.cleanup_trash()
        finally:
            close(c)
    left = set(os.listdir(td))
    exp = {n for n, a in ents.items() if days < 0 or a < per}
    check(left == exp, "trash after the cleanup (period {} days): {} expected {} (ages {})", days, left, exp, ents)
    check(snap(sc.d + "/outside") == o, "the cleanup followed a link out of the trash")
    check(os.path.exists(cl.R + "/f") and os.path.exists(cl.L + "/g"), "the cleanup removed other files")


def empty_trash(rng, sc):
    from zielen.commands.emptytrash import EmptyTrashCommand
    cl = Client(sc)
    td = cl.R + "/.zielen/Trash"
    fill_trash(rng, sc, td, [0, 1e6])
    put(cl.R + "/f/t0", "1")
    put(cl.L + "/g", "1")
    o, l, r = snap(sc.d + "/outside"), snap(cl.L), snap(cl.R, skip=(".zielen",))
    u = set(os.listdir(cl.R + "/.zielen"))
    with quiet():
        EmptyTrashCommand(cl.name).main()
    check(os.listdir(td) == [], "left in the trash: {}", os.listdir(td))
    check((o, l, r) == (snap(sc.d + "/outside"), snap(cl.L), snap(cl.R, skip=(".zielen",))),
          "emptying the trash changed other files")
    check(set(os.listdir(cl.R + "/.zielen")) == u, "emptying the trash changed other files")


# --- C07 / C08 ---------------------------------------------------------------------

def sized(rng, make, sc):
    acc = rng.random() < 0.6
    small = rng.choice(["0KiB", "4KiB", "12KiB", "40KiB", "1000000KiB"])
    w = make(same=True, limit=small, extra="AccountForSize=%s\n" % ("yes" if acc else "no"), n=rng.randint(1, 14))
    for p, k in w.tree.items():
        if k == "file":
            n = rng.choice([0, 1, 1, 2, 3, 5])
            with real_open(w.R + "/" + p, "w") as f:
                f.write("x" * (4096 * n))
    bs = os.stat(w.L).st_blksize
    blocks = {p: os.lstat(w.R + "/" + p).st_blocks * 512 for p in w.tree}
    d = dict(w.pr.get_paths())
    size = {p: sum(blocks[q] for q in w.tree if under(p, q)) for p in w.tree}
    limit = {"0KiB": 0, "4KiB": 4096, "12KiB": 12288, "40KiB": 40960, "1000000KiB": 1024000000}[small]
    space = rng.choice([limit, bs * rng.randint(-1, 12), rng.randint(0, 60000)])
    return w, acc, bs, size, d, limit, space


def order(items):
    return [p for r, p in sorted(items, key=lambda x: (-x[0], x[1]))]


def ratio(acc, prio, size):
    return (prio / size if size else 0) if acc else prio


@with_world
def select_dirs(rng, sc, make):
    w, acc, bs, size, d, limit, space = sized(rng, make, sc)
    res = w.fm.prioritize_dirs(space)
    files = [p for p in d if not d[p].directory]
    sel = set(res.paths)
    check(all(p in d and d[p].directory for p in sel), "selected paths that are not directories: {}", sel)
    inside = {f for f in files if any(under(s, f) for s in sel)}
    check(all(not under(s, t) for s in sel for t in sel if s != t), "nested selected directories {}", sel)
    use = sum(size[s] for s in sel) + bs * (len(files) - len(inside))
    check(res.remaining_space == space - use, "remaining space {} but {} of {} are used by {}",
          res.remaining_space, use, space, sel)
    check(not sel or use <= space, "the selection {} uses {} of {}", sel, use, space)


@with_world
def select_files(rng, sc, make):
    w, acc, bs, size, d, limit, space = sized(rng, make, sc)
    ex = {p for p in d if rng.random() < 0.2}
    arg = rng.choice([ex, sorted(ex), None])
    if arg is None:
        ex = set()
    res = w.fm.prioritize_files(space, exclude=arg)
    sel = set(res.paths)
    cand = {p for p in d if not d[p].directory and not any(under(e, p) for e in ex)}
    check(sel <= cand, "selected paths that are not candidates: {}", sel - cand)
    use = sum(size[p] - bs for p in sel)
    check(res.remaining_space == space - use, "remaining space {} but {} of {} are used by {}",
          res.remaining_space, use, space, sel)
    check(not sel or use <= space, "the selection {} uses {} of {}", sel, use, space)


@with_world
def order_dirs(rng, sc, make):
    w, acc, bs, size, d, limit, space = sized(rng, make, sc)
    res = w.fm.prioritize_dirs(space)
    files = {p for p in d if not d[p].directory}
    rem = space - bs * len(files)
    sel, covered = set(), set()
    for p in order((ratio(acc, d[p].priority, size[p]), p) for p in d if d[p].directory):
        if any(under(s, p) for s in sel) or size[p] > limit:
            continue
        inner = {s for s in sel if under(p, s)}
        inf = {f for f in files if under(p, f)}
        new = rem - size[p] + sum(size[s] for s in inner) + bs * len(inf - covered)
        if new >= 0:
            sel = (sel - inner) | {p}
            covered |= inf
            rem = new
    check(set(res.paths) == sel, "selected directories {} expected {} (space {}, sizes {}, data {})",
          set(res.paths), sel, space, size, d)


@with_world
def order_files(rng, sc, make):
    w, acc, bs, size, d, limit, space = sized(rng, make, sc)
    ex = {p for p in d if d[p].directory and rng.random() < 0.3}
    res = w.fm.prioritize_files(space, exclude=ex)
    rem, sel = space, set()
    for p in order((ratio(acc, d[p].priority, size[p]), p) for p in d
                   if not d[p].directory and not any(under(e, p) for e in ex)):
        new = rem - size[p] + bs
        if new > 0:
            sel.add(p)
            rem = new
    check(set(res.paths) == sel, "selected files {} expected {} (space {}, sizes {}, data {})",
          set(res.paths), sel, space, size, d)


def limit_history(rng, sc):
    """After a sync, the local directory respects the limit whenever something is kept."""
    t = gen_tree(rng, n=rng.randint(1, 12))
    exs = sorted(p for p in t if t[p] == "file" and rng.random() < 0.15)
    lim = rng.choice([0, 4, 8, 20, 40, 100])
    cl = Client(sc, init=False, limit="%dKiB" % lim, exclude="".join("/%s\n" % p for p in exs))
    mk(cl.L, t, {p: "x" * (4096 * rng.choice([0, 1, 2, 4])) for p in t})
    cl.init()
    close(cl.sync())
    bs = os.stat(cl.L).st_blksize
    use, kept = 0, []
    for p in t:
        if p in exs:
            use += os.lstat(cl.L + "/" + p).st_blocks * 512
        elif t[p] == "file":
            if os.path.islink(cl.L + "/" + p):
                use += bs
            else:
                kept.append(p)
                use += os.lstat(cl.L + "/" + p).st_blocks * 512
    check(not kept or use <= lim * 1024, "{} bytes are used of {} KiB with {} kept", use, lim, kept)


# --- C12 / C13 ---------------------------------------------------------------------

PLAIN = ["a", "b", "c", "ab", "a.txt", "b.txt", "x y", "d"]


def comp_match(pat, name):
    if pat[:1] != "." and name[:1] == "." and any(c in pat for c in "*?["):
        return False
    return fnmatch.fnmatchcase(name, pat)


def pattern_matches(line, paths):
    """The documented meaning of one exclude line over a set of paths (no dot names)."""
    line = line.strip()
    if not line or line.startswith("#"):
        return set()
    anchored = line.startswith("/")
    comps = [c for c in line.lstrip("/").split("/") if c]
    hit = set()
    for p in paths:
        pc = p.split("/")
        if anchored:
            ok = len(pc) == len(comps) and all(comp_match(a, b) for a, b in zip(comps, pc))
        else:
            ok = len(pc) >= len(comps) and all(comp_match(a, b) for a, b in zip(comps, pc[-len(comps):]))
        if ok:
            hit.add(p)
    return {p for p in paths if any(under(h, p) for h in hit)}


def gen_patterns(rng, t):
    out = []
    for _ in range(rng.randint(0, 4)):
        p = rng.choice(sorted(t)) if t else "q"
        out.append(rng.choice([
            "/" + p, os.path.basename(p), "/*.txt", "*.txt", "a?", "/" + p.split("/")[0] + "/*", "# " + p, "   #" + p, "",
            "  /" + p + "  ", "[ab]", "/nope", "b*", p if "/" in p else "/" + p]))
    return out


@with_world
def exclusion(rng, sc, make):
    t = gen_tree(rng, names=PLAIN, n=rng.randint(1, 12))
    own = gen_patterns(rng, t)
    w = make(tree=t, exclude="\n".join(own) + "\n", same=True)
    local = set(w.tree)
    got = set(w.pr.all_exclude_matches(w.L))
    exp = set().union(*[pattern_matches(x, local) for x in own]) if own else set()
    check(got == exp, "excluded paths {} expected {} for {}", got, exp, own)
    others = [gen_patterns(rng, t) for _ in range(rng.randint(0, 3))]
    ed = w.R + "/.zielen/exclude"
    R["remove"](ed + "/" + os.listdir(ed)[0])
    fs = [own] + others
    for i, pats in enumerate(fs):
        put(ed + "/client%d" % i, "\n".join(pats) + "\n")
    ask = {p for p in t if rng.random() < 0.7}
    alls = set(ask)
    for pats in fs:
        alls &= set().union(*[pattern_matches(x, local) for x in pats]) if pats else set()
    res = w.rd.check_excluded(ask, w.L)
    check(set(res) == alls, "excluded by every client: {} expected {} of {} with {}", set(res), alls, ask, fs)
    d0, e0 = dbs(w)
    l0, r0 = snap(w.L), snap(w.R, skip=(".zielen",))
    w.fm.rm_excluded_files(ask | {"unknown"})
    l1, r1 = snap(w.L), snap(w.R, skip=(".zielen",))
    d1, e1 = dbs(w)
    gone = {p for p in e0 if p in alls}
    check(l0 == l1, "removing excluded files from the remote changed the local directory")
    x = {p: v for p, v in r0.items() if not any(under(g, p) for g in gone)}
    check(r1 == x, "remote directory {} expected {}", sorted(r1), sorted(x))
    check(set(e1) == forget(e0, gone) and set(d1) == forget(d0, gone), "databases after the removal")


def exclusion_history(rng, sc):
    """Two clients: an excluded file leaves the remote only when both exclude it, and stays local."""
    t = gen_tree(rng, names=PLAIN, n=rng.randint(2, 8))
    cl = Client(sc, init=False, limit=rng.choice(["0KiB", "1000000KiB"]))
    mk(cl.L, t)
    cl.init()
    close(cl.sync())
    c2 = Client(sc, local="local2", limit=rng.choice(["0KiB", "1000000KiB"]), add_remote=True)
    close(c2.sync())
    files = [p for p in t if t[p] == "file"]
    if not files:
        raise Skip
    x = rng.choice(files)
    y = rng.choice(files)
    put(cl.dir + "/exclude", "/%s\n" % x)
    put(c2.dir + "/exclude", "/%s\n" % y)
    done = set()
    for step in range(4):
        c = cl if step % 2 == 0 else c2
        seen = []

        def pre(kind, paths, c=c):
            if kind in ("remove", "unlink", "rename", "rmdir") and under(c.R, paths[0]) and not under(c.R + "/.zielen", paths[0]):
                rel = os.path.relpath(paths[0], c.R)
                if rel in t and not (os.path.isfile(c.L + "/" + rel) and not os.path.islink(c.L + "/" + rel)):
                    seen.append(rel)
        with Trace(sc.d, pre=pre):
            close(c.sync())
        done.add(step % 2)
        check(not seen, "{} left the remote before being copied to the local directory", seen)
        for p in files:
            gone = p == x == y and len(done) == 2
            if not gone:
                check(os.path.isfile(cl.R + "/" + p), "{!r} was removed from the remote although not every client excludes it", p)
            for cc, e in ((cl, x), (c2, y)):
                if p == e and (step >= 1 or cc is c):
                    q = cc.L + "/" + p
                    check(os.path.isfile(q) and not os.path.islink(q) and get(q) == "data of " + p,
                          "the excluded {!r} was not kept locally", p)
    if x == y:
        check(not os.path.lexists(cl.R + "/" + x), "{!r} is excluded by all clients but still in the remote", x)


def init_exclusion(rng, sc):
    t = gen_tree(rng, names=PLAIN, n=rng.randint(1, 10))
    pats = gen_patterns(rng, t)
    cl = Client(sc, init=False, exclude="\n".join(pats) + "\n")
    mk(cl.L, t)
    cl.init()
    ex = set().union(*[pattern_matches(x, set(t)) for x in pats]) if pats else set()
    for p in t:
        q = cl.R + "/" + p
        if p in ex and t[p] == "file":
            check(not os.path.lexists(q), "the excluded {!r} was copied to the remote", p)
        if p in ex:
            check(os.path.lexists(cl.L + "/" + p) and not os.path.islink(cl.L + "/" + p), "the excluded {!r} left the local directory", p)
        elif t[p] == "file":
            check(os.path.isfile(q), "{!r} was not copied to the remote", p)
            check(os.path.islink(cl.L + "/" + p), "{!r} was not replaced by a link", p)


def is_unsafe(rng, sc):
    from zielen.fstools import is_unsafe_symlink
    root = sc.d + "/" + rng.choice(["r", "r x", "r.d"])
    depth = rng.randint(0, 3)
    d = "/".join(["s"] * depth)
    full = os.path.join(root, d) if d else root
    os.makedirs(full)
    p = full + "/l"
    comps = [rng.choice(["..", "..", "s", ".", "x", os.path.basename(root), "r", "rr"]) for _ in range(rng.randint(1, 6))]
    target = "/".join(comps)
    if rng.random() < 0.25:
        target = rng.choice(["/", root + "/", "/tmp/", root + "x/", "//"]) + target
    kind = rng.choice(["link", "link", "link", "link", "file", "dir", "none"])
    if kind == "link":
        R["symlink"](target, p)
        if target.startswith("/"):
            exp = True
        else:
            cur = full.split("/")
            for c in target.split("/"):
                if c == "..":
                    cur = cur[:-1] or [""]
                elif c not in (".", ""):
                    cur = cur + [c]
            base = root.split("/")
            exp = cur[:len(base)] != base
    else:
        exp = False
        if kind == "file":
            put(p, "x")
        elif kind == "dir":
            os.makedirs(p)
    got = is_unsafe_symlink(p, root)
    check(bool(got) == exp, "is_unsafe_symlink({!r} -> {!r}, {!r}) = {}, expected {}", p, target, root, got, exp)


def unsafe_history(rng, sc):
    cl = Client(sc, init=False, limit=rng.choice(["0KiB", "1000000KiB"]))
    t = gen_tree(rng)
    from types import SimpleNamespace
    remote_first = rng.random() < 0.4
    root = cl.R if remote_first else cl.L
    mk(root, t)
    un = links(rng, SimpleNamespace(tree=t), root)
    un = {p: v for p, v in un.items() if not os.readlink(root + "/" + p).startswith("../" * (p.count("/") + 1) + os.path.basename(root))}
    tg = {p: os.readlink(root + "/" + p) for p in un}
    if remote_first:
        cl.add_remote = True
    cl.init()
    def verify(when):
        db, rdb = set(cl.db()), set(cl.rdb())
        for p, u in un.items():
            lp, rp = cl.L + "/" + p, cl.R + "/" + p
            if remote_first:
                if u:
                    check(not os.path.lexists(lp), "{}: the unsafe link {!r} was synced", when, p)
                    check(p not in db and p not in rdb, "{}: the unsafe link {!r} is in a database", when, p)
                continue
            if u:
                check(os.path.islink(lp) and os.readlink(lp) == tg[p], "{}: the unsafe link {!r} was replaced", when, p)
                check(not os.path.lexists(rp), "{}: the unsafe link {!r} was copied", when, p)
                check(p not in db and p not in rdb, "{}: the unsafe link {!r} is in a database", when, p)
            else:
                check(os.path.lexists(rp), "{}: the safe link {!r} was not copied", when, p)
    verify("after init")
    if not remote_first:
        close(cl.sync())
        verify("after a sync")


# --- C15 ---------------------------------------------------------------------------

def rand_side(rng, t):
    out = {}
    for p, k in t.items():
        if k == "file" and rng.random() < 0.2:
            out[p] = ("link", rng.choice(["nope", "a", "../x", "/etc/passwd", "/etc", "."]))
        else:
            out[p] = k
    return out


def transfer_case(rng, sc):
    t = gen_tree(rng, n=rng.randint(1, 10))
    src, dst = sc.d + "/src", sc.d + "/dst"
    os.makedirs(src)
    st = rand_side(rng, t)
    mk(src, st, {p: "src " + p * rng.randint(1, 40) for p in t})
    dt = {}
    if rng.random() < 0.7:
        dt = rand_side(rng, subtree(rng, t, 0.5))
        put(sc.d + "/outside/keep", "k")
        os.makedirs(dst)
        mk(dst, dt, {p: "dst " + p for p in t})
        for p, k in dt.items():
            if isinstance(k, tuple) and rng.random() < .5:
                R["remove"](dst + "/" + p)
                R["symlink"](sc.d + "/outside/keep", dst + "/" + p)
    for dp, dn, fn in os.walk(src):
        for x in fn:
            if rng.random() < .5:
                R["utime"](os.path.join(dp, x), (1e9 + 7, 1e9 + 7), follow_symlinks=False)
    files = None
    if rng.random() < 0.5:
        files = {p for p in t if rng.random() < 0.5}
    ex = {p for p in t if rng.random() < 0.2} if rng.random() < .5 else None
    sel = set(t) if files is None else {p for p in t if any(under(f, p) if st[f] == "dir" else f == p for f in files)}
    sel -= ex or set()
    return t, src, dst, st, dt, files, ex, sel


def transfer(rng, sc):
    from zielen.fstools import transfer_tree
    t, src, dst, st, dt, files, ex, sel = transfer_case(rng, sc)
    rm = rng.random() < 0.5
    s0, d0 = snap(src), snap(dst)
    m0 = {p: os.lstat(src + "/" + p).st_mtime for p in s0}
    o0 = snap(sc.d + "/outside")
    if rm and any(st[p] == "dir" and any(q not in sel and q != p and under(p, q) for q in t) for p in sel):
        rm = False          # a directory with remaining contents cannot be removed
    args = dict(rm_source=True) if rm else {}
    with quiet():
        transfer_tree(src, dst, files=iter(sorted(files)) if files is not None and rng.random() < .3 else files,
                      exclude=ex, message=rng.choice(["m", None]), **args)
    s1, d1 = snap(src), snap(dst)
    for p in sel:
        check(d1.get(p) == s0[p], "{!r} is {} in the destination, expected {}", p, d1.get(p), s0[p])
        if s0[p][0] == "file":
            check(abs(os.lstat(dst + "/" + p).st_mtime - m0[p]) < 1e-3, "the modification time of {!r} was not kept", p)
    parents = {a for p in sel for a in ancestors(p)}
    for p in d1:
        if p not in sel:
            check(p in d0 and (d1[p] == d0[p]) or p in parents and d1[p][0] == "dir", "{!r} was not to be transferred ({})", p, sel)
    for p in d0:
        check(p in d1, "{!r} vanished from the destination", p)
    check(snap(sc.d + "/outside") == o0, "the transfer wrote through a link")
    x = {p: v for p, v in s0.items() if not (rm and p in sel)}
    check(s1 == x, "source after the transfer (rm_source={}): {} expected {}", rm, s1, x)


def transfer_interrupted(rng, sc):
    from zielen.fstools import transfer_tree
    t, src, dst, st, dt, files, ex, sel = transfer_case(rng, sc)
    rm = rng.random() < 0.6
    s0, d0 = snap(src), snap(dst)
    o0 = snap(sc.d + "/outside")
    at = rng.randint(1, 25)
    mode = rng.choice(["die", OSError(28, "No space left"), PermissionError(13, "denied"), KeyboardInterrupt()])
    fault = stop if mode == "die" else raiser(mode)

    def run():
        with quiet():
            with Trace(sc.d, fault_at=at, fault=fault):
                transfer_tree(src, dst, files=files, exclude=ex, message=None, rm_source=rm)
    if mode == "die":
        st_, out = in_child(run)
    else:
        try:
            run()
        except BaseException:
            pass
    s1, d1 = snap(src), snap(dst)
    check(snap(sc.d + "/outside") == o0, "the transfer wrote through a link")
    for p in d0:
        if p in s0 and d0[p] != s0[p] and s0[p][0] != "dir":
            check(d1.get(p) in (d0[p], s0[p]), "{!r} in the destination is neither old nor complete: {}", p, d1.get(p))
        elif p not in s0 or s0[p][0] != "dir":
            check(d1.get(p) == d0[p], "{!r} in the destination was changed", p)
    for p in d1:
        if p in t and p not in d0:
            check(d1[p] == s0[p], "{!r} in the destination is incomplete: {}", p, d1[p])
    if mode != "die":
        left = [p for p in d1 if p not in d0 and p not in t and os.path.basename(p).startswith(".zielen-")]
        check(not left, "a failed transfer left {}", left)
    for p in s0:
        if p not in s1:
            check(rm and p in sel, "the source {!r} was removed", p)
            check(d1.get(p) == s0[p] or s0[p][0] == "dir" and d1.get(p, ("",))[0] == "dir",
                  "the source {!r} was removed before its copy was complete", p)
        else:
            check(s1[p] == s0[p], "the source {!r} was changed", p)


# --- C16 ---------------------------------------------------------------------------

@with_world
def update_local(rng, sc, make):
    t = gen_tree(rng, n=rng.randint(2, 12))
    exs = sorted(p for p in t if t[p] == "file" and rng.random() < 0.15)
    w = make(tree=t, exclude="".join("/%s\n" % p for p in exs), same=True)
    # some local entries are missing or unknown
    for p in sorted(t):
        if t[p] == "file" and rng.random() < 0.15:
            R["remove"](w.L + "/" + p)
    for p in [p for p in w.L and t if t[p] == "dir" and rng.random() < .2]:
        put(w.L + "/" + p + "/unsynced", "u")
    l0, r0 = snap(w.L), snap(w.R, skip=(".zielen",))
    d0, e0 = dbs(w)
    sel = topmost(p for p in d0 if rng.random() < 0.4) | {p for p in d0 if rng.random() < .1}
    missing = []

    def post(kind, paths):
        for p in l0:
            if not os.path.lexists(w.L + "/" + p):
                missing.append((p, kind, paths))
    with Trace(sc.d, post=post):
        with quiet():
            w.fm.update_local(set(sel) if rng.random() < .7 else sorted(sel))
    check(not missing, "{!r} was missing after {}", missing[0] if missing else "", missing[:1])
    l1, r1 = snap(w.L), snap(w.R, skip=(".zielen",))
    d1, e1 = dbs(w)
    check(r0 == r1, "updating the local directory changed the remote one")
    excl = {p for p in l0 if any(under(x, p) for x in exs)}
    chosen = {p for p in d0 if any(under(s, p) for s in sel)}
    near = chosen | {a for s in sel for a in ancestors(s)}
    for p in set(l0) | set(d0):
        now = l1.get(p)
        if p in chosen:
            check(now == r0[p], "the selected {!r} is {} locally, not {}", p, now, r0[p])
        elif p in l0 and (p not in d0 or p in excl or p in near):
            check(now == l0[p], "{!r} was replaced: {} -> {}", p, l0[p], now)
        elif t.get(p) == "file":
            check(now == ("link", w.R + "/" + p), "{!r} is {}, not a link to the remote", p, now)
        else:
            check(now is not None and now[0] == "dir", "the directory {!r} is {}", p, now)
    check(set(l1) <= set(l0) | set(d0), "unexpected local files {}", set(l1) - set(l0) - set(d0))
    for p in d0:
        if d0[p].directory:
            continue
        if p in chosen:
            check(d1[p].local, "the selected {!r} is recorded as not local", p)
        elif p not in l0:
            check(not d1[p].local, "the newly created link {!r} is recorded as local", p)
        elif l0[p][0] == "file" and p not in excl:
            check(not d1[p].local, "the replaced {!r} is recorded as local", p)


def link_tree(rng, sc):
    from zielen.fstools import symlink_tree
    t = gen_tree(rng)
    dst = sc.d + "/dst"
    os.makedirs(dst)
    have = subtree(rng, t, 0.5)
    mk(dst, have)
    ow = rng.random() < 0.4
    d0 = snap(dst)
    missing = []

    def post(kind, paths):
        missing.extend(p for p in d0 if not os.path.lexists(dst + "/" + p))
    with Trace(sc.d, post=post):
        res = symlink_tree(sc.d + "/src", dst, iter(sorted(p for p in t if t[p] == "file")),
                           {p for p in t if t[p] == "dir"}, **({"overwrite": True} if ow else {}))
    check(not missing, "{} missing while linking", missing)
    d1 = snap(dst)
    for p in t:
        exp = ("dir", None) if t[p] == "dir" else d0[p] if p in d0 and not ow else ("link", sc.d + "/src/" + p)
        check(d1.get(p) == exp, "{!r} is {} expected {}", p, d1.get(p), exp)
    check(set(d1) == set(t) | set(d0), "unexpected files {}", set(d1) - set(t))
    exp = {p for p in t if p not in d0 or (ow and t[p] == "file")}
    check(set(res) == exp, "reported as created {} expected {}", set(res), exp)


def local_history(rng, sc):
    """Syncs with changing limits: contents are right and recorded."""
    t = gen_tree(rng, n=rng.randint(2, 12))
    cl = Client(sc, init=False, limit=rng.choice(["0KiB", "12KiB", "40KiB", "1000000KiB"]))
    mk(cl.L, t)
    cl.init()
    cur = dict(t)
    for i in range(2):
        close(cl.sync())
        for p in cur:
            lp, rp = cl.L + "/" + p, cl.R + "/" + p
            if cur[p] == "file":
                check(get(lp) == get(rp), "{!r} differs between the sides", p)
                loc = cl.db()[p][2]
                check(bool(loc) == (not os.path.islink(lp)), "{!r} is recorded as local={} but is {}", p, loc,
                      "a link" if os.path.islink(lp) else "a file")
            else:
                check(os.path.isdir(lp) and os.path.isdir(rp), "the directory {!r} is missing", p)
        if i == 0:
            cl.config(limit=rng.choice(["0KiB", "12KiB", "40KiB", "1000000KiB"]))
            for j in range(rng.randint(0, 3)):
                n = "new%d" % j
                side = rng.choice([cl.L, cl.R])
                ds = [""] + [p for p in cur if cur[p] == "dir"]
                n = os.path.join(rng.choice(ds), n)
                put(side + "/" + n, "new " + n)
                cur[n] = "file"
