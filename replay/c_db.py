"""Concrete checks of both databases against a dictionary model (C09, C10, C11)."""
from harness import *
import math


def fopen(cls, path):
    return cls(path)


class Model:
    """The documented behaviour of the profile database."""
    def __init__(self):
        self.n = {}

    def kids(self, d):
        return [p for p in self.n if os.path.dirname(p) == d]

    def above(self, paths):
        out = set()
        for p in paths:
            out.update(ancestors(p))
        return out

    def aggregate(self, changed, local=True):
        for d in sorted(self.above(changed), key=lambda p: -p.count("/")):
            if d in self.n:
                k = self.kids(d)
                self.n[d][1] = sum(self.n[c][1] for c in k)
                if local:
                    self.n[d][2] = bool(k) and all(self.n[c][2] for c in k)

    def add(self, files, dirs, priority=0, local=True):
        for p in set(files) | set(dirs):
            if p not in self.n:
                self.n[p] = [p in set(dirs), priority, local]
        for p in set(files) | set(dirs):
            d = os.path.dirname(p)
            if d:
                self.n[d][0] = True
        self.aggregate(set(files) | set(dirs))

    def inflated(self, files, dirs):
        m = max([v[1] for v in self.n.values() if not v[0]], default=0)
        self.add(files, dirs, priority=m)

    def update(self, paths, directory=None, priority=None, local=None):
        for p in paths:
            if p in self.n:
                for i, v in enumerate((directory, priority, local)):
                    if v is not None:
                        self.n[p][i] = v
        self.aggregate(paths)

    def rm(self, paths):
        for p in paths:
            for q in [q for q in self.n if p in self.n and under(p, q)]:
                del self.n[q]
        self.aggregate(paths)

    def inc(self, paths, by):
        for p in paths:
            if p in self.n:
                self.n[p][1] += by
        self.aggregate(paths, local=False)

    def adjust(self, c):
        for v in self.n.values():
            v[1] *= c


def universe(rng):
    t = gen_tree(rng, rng.randint(4, 16), dirs=0.55)
    return t


def weaken(rng, t):
    """Make the hashes of some paths collide."""
    import zielen.containerbase as cb
    names = {p.encode(): rng.randrange(6 * len(t)) for p in t}
    real = cb.hashlib.sha256

    class H:
        def __init__(self, data=b""):
            self.d = data

        def update(self, b):
            self.d += b

        def digest(self):
            if self.d in names:
                return names[self.d].to_bytes(8, "big") + bytes(24)
            return real(self.d).digest()

    class HL:
        sha256 = H
    return names, cb, HL


class Session:
    """Runs random operations on a database and its model."""
    def __init__(self, rng, sc, kind, name):
        self.rng, self.kind = rng, kind
        self.t = universe(rng)
        self.names = None
        if rng.random() < 0.35:
            self.names, self.cb, hl = weaken(rng, self.t)
            self.cb.hashlib, self.saved = hl, self.cb.hashlib
        if kind == "profile":
            from zielen.profile import ProfileDBFile as C
        else:
            from zielen.userdata import RemoteDBFile as C
        self.path = sc.d + name
        self.db = C(self.path)
        self.db.create()
        self.C = C
        self.m = Model()
        self.log = []

    def close(self):
        if self.names is not None:
            self.cb.hashlib = self.saved
        try:
            self.db.close()
        except Exception:
            pass

    def usable(self, new):
        """No two new paths collide (the databases assume that)."""
        if self.names is None:
            return True
        ids = [self.names[p.encode()] for p in new]
        return len(ids) == len(set(ids))

    def wrap(self, paths):
        paths = list(paths)
        self.rng.shuffle(paths)
        k = self.rng.randrange(3)
        return paths if k == 0 else set(paths) if k == 1 else dict.fromkeys(paths).keys()

    def some(self, among, n=None):
        among = sorted(among)
        return self.rng.sample(among, min(len(among), self.rng.randint(0, n or 4)))

    def pick_add(self):
        rng, t, m = self.rng, self.t, self.m
        new = []
        for p in sorted(t, key=lambda p: (p.count("/"), p)):
            if all(a in m.n or a in new for a in ancestors(p)[:1]) and rng.random() < 0.5:
                new.append(p)
        # a known file that gets children is fine, and so are known paths
        new = [p for p in new if not any(a not in m.n and a not in new for a in ancestors(p))]
        if not self.usable([p for p in new if p not in m.n]):
            raise Skip
        dirs = {p for p in new if t[p] == "dir" and (rng.random() < 0.7)}
        files = {p for p in new if p not in dirs}
        if rng.random() < 0.1 and new:
            (dirs if rng.random() < 0.5 else files).add(rng.choice(new))
        return files, dirs

    def known(self, extra=True):
        out = list(self.m.n)
        if extra and self.names is None:
            out += [p for p in self.t if p not in self.m.n][:2]
        return out

    def op(self):
        rng, m, db = self.rng, self.m, self.db
        before = {p: tuple(v) for p, v in m.n.items()}
        changed, kind = set(), None
        try:
            kind = rng.choice(["add", "add", "update", "rm", "inc", "adjust", "inflated", "reopen"] if self.kind == "profile"
                              else ["add", "add", "update", "rm", "reopen"])
            if kind in ("add", "inflated"):
                files, dirs = self.pick_add()
                changed = files | dirs
        except Skip:
            kind, changed = "adjust" if self.kind == "profile" else "reopen", set()
        if kind == "add":
            pr, lo = rng.choice([0, 0, 1, 2.5, 7]), rng.random() < 0.6
            self.log.append(("add_paths", sorted(files), sorted(dirs), pr, lo))
            if self.kind == "profile":
                db.add_paths(self.wrap(files), self.wrap(dirs), priority=pr, local=lo)
                m.add(files, dirs, pr, lo)
            else:
                t0 = real_time()
                db.add_paths(self.wrap(files), self.wrap(dirs))
                t1 = real_time()
                for p in files | dirs:
                    if p not in m.n:
                        m.n[p] = [p in dirs, (t0, t1), None]
                for p in files | dirs:
                    if os.path.dirname(p):
                        m.n[os.path.dirname(p)][0] = True
        elif kind == "inflated":
            self.log.append(("add_inflated", sorted(files), sorted(dirs)))
            db.add_inflated(self.wrap(files), self.wrap(dirs))
            m.inflated(files, dirs)
        elif kind == "update":
            ps = self.some(self.known())
            leaf = [p for p in ps if not m.kids(p)]
            kw = {}
            if rng.random() < 0.3:
                ps = leaf
                kw["directory"] = rng.random() < 0.5
            if self.kind == "profile":
                if rng.random() < 0.5:
                    kw["priority"] = rng.choice([0, 1, 3, 12.5])
                if rng.random() < 0.6 or not kw:
                    kw["local"] = rng.random() < 0.5
            else:
                kw["lastsync"] = rng.choice([0, 5, 17.25, 1e9])
            changed = set(ps)
            self.log.append(("update_paths", sorted(ps), kw))
            db.update_paths(self.wrap(ps), **kw)
            if self.kind == "profile":
                m.update(ps, **kw)
            else:
                for p in ps:
                    if p in m.n:
                        if "directory" in kw:
                            m.n[p][0] = kw["directory"]
                        m.n[p][1] = kw["lastsync"]
        elif kind == "rm":
            ps = self.some(self.known(), 3)
            if self.names is not None:
                # a path that is no longer known may have the same hash as another one
                ps = [p for p in ps if not any(a in ps for a in ancestors(p))]
            changed = set(ps)
            self.log.append(("rm_paths", sorted(ps)))
            db.rm_paths(self.wrap(ps))
            if self.kind == "profile":
                m.rm(ps)
            else:
                for p in ps:
                    for q in [q for q in m.n if under(p, q)]:
                        if p in m.n or True:
                            del m.n[q]
        elif kind == "inc":
            ps = self.some(self.known())
            by = rng.choice([1, 1, 0.5, 4])
            # "paths" may list a path more than once: once per access
            if ps and rng.random() < 0.4:
                ps = ps + [rng.choice(ps)]
            changed = set(ps)
            self.log.append(("increment", ps, by))
            db.increment(list(ps), by)
            m.inc(ps, by)
        elif kind == "adjust":
            c = rng.choice([0.5, 0.25, 1, 2])
            changed = None
            self.log.append(("adjust_all", c))
            db.adjust_all(c)
            m.adjust(c)
        else:
            self.log.append(("commit and reopen",))
            db.commit()
            db.close()
            self.db = self.C(self.path)
            return before, set(), "reopen"
        return before, changed, kind

    def eq(self, got, want):
        if isinstance(want, tuple):
            return want[0] - 1e-3 <= got <= want[1] + 1e-3
        if isinstance(want, bool) or isinstance(got, bool):
            return bool(got) == bool(want)
        return math.isclose(got, want, rel_tol=1e-9, abs_tol=1e-9)

    def listing(self):
        return self.db.get_paths()


def run_db(rng, sc, kind, verify):
    for i in range(3):
        run_db_once(rng, sc, kind, verify, "/%d.db" % i)


def run_db_once(rng, sc, kind, verify, name):
    s = Session(rng, sc, kind, name)
    try:
        for _ in range(rng.randint(2, 14)):
            before, changed, op = s.op()
            verify(s, before, changed, op)
    except sqlite3.Error as e:
        check(False, "the database fails with {!r} after {}", e, s.log)
    finally:
        s.close()


def same_domain(s):
    got, want = set(s.listing()), set(s.m.n)
    check(got == want, "after {}: listed but not stored: {}; stored but not listed: {}", s.log, sorted(got - want), sorted(want - got))


def values(s, skip=()):
    got = s.listing()
    for p, w in s.m.n.items():
        if p in skip:
            continue
        g = tuple(got[p])
        check(all(s.eq(a, b) for a, b in zip(g, w) if b is not None), "after {}: {!r} has values {} instead of {}", s.log, p, g, w)
        i = s.db.get_path_info(p)
        check(i is not None and tuple(i) == g, "after {}: get_path_info({!r}) gives {} but get_paths gives {}", s.log, p, i, g)
    if s.names is None:
        for p in s.t:
            if p not in s.m.n:
                check(s.db.get_path_info(p) is None, "after {}: unknown path {!r} has an entry", s.log, p)


def filters(s):
    rng, m = s.rng, s.m
    full = s.listing()
    root = rng.choice([None] + sorted(m.n)) if m.n else None
    if s.names is None and rng.random() < 0.1:
        root = rng.choice(sorted(s.t))
    kw = {}
    if root is not None:
        kw["root"] = root
    if rng.random() < 0.5:
        kw["directory"] = rng.random() < 0.5
    if s.kind == "profile":
        if rng.random() < 0.5:
            kw["local"] = rng.random() < 0.5
    elif rng.random() < 0.6:
        kw["min_lastsync"] = rng.choice([0, 5, 17.25, 1e9, 1e8] + [v[1] for v in full.values()])
    got = s.db.get_paths(**kw)

    def ok(p):
        v = full[p]
        return ((root is None or under(root, p)) and ("directory" not in kw or bool(v[0]) == kw["directory"])
                and ("local" not in kw or bool(v[2]) == kw["local"])
                and ("min_lastsync" not in kw or v[1] > kw["min_lastsync"]))
    want = {p for p in full if ok(p)}
    check(set(got) == want, "after {}: get_paths({}) gives {} instead of {}", s.log, kw, sorted(got), sorted(want))
    for p in got:
        check(tuple(got[p]) == tuple(full[p]), "after {}: get_paths({}) gives {} for {!r} instead of {}", s.log, kw, got[p], p, full[p])


def profile_map(rng, sc):
    """C09: the profile database agrees with the dictionary; aggregated values are only compared below nothing changed."""
    def verify(s, before, changed, op):
        same_domain(s)
        above = s.m.above(changed) if changed is not None else set()
        values(s, skip=above)
        # the aggregates are the subject of C10: go on with what is stored
        got = s.listing()
        for p in above:
            if p in s.m.n:
                g = got[p]
                check(bool(g[0]) == s.m.n[p][0], "after {}: {!r} is{} a directory", s.log, p, "" if g[0] else " not")
                s.m.n[p] = [bool(g[0]), g[1], bool(g[2])]
        filters(s)
    run_db(rng, sc, "profile", verify)


def aggregates(rng, sc):
    """C10: directories above changed paths aggregate their immediate children."""
    def verify(s, before, changed, op):
        got = s.listing()
        above = s.m.above(changed) if changed is not None else set()
        for d in above:
            if d not in got:
                continue
            k = [p for p in got if os.path.dirname(p) == d]
            want = sum(got[p][1] for p in k)
            check(math.isclose(got[d][1], want, rel_tol=1e-9, abs_tol=1e-9), "after {}: directory {!r} has priority {} but its children sum up to {}", s.log, d, got[d][1], want)
            loc = bool(k) and all(got[p][2] for p in k)
            check(bool(got[d][2]) == loc or op == "inc", "after {}: directory {!r} has local={} but its children say {}", s.log, d, got[d][2], loc)
        for p in got:
            if got[p][0] and changed is not None and p not in above and p not in changed and p in before:
                check(s.eq(got[p][1], before[p][1]) and bool(got[p][2]) == bool(before[p][2]), "after {}: directory {!r} changed from {} to {}", s.log, p, before[p], tuple(got[p]))
            if changed is None and p in before:
                check(s.eq(got[p][1], before[p][1] * s.log[-1][1]), "after {}: the priority of {!r} changed from {} to {}", s.log, p, before[p][1], got[p][1])
        s.m.n = {p: [bool(v[0]), v[1], bool(v[2])] for p, v in got.items()}
    run_db(rng, sc, "profile", verify)


def remote_map(rng, sc):
    """C11."""
    def verify(s, before, changed, op):
        same_domain(s)
        values(s)
        filters(s)
    run_db(rng, sc, "remote", verify)


def db_history(rng, sc, which):
    """The databases after real syncs describe the real trees."""
    c = Client(sc)
    t = gen_tree(rng, rng.randint(2, 8))
    mk(c.L, t)
    c.sync()
    ever = dict(t)
    for _ in range(rng.randint(1, 2)):
        for p in sorted(t):
            if rng.random() < 0.3:
                q = c.L + "/" + p
                if os.path.isdir(q) and not os.path.islink(q):
                    shutil.rmtree(q)
                elif os.path.lexists(q):
                    os.remove(q)
        t = {p: k for p, k in t.items() if os.path.lexists(c.L + "/" + p)}
        for p, k in gen_tree(rng, 3).items():
            # files that turn into directories and vice versa are not covered
            if p not in t and ever.get(p, k) == k and all(t.get(a) == "dir" for a in ancestors(p)):
                t[p] = ever[p] = k
                mk(c.L, {p: k})
        c.sync()
        want = set(snap(c.L))
        for name, got in (("profile", c.db()), ("remote", c.rdb())):
            if which in (name, None):
                check(set(got) == want, "the {} database lists {} but the files are {}", name, sorted(got), sorted(want))
                for p, v in got.items():
                    check(bool(v[0]) == (t[p] == "dir"), "the {} database has directory={} for {!r}", name, v[0], p)
        if which is None:
            d = c.db()
            for p, v in d.items():
                k = [q for q in d if os.path.dirname(q) == p]
                if k:
                    check(math.isclose(v[1], sum(d[q][1] for q in k), abs_tol=1e-9), "{!r} has priority {} but its children sum up to {}", p, v[1], sum(d[q][1] for q in k))
                    check(bool(v[2]) == all(d[q][2] for q in k), "{!r} has local={}", p, v[2])


def profile_history(rng, sc):
    db_history(rng, sc, "profile")


def remote_history(rng, sc):
    db_history(rng, sc, "remote")


def aggregate_history(rng, sc):
    db_history(rng, sc, None)
