"""Abstract state and the contracts of the classes that the other functions call."""
import z3
from pyvc.terms import *
from pyvc.values import *
from pyvc import lib
from pyvc.lib import STAT, lstat, isdir_nf, isfile_nf, islink, STATF
from pyvc.unit import Unit

PD = "zielen.profile.ProfileDBFile."
RD = "zielen.userdata.RemoteDBFile."

L, R = Const("local_dir", P), Const("remote_dir", P)


class World:
    """The symbolic state a FilesManager method starts from."""
    pass


def isset(v):
    return isinstance(v, (SetV, MapV, ListV, TupV, DictV, BagV, GenV))


def mem_of(I, v, what, once=False):
    """The membership predicate of an argument that the callee iterates over."""
    if isinstance(v, GenV):
        if v.used:
            return lambda p: FF
        v.used = True
        if not once:
            I.oblige("pre:%s is iterated more than once" % what, FF, "pre")
    if isinstance(v, str):
        raise Unsupported("string where a collection of paths is expected")
    if v is None:
        I.raise_(TypeError)
    sh, mem = as_mem(v)
    if sh is None:
        return lambda p: FF
    return lambda p: mem([p])


def flag(I, v):
    """An optional filter argument: None, or a formula."""
    if v is None:
        return None
    t = I.truth(v)
    return t if not isinstance(t, bool) else BoolVal(t)


# --- profile and remote databases ---------------------------------------------

def new_db(I, cls, hint, path_data, sorts):
    o = ObjV(cls, {}, "db")
    dom = Function(hint + "_known", P, B)
    fs = [Function("%s_%s" % (hint, n), P, s) for n, s in zip(path_data.fields, sorts)]
    sh = Tup(sorts, path_data.fields, path_data)
    o.attrs["%db"] = MapV(P, lambda c: dom(*c), lambda c: TupV([Sym(f(*c)) for f in fs], path_data.fields, path_data),
                          None, sh)
    o.attrs["path"] = Sym(Const(hint + "_db_path", P))
    return o, dom, fs


def db_of(o):
    return o.attrs["%db"]


def db_get_paths(kind):
    def h(I, a):
        m = db_of(a["self"])
        root, directory = a.get("root"), flag(I, a.get("directory"))
        if isinstance(root, OptV):
            raise Unsupported("optional root")
        rt = None
        if root is not None:
            if I.branch(lib.wrap_formula(I.truth(root))):
                rt = term(root, P)
        third = a.get("local") if kind == "profile" else a.get("min_lastsync")
        t3 = None
        if kind == "profile":
            t3 = flag(I, third)
        elif third is not None:
            t3 = term(third, REAL)
        dom, val = m.dom, m.val

        def d(c):
            v = val(c)
            out = [dom(c)]
            if rt is not None:
                out.append(under(rt, c[0]))
            if directory is not None:
                out.append(v.items[0].e == directory)
            if t3 is not None:
                out.append(v.items[2].e == t3 if kind == "profile" else v.items[1].e > t3)
            return conj(out)
        I.effect(kind + ".get_paths")
        return MapV(P, d, val, None, m.vshape)
    return h


def db_get_path_info(I, a):
    m = db_of(a["self"])
    p = term(a["path"], P)
    return OptV(neg(m.dom([p])), m.val([p]))


def havoc(I, m, keep):
    """New values everywhere except where keep(p) holds."""
    val, sh = m.val, m.vshape
    fs = [I.fresh_fn("val", P, s) for s in sorts_of(sh)]
    p = const("p", P)
    old = flatten(val([p]), sh)
    I.assume(forall([p], imp(keep(p), conj([f(p) == t for f, t in zip(fs, old)]))))
    m.val = lambda c: unflatten(sh, [f(*c) for f in fs])
    return fs


def strictly_above(mem):
    def f(p):
        q = const("q", P)
        return exists([q], conj([mem(q), under(p, q), neg(p == q)]))
    return f


def at_or_above(mem):
    def f(p):
        q = const("q", P)
        return exists([q], conj([mem(q), under(p, q)]))
    return f


def below(mem):
    def f(p):
        q = const("q", P)
        return exists([q], conj([mem(q), under(q, p)]))
    return f


def db_rm_paths(kind):
    def h(I, a):
        m = db_of(a["self"])
        mem = mem_of(I, a["paths"], kind + ".rm_paths(paths)", once=(kind == "remote"))
        dom = m.dom
        gone = below(mem)
        if kind == "profile":
            above = strictly_above(mem)
            havoc(I, m, lambda p: neg(above(p)))
        m.dom = lambda c: conj([dom(c), neg(gone(c[0]))])
        I.effect(kind + ".rm_paths", mem=mem)
    return h


def db_add_paths(kind):
    def h(I, a):
        m = db_of(a["self"])
        fm = mem_of(I, a["files"], "files", once=True)
        dm = mem_of(I, a["dirs"], "dirs", once=True)
        allm = lambda p: disj([fm(p), dm(p)])
        dom = m.dom
        above = at_or_above(allm)
        havoc(I, m, lambda p: neg(above(p)))
        m.dom = lambda c: disj([dom(c), allm(c[0])])
        I.effect(kind + ".add_paths", files=fm, dirs=dm, local=a.get("local"), priority=a.get("priority"))
    return h


def db_add_inflated(I, a):
    db_add_paths("profile")(I, a)


def db_update_paths(kind):
    def h(I, a):
        m = db_of(a["self"])
        mem = mem_of(I, a["paths"], kind + ".update_paths(paths)", once=(kind == "remote"))
        above = at_or_above(mem)
        if kind == "profile":
            havoc(I, m, lambda p: neg(above(p)))
        else:
            havoc(I, m, lambda p: neg(mem(p)))
        I.effect(kind + ".update_paths", mem=mem, args={k: v for k, v in a.items() if k not in ("self", "paths")})
    return h


def db_noop(name):
    def h(I, a):
        I.effect(name)
    return h


# --- scans ----------------------------------------------------------------------

class Scan:
    """What a scan of a side finds (version 0: the state at the start)."""
    def __init__(self, side, root, ver):
        n = "" if ver == 0 else "!%s" % ver
        self.has = Function("scan_%s%s" % (side, n), P, B)
        if ver == 0:
            self.dir = lambda p: isdir_nf(join(root, p))
            self.link = lambda p: islink(join(root, p))
            self.file = lambda p: isfile_nf(join(root, p))
            self.stat = lambda p: lstat(join(root, p))
        else:
            self.dir = Function("scan_%s_dir%s" % (side, n), P, B)
            self.link = Function("scan_%s_link%s" % (side, n), P, B)
            self.file = Function("scan_%s_file%s" % (side, n), P, B)
            self.stat = Function("scan_%s_stat%s" % (side, n), P, STAT)


def scan_axioms(I, s, root):
    p, q = const("p", P), const("q", P)
    I.assume(ForAll([p], Not(And(s.dir(p), s.link(p)))))
    I.assume(ForAll([p], Not(And(s.dir(p), s.file(p)))))
    I.assume(ForAll([p], Not(And(s.file(p), s.link(p)))))
    I.assume(Not(s.has(EMPTY)))
    I.assume(Not(s.has(NONE)))
    # a found path has its parents found as directories
    I.assume(ForAll([p, q], Implies(And(s.has(p), under(q, p), q != p, q != EMPTY), And(s.has(q), s.dir(q))),
                    patterns=[z3.MultiPattern(s.has(p), under(q, p))]))


def scan_contract(side):
    def h(I, a):
        o = a["self"]
        root = term(o.attrs["path"], P)
        ver = o.attrs.get("%ver", 0)
        mz = a.get("memoize", True)
        if not isinstance(mz, bool):
            raise Unsupported("symbolic memoize")
        if not mz:
            if I.ctx:
                raise Unsupported("a fresh scan in a loop")
            ver = "r%d" % I.symbol_id()
            o.attrs["%ver"] = ver
            s = Scan(side, root, ver)
            o.attrs["%scan"] = Native("scan", lambda I: s)
            scan_axioms(I, s, root)
            I.effect(side + ".rescan")
        s = scan_of(o, side, root)
        files, links, dirs = (flag(I, a.get(k, True)) for k in ("files", "symlinks", "dirs"))
        ex = a.get("exclude")
        exm = (lambda p: FF) if ex is None else mem_of(I, ex, "exclude", once=True)
        rel = a.get("rel", True)
        if rel is not True:
            raise Unsupported("scan_paths(rel=False)")

        def dom(c):
            p = c[0]
            return conj([s.has(p), disj([files, neg(s.file(p))]), disj([dirs, neg(s.dir(p))]),
                         disj([links, neg(s.link(p))]), neg(exm(p))])
        miss = None
        if side == "local":
            def m(I, args, k):
                I.maybe_raise("lookup", FileNotFoundError)
                return Sym(s.stat(term(args[0], P)))
            miss = Native("lookup_stat", m)
        return MapV(P, dom, lambda c: Sym(s.stat(c[0])), miss, STAT)
    return h


def scan_of(o, side, root):
    n = o.attrs.get("%scan")
    if n is None:
        return Scan(side, root, 0)
    return n.fn(None)


# --- exclusion patterns -----------------------------------------------------------

allmatch = Function("all_exclude_matches", P, P, B)      # (start directory, relative path)
matches = Function("exclude_matches", P, P, B)


def ex_all(I, a):
    sp = term(a["start_path"], P)
    return SetV(P, lambda c: allmatch(sp, c[0]))


def ex_matches(I, a):
    sp = term(a["start_path"], P)
    return SetV(P, lambda c: matches(sp, c[0]))


# --- helpers -------------------------------------------------------------------------

unsafe = Function("is_unsafe_symlink", P, P, B)
def c_unsafe(I, a):
    return Sym(unsafe(term(a["link_path"], P), term(a["parent_path"], P)))


def c_ancestry(I, a):
    """get_path_ancestry: the paths and all their parents, deepest first."""
    mem = mem_of(I, a["paths"], "paths", once=True)
    p, q = const("p", P), const("q", P)
    return ListV([Part([p], conj([disj([mem(p), exists([q], conj([mem(q), under(p, q), neg(p == EMPTY)]))])]),
                       Sym(p), [(depth(p), True)])])


tstamp = Function("timestamp_path", P, P)
def c_timestamp(I, a):
    return Sym(tstamp(term(a["path"], P)))


def const_prop(name, sort):
    c = Const(name, sort)
    return lambda I, a: Sym(c)


def settings():
    """Profile settings as unknown constants."""
    pr = "zielen.profile.Profile."
    out = {}
    for n, s in {"use_trash": B, "inflate_priority": B, "account_for_size": B, "storage_limit": INT,
                 "last_sync": REAL, "last_adjust": REAL, "sync_interval": INT, "priority_half_life": INT,
                 "local_path": P, "remote_path": P, "status": P, "id": P, "add_remote": B}.items():
        out[pr + n] = const_prop("cfg_" + n, s)
    none, per = Const("cfg_no_cleanup", B), Const("cfg_cleanup_period", INT)

    def cleanup(I, a):
        I.assume(per >= 0)
        return OptV(none, Sym(per))
    out[pr + "cleanup_period"] = cleanup
    return out


def class_stub(tag):
    def h(I, cls, args, kwargs):
        return ObjV(cls, {"path": args[0] if args else None}, tag)
    return h


def base_contracts():
    c = {
        "zielen.profile.ProfileDBFile": lambda I, cls, a, k: new_db(I, cls, "profile", I.loader.func("zielen.profile.PathData"), [B, REAL, B])[0],
        "zielen.userdata.RemoteDBFile": lambda I, cls, a, k: new_db(I, cls, "remotedb", I.loader.func("zielen.userdata.PathData"), [B, REAL])[0],
        "zielen.profile.ProfileExcludeFile": class_stub("exclude"),
        "zielen.profile.ProfileInfoFile": class_stub("info"),
        "zielen.profile.ProfileConfigFile": class_stub("config"),
        PD + "get_paths": db_get_paths("profile"), RD + "get_paths": db_get_paths("remote"),
        PD + "get_path_info": db_get_path_info, RD + "get_path_info": db_get_path_info,
        PD + "rm_paths": db_rm_paths("profile"), RD + "rm_paths": db_rm_paths("remote"),
        PD + "add_paths": db_add_paths("profile"), RD + "add_paths": db_add_paths("remote"),
        PD + "add_inflated": db_add_inflated,
        PD + "update_paths": db_update_paths("profile"), RD + "update_paths": db_update_paths("remote"),
        "zielen.userdata.SyncDir.scan_paths": scan_contract("local"),
        "zielen.userdata.RemoteSyncDir.scan_paths": scan_contract("remote"),
        "zielen.profile.ProfileExcludeFile.all_matches": ex_all,
        "zielen.profile.ProfileExcludeFile.matches": ex_matches,
        "zielen.fstools.is_unsafe_symlink": c_unsafe,
        "zielen.utils.get_path_ancestry": c_ancestry,
        "zielen.utils.timestamp_path": c_timestamp,
    }
    c.update(settings())
    return c


def world(I):
    """A FilesManager over arbitrary abstract databases and directories."""
    w = World()
    hooks, I.hooks = I.hooks, {}
    raises, I.raises = I.raises, {k: () for k in lib.RAISES}
    try:
        ld = I.loader
        w.local = I.call(ld.func("zielen.userdata.LocalSyncDir"), [Sym(L)])
        w.remote = I.call(ld.func("zielen.userdata.RemoteSyncDir"), [Sym(R)])
        w.profile = I.call(ld.func("zielen.profile.Profile"), [Sym(Const("profile_name", P))])
        w.local.attrs["path"] = Sym(L)
        u = join(R, lit(".zielen"))
        w.remote.attrs.update(path=Sym(R), util_dir=Sym(u), safe_path=Sym(R), trash_dir=Sym(join(u, lit("Trash"))))
        w.remote.attrs["_exclude_dir"] = Sym(join(u, lit("exclude")))
        for o in (w.local, w.remote):
            o.attrs.pop("_sub_entries", None)
            o.tag = "abstract"
        w.fm = I.call(ld.func("zielen.filelogic.FilesManager"), [w.local, w.remote, w.profile])
    finally:
        I.hooks, I.raises = hooks, raises
    w.pdb, w.rdb = w.profile.attrs["_db_file"], w.remote.attrs["_db_file"]
    w.known, w.rknown = Function("profile_known", P, B), Function("remotedb_known", P, B)
    w.pdir, w.pprio, w.ploc = (Function("profile_" + n, P, s) for n, s in (("directory", B), ("priority", REAL), ("local", B)))
    w.rdir, w.rsync = Function("remotedb_directory", P, B), Function("remotedb_lastsync", P, REAL)
    w.ls, w.rs = Scan("local", L, 0), Scan("remote", R, 0)
    scan_axioms(I, w.ls, L)
    scan_axioms(I, w.rs, R)
    p, q = const("p", P), const("q", P)
    for k in (w.known, w.rknown):
        I.assume(Not(k(EMPTY)))
        I.assume(Not(k(NONE)))
        I.assume(ForAll([p, q], Implies(And(k(p), under(q, p), q != EMPTY), k(q)),
                        patterns=[z3.MultiPattern(k(p), under(q, p))]))
    I.assume(L != R)
    I.inlined.clear()
    I.used_contracts.clear()
    return w


def path_set(name, I=None):
    f = Function(name, P, B)
    if I is not None:
        I.assume(Not(f(NONE)))
    return SetV(P, lambda c: f(*c)), f


def outcome(I, f, args, kwargs=None):
    """Run f symbolically: ("return", value) or ("raise", exception)."""
    try:
        return "return", I.call_body(f, args, kwargs or {})
    except PyRaise as e:
        return "raise", e.exc


def mem1(v):
    sh, m = as_mem(v)
    if sh is None:
        return lambda p: FF
    return lambda p: m([p])


def iff_all(a, b, hint="p"):
    p = const(hint, P)
    return forall([p], a(p) == b(p))


def imp_all(a, b):
    p = const("p", P)
    return forall([p], imp(a(p), b(p)))


def fields(v, n):
    if not isinstance(v, TupV) or len(v.items) != n:
        raise Unsupported("result is not a tuple of %d sets" % n)
    return [mem1(x) for x in v.items]
