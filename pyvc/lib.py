"""Trusted models of the Python builtins and of the standard library functions used."""
import builtins as _b
import os as _os
import re as _re
import string as _string
import z3
from .terms import *
from .values import *

STAT = z3.DeclareSort("Stat")
ENTRY = z3.DeclareSort("Entry")

# --- file system state at the start of the function under verification -------
lexists = Function("lexists", P, B)
fexists = Function("path_exists", P, B)
islink = Function("islink", P, B)
isdir = Function("isdir", P, B)               # follows links
isdir_nf = Function("isdir_nofollow", P, B)
isfile = Function("isfile", P, B)
isfile_nf = Function("isfile_nofollow", P, B)
lstat = Function("lstat", P, STAT)
fstat = Function("stat", P, STAT)
in_tree = Function("in_tree", P, P, B)        # in_tree(d, p): p is found by walking d without following links
dir_entry = Function("dir_entry", P, P, B)    # dir_entry(d, p): p is an immediate entry of d
entry_of = Function("entry_of", P, ENTRY)
e_path = Function("entry_path", ENTRY, P)
readlink = Function("readlink", P, P)
commonpath = Function("commonpath", P, P, P)
normpath = Function("normpath", P, P)
abspath = Function("abspath", P, P)
isabs = Function("isabs", P, B)
expanduser = Function("expanduser", P, P)
splitroot = Function("splitext_root", P, P)
splitext = Function("splitext_ext", P, P)
samefile = Function("samefile", P, P, B)
STATF = {"st_mtime": Function("st_mtime", STAT, REAL), "st_blocks": Function("st_blocks", STAT, INT),
         "st_size": Function("st_size", STAT, INT), "st_blksize": Function("st_blksize", STAT, INT),
         "st_mode": Function("st_mode", STAT, INT), "st_ino": Function("st_ino", STAT, INT),
         "st_dev": Function("st_dev", STAT, INT), "st_mtime_ns": Function("st_mtime_ns", STAT, INT),
         "st_atime": Function("st_atime", STAT, REAL), "st_ctime": Function("st_ctime", STAT, REAL)}


def _fsax():
    p, q, d = Const("p", P), Const("q", P), Const("d", P)
    s = Const("s", STAT)
    A = EXTRA_AXIOMS.append
    A((["islink", "isdir_nofollow"], ForAll([p], Not(And(islink(p), isdir_nf(p))), patterns=[z3.MultiPattern(islink(p), isdir_nf(p))]),
       "a link is no directory"))
    A((["isfile_nofollow", "isdir_nofollow"], ForAll([p], Not(And(isfile_nf(p), isdir_nf(p))), patterns=[z3.MultiPattern(isfile_nf(p), isdir_nf(p))]),
       "a regular file is no directory"))
    A((["isfile_nofollow", "islink"], ForAll([p], Not(And(isfile_nf(p), islink(p))), patterns=[z3.MultiPattern(isfile_nf(p), islink(p))]),
       "a regular file is no link"))
    A((["isdir", "isdir_nofollow"], ForAll([p], Implies(isdir_nf(p), isdir(p)), patterns=[isdir_nf(p)]), "lstat directories are directories"))
    A((["isdir", "isdir_nofollow", "islink"], ForAll([p], Implies(And(isdir(p), Not(islink(p))), isdir_nf(p)), patterns=[isdir(p)]),
       "a directory that is no link is an lstat directory"))
    A((["in_tree"], ForAll([d, p], Implies(in_tree(d, p), And(under(d, p), d != p)), patterns=[in_tree(d, p)]),
       "walking a directory finds only paths below it"))
    A((["path_join", "under"], ForAll([d, p], under(d, join(d, p)), patterns=[join(d, p)]), "join(root, p) lies below root for relative p"))
    A((["relpath"], ForAll([d, p], Implies(And(under(d, p), d != p), join(d, relpath(p, d)) == p), patterns=[relpath(p, d)]),
       "join(root, relpath(p, root)) == p strictly below root"))
    A((["path_join", "under"], ForAll([d, p, q], under(join(d, p), join(d, q)) == under(p, q), patterns=[under(join(d, p), join(d, q))]),
       "join(root, .) preserves the hierarchy"))
    A((["commonpath", "under"], ForAll([p, d], (commonpath(p, d) == d) == under(d, p), patterns=[commonpath(p, d)]),
       "commonpath(p, d) == d iff p lies at or below d"))
    A((["commonpath", "under"], ForAll([p, d], (commonpath(p, d) == p) == under(p, d), patterns=[commonpath(p, d)]),
       "commonpath(p, d) == p iff d lies at or below p"))
    A((["st_blocks"], ForAll([s], STATF["st_blocks"](s) >= 0, patterns=[STATF["st_blocks"](s)]), "st_blocks >= 0"))
    A((["st_blksize"], ForAll([s], STATF["st_blksize"](s) > 0, patterns=[STATF["st_blksize"](s)]), "st_blksize > 0"))
    A((["st_size"], ForAll([s], STATF["st_size"](s) >= 0, patterns=[STATF["st_size"](s)]), "st_size >= 0"))
    q2 = Const("q2", P)
    A((["entry_of"], ForAll([p, q2], Implies(entry_of(p) == entry_of(q2), p == q2), patterns=[z3.MultiPattern(entry_of(p), entry_of(q2))]),
       "entries are identified by their path"))
    for n, g in (("dirname", dirname), ("basename", basename), ("normpath", normpath)):
        A(([n], ForAll([p], g(p) != NONE, patterns=[g(p)]), n + "() is a string"))
    A((["path_join"], ForAll([p, q2], join(p, q2) != NONE, patterns=[join(p, q2)]), "join() is a string"))
    A((["entry_path"], ForAll([p], e_path(entry_of(p)) == p, patterns=[entry_of(p)]), "entries are identified by their path"))
    A((["dir_entry"], ForAll([d, p], Implies(dir_entry(d, p), And(under(d, p), d != p, dirname(p) == d)),
                                               patterns=[dir_entry(d, p)]), "directory entries are immediate children"))
    A((["dir_entry", "path_join", "basename"], ForAll([d, p], Implies(dir_entry(d, p), p == join(d, basename(p))),
                                                      patterns=[dir_entry(d, p)]), "entry.path == join(dir, entry.name)"))


_fsax()


def nat(fn, name=None):
    return Native(name or fn.__name__, fn)


def arg(args, kwargs, i, name, default=None):
    if i < len(args):
        return args[i]
    return kwargs.get(name, default)


def strlike(v):
    return isinstance(v, str) or (isinstance(v, Sym) and strsort(v.sort))


def uf(I, name, args, out):
    """An uninterpreted function of the arguments (deterministic library function)."""
    ts = []
    for a in args:
        ts.extend(flatten(a, shape_of(a)))
    return Sym(Function(name, *([t.sort() for t in ts] + [out]))(*ts))


def S(v):
    return term(v, P)


# --- attributes of symbolic values ------------------------------------------

def entry_path(e):
    if z3.is_app(e) and e.decl().eq(entry_of):
        return e.arg(0)
    return e_path(e)


def follow(args, kwargs):
    f = kwargs.get("follow_symlinks", True)
    return f if isinstance(f, bool) else True


def value_method(I, o, name):
    if isinstance(o, Native) and o.name == "int" and name == "from_bytes":
        return nat(int_from_bytes, "int.from_bytes")
    if isinstance(o, Sym):
        if o.sort == STAT:
            if name in STATF:
                return Sym(STATF[name](o.e))
            return None
        if o.sort == ENTRY:
            p = entry_path(o.e)
            if name == "path":
                return Sym(p)
            if name == "name":
                return Sym(basename(p))
            if name == "is_dir":
                return nat(lambda I, a, k: Sym(isdir(p) if follow(a, k) else isdir_nf(p)), "is_dir")
            if name == "is_file":
                return nat(lambda I, a, k: Sym(isfile(p) if follow(a, k) else isfile_nf(p)), "is_file")
            if name == "is_symlink":
                return nat(lambda I, a, k: Sym(islink(p)), "is_symlink")
            if name == "stat":
                return nat(lambda I, a, k: Sym(fstat(p) if follow(a, k) else lstat(p)), "stat")
            return None
        if o.sort == P:
            f = STR_P.get(name)
            return Native("str." + name, lambda I, a, k: f(I, o, a, k)) if f else None
        if strsort(o.sort):
            from . import strings
            return strings.method(I, o, name)
        if o.sort in (INT, REAL) and name == "is_integer":
            return None
        return None
    if isinstance(o, str):
        if I.strsort != P:
            from . import strings
            m = strings.method(I, o, name)
            if m is not None:
                return m
        return str_method(I, o, name)
    if isinstance(o, (SetV, BagV)):
        f = (BAG if isinstance(o, BagV) else SET).get(name)
        return Native("set." + name, lambda I, a, k: f(I, o, a, k)) if f else None
    if isinstance(o, MapV):
        f = MAP.get(name)
        return Native("dict." + name, lambda I, a, k: f(I, o, a, k)) if f else None
    if isinstance(o, DictV):
        f = DICT.get(name)
        return Native("dict." + name, lambda I, a, k: f(I, o, a, k)) if f else None
    if isinstance(o, ListV):
        f = LIST.get(name)
        return Native("list." + name, lambda I, a, k: f(I, o, a, k)) if f else None
    if isinstance(o, PropV):
        if name in ("setter", "getter", "deleter"):
            if name == "setter":
                return nat(lambda I, a, k: PropV("property", o.fget, a[0]), "setter")
            return nat(lambda I, a, k: o, name)
    if isinstance(o, TupV) and name == "count":
        return None
    if isinstance(o, TupV) and name == "_replace" and o.names:
        def rep(I, a, k):
            return TupV([k.get(n, v) for n, v in zip(o.names, o.items)], o.names, o.cls)
        return nat(rep, "_replace")
    if isinstance(o, (FuncV, BoundV, Native)) and name in ("__name__", "__doc__"):
        return Opaque("func." + name)
    return None


def obj_method(I, o, name):
    h = OBJ.get(o.tag)
    if h is not None:
        return h(I, o, name)
    return None


OBJ = {}


# --- strings in the uninterpreted sort ---------------------------------------

def s_count(I, o, a, k):
    if a[0] == "/":
        return Sym(depth(S(o)))
    return uf(I, "str_count", [o, a[0]], INT)


def s_strip(name):
    def f(I, o, a, k):
        if name == "rstrip" and a and a[0] == "/":
            return Sym(rstripsep(S(o)))
        return uf(I, "str_" + name, [o] + a, P)
    return f


def s_join(I, o, a, k):
    ps = I.parts_of(a[0])
    if all(isinstance(p, Item) for p in ps):
        vs = [p.v for p in ps]
        if all(isinstance(v, str) for v in vs) and isinstance(o, str):
            return o.join(vs)
        if I.strsort == P and getattr(I, "flat_concat", True):
            return concat_all(I, [y for i, v in enumerate(vs) for y in (([o] if i else []) + [v])])
        if I.strsort != P:
            ts = []
            for v in vs:
                ts += ([term(o, I.strsort)] if ts else []) + [term(v, I.strsort)]
            return Sym(z3.Concat(*ts) if len(ts) > 1 else ts[0])
        return uf(I, "str_join%d" % len(vs), [o] + vs, P)
    return Sym(I.fresh("joined", P))


def starts(I, o, x):
    """o.startswith(x); a prefix that ends in a separator denotes the paths strictly below it."""
    if z3.is_app(x) and x.decl().eq(concat) and x.arg(1).eq(lit("/")):
        d, how = x.arg(0), "d + '/'"
        if z3.is_app(d) and d.decl().eq(rstripsep):
            d, how = d.arg(0), "d.rstrip('/') + '/'"
        I.axiom_texts = getattr(I, "axiom_texts", set()) | {
            "p.startswith(%s) iff p lies strictly below d (normalised relative paths)" % how}
        return conj([under(d, o), neg(d == o)])
    name = x.decl().name() if z3.is_app(x) and x.num_args() == 0 else ""
    if name.startswith("lit:") and name.endswith("/") and len(name) > 5:
        I.axiom_texts = getattr(I, "axiom_texts", set()) | {
            "p.startswith(d + '/') iff p lies strictly below d (normalised relative paths)"}
        d = lit(name[4:-1])
        return conj([under(d, o), neg(d == o)])
    return startswith(o, x)


def s_split(I, o, a, k):
    """split(sep, 1) gives the parts before and after the separator, if it is there."""
    n = a[1] if len(a) > 1 else k.get("maxsplit", -1)
    if n != 1 or not a or a[0] is None:
        return Opaque("split")
    if I.branch(I.str_contains(o, a[0])):
        return ListV([Item(uf(I, "str_part%d" % i, [o, a[0]], P)) for i in (0, 2)])
    return ListV([Item(o)])


STR_P = {
    "startswith": lambda I, o, a, k: I.hooks["startswith"](I, o, a[0]) if "startswith" in I.hooks and isinstance(a[0], str) and I.hooks["startswith"](I, o, a[0]) is not None
    else I.wrap(disj([starts(I, S(o), S(x)) for x in a[0].items]) if isinstance(a[0], TupV)
                                            else starts(I, S(o), S(a[0]))),
    "endswith": lambda I, o, a, k: uf(I, "endswith", [o, a[0]], B),
    "count": s_count,
    "rstrip": s_strip("rstrip"), "lstrip": s_strip("lstrip"), "strip": s_strip("strip"),
    "lower": lambda I, o, a, k: uf(I, "str_lower", [o], P),
    "upper": lambda I, o, a, k: uf(I, "str_upper", [o], P),
    "join": s_join,
    "encode": lambda I, o, a, k: uf(I, "str_encode", [o], P),
    "format": lambda I, o, a, k: Sym(I.fresh("formatted", P)),
    "rjust": lambda I, o, a, k: uf(I, "str_rjust", [o] + a, P),
    "split": lambda I, o, a, k: s_split(I, o, a, k),
    "replace": lambda I, o, a, k: uf(I, "str_replace", [o] + a, P),
    "partition": lambda I, o, a, k: TupV([uf(I, "str_part0", [o, a[0]], P), Sym(z3.If(I.str_contains(o, a[0]), S(a[0]), EMPTY)), uf(I, "str_part2", [o, a[0]], P)]),
    "rpartition": lambda I, o, a, k: TupV([uf(I, "str_rpart0", [o, a[0]], P), Sym(z3.If(I.str_contains(o, a[0]), S(a[0]), EMPTY)), uf(I, "str_rpart2", [o, a[0]], P)]),
    "isspace": lambda I, o, a, k: uf(I, "str_isspace", [o], B),
}


def str_method(I, o, name):
    if name == "format":
        return nat(lambda I, a, k: str_format(I, o, a, k), "format")
    if name == "join":
        return nat(lambda I, a, k: s_join(I, o, a, k), "join")

    def f(I, a, k):
        if all(isinstance(x, (str, int, bool, type(None))) for x in a):
            try:
                r = getattr(o, name)(*a)
            except Exception as e:
                I.raise_(type(e))
            return lift(r)
        g = STR_P.get(name)
        if g is None or I.strsort != P:
            raise Unsupported("str.%s with symbolic arguments" % name)
        return g(I, o, a, k)
    return nat(f, "str." + name) if hasattr(str, name) else None


def lift(v):
    if isinstance(v, (list,)):
        return ListV([Item(lift(x)) for x in v])
    if isinstance(v, tuple):
        return TupV([lift(x) for x in v])
    if isinstance(v, dict):
        return DictV({k: lift(x) for k, x in v.items()})
    if isinstance(v, set):
        s = empty_set()
        for x in sorted(v):
            old = s.mem
            s.shape = shape_of(x)
            t = term(x, s.shape)
            s.mem = lambda c, old=old, t=t: disj([old(c), c[0] == t])
        return s
    return v


def concat_all(I, vs):
    """Concatenation is associative: nested to the left, literals joined."""
    ts = []

    def add(v):
        if isinstance(v, str):
            if ts and isinstance(ts[-1], str):
                ts[-1] += v
            elif v:
                ts.append(v)
        elif z3.is_app(v) and v.decl().eq(concat):
            add(v.arg(0))
            add(v.arg(1))
        elif z3.is_app(v) and v.num_args() == 0 and v.decl().name().startswith("lit:"):
            add(v.decl().name()[4:])
        else:
            ts.append(v)
    for v in vs:
        add(v if isinstance(v, str) else term(v, P))
    if not ts:
        return ""
    ts = [lit(t) if isinstance(t, str) else t for t in ts]
    r = ts[0]
    for t in ts[1:]:
        r = concat(r, t)
    return Sym(r)


def plain_format(I, fmt, args):
    """A format string with plain fields and strings as arguments is a concatenation."""
    import string
    out, n = [], 0
    isstr = lambda v: isinstance(v, str) or (isinstance(v, Sym) and v.sort == P)
    for text, field, spec, conv in string.Formatter().parse(fmt):
        out.append(text)
        if field is None:
            continue
        if spec or conv or not (field == "" or field.isdigit()):
            return None
        i = n if field == "" else int(field)
        n += 1
        if i >= len(args) or not isstr(args[i]):
            return None
        out.append(args[i])
    return concat_all(I, out)


def str_format(I, fmt, args, kwargs=None):
    args = list(args)
    if I.strsort == P and getattr(I, "flat_concat", True) and not kwargs:
        r = plain_format(I, fmt, args)
        if r is not None:
            return r
    if kwargs:
        return Sym(I.fresh("formatted", I.strsort))
    if all(isinstance(a, (str, int)) for a in args):
        return fmt.format(*args)
    ts = []
    for a in args:
        if isinstance(a, (Sym, str, int, float, bool)) or a is None:
            ts.append(a)
        else:
            return Sym(I.fresh("formatted", I.strsort))
    if I.strsort != P:
        from . import strings
        return strings.format(I, fmt, ts)
    return uf(I, "format:" + numbered(fmt), ts, P)


def numbered(fmt):
    """The format with numbered fields."""
    import string
    out, n = "", 0
    try:
        for text, field, spec, conv in string.Formatter().parse(fmt):
            out += text.replace("{", "{{").replace("}", "}}")
            if field is None:
                continue
            out += "{%s%s%s}" % (n if field == "" else field, "!" + conv if conv else "", ":" + spec if spec else "")
            n += 1
    except ValueError:
        raise Unsupported("format string")
    return out


def str_percent(I, fmt, b):
    """fmt % b, as the corresponding format with braces."""
    import re
    if not isinstance(fmt, str) or isinstance(b, (DictV, MapV)):
        raise Unsupported("% of a string")
    args = list(b.items) if isinstance(b, TupV) else [b]
    if all(isinstance(a, (str, int, float)) or a is None for a in args):
        try:
            return fmt % tuple(args)
        except (TypeError, ValueError) as e:
            I.raise_(type(e))
    out, n, at = "", 0, 0
    for m in re.finditer("%(.?)", fmt):
        out += fmt[at:m.start()].replace("{", "{{").replace("}", "}}")
        at = m.end()
        if m.group(1) == "%":
            out += "%"
            continue
        if m.group(1) not in ("s", "d", "r") or n >= len(args):
            raise Unsupported("% of a string")
        v = args[n]
        if m.group(1) == "d" and not (isinstance(v, int) or isinstance(v, Sym) and v.sort in (INT, B)):
            raise Unsupported("% of a string")
        out += "{!r}" if m.group(1) == "r" else "{}"
        n += 1
    if n != len(args):
        raise Unsupported("% of a string")
    return str_format(I, out + fmt[at:].replace("{", "{{").replace("}", "}}"), args)


# --- collections --------------------------------------------------------------

def seq_union(I, o, a):
    r = SetV(o.shape, o.mem) if isinstance(o, SetV) else I.to_set(o)
    for x in a:
        r = I.binset("|", r, I.to_set(x))
    return r


def set_inplace(op):
    def f(I, o, a, k):
        for x in a:
            r = I.binset(op, o, I.to_set(x))
            o.shape, o.mem = r.shape, r.mem
    return f


def set_new(op):
    def f(I, o, a, k):
        r = SetV(o.shape, o.mem)
        for x in a:
            r = I.binset(op, r, I.to_set(x))
        return r
    return f


def set_discard(I, o, a, k):
    sh = join_shape(o.shape, shape_of(a[0]))
    ts, old = flatten(a[0], sh), o.mem
    o.shape, o.mem = sh, (lambda c: conj([old(c), neg(conj([x == y for x, y in zip(c, ts)]))]))


def set_remove(I, o, a, k):
    if not I.branch(wrap_formula(I.contains(o, a[0]))):
        I.raise_(KeyError)
    set_discard(I, o, a, k)


def wrap_formula(c):
    return BoolVal(c) if isinstance(c, bool) else c


def set_pop(I, o, a, k):
    if not I.branch(wrap_formula(I.truth(o))):
        I.raise_(KeyError)
    xs = [I.fresh("popped", s) for s in sorts_of(o.shape)]
    I.assume(o.mem(xs))
    v = unflatten(o.shape, xs)
    set_discard(I, o, [v], {})
    return v


def set_clear(I, o, a, k):
    o.mem = lambda c: FF


SET = {
    "add": lambda I, o, a, k: I.set_add(o, a[0]),
    "update": set_inplace("|"), "difference_update": set_inplace("-"),
    "intersection_update": set_inplace("&"), "symmetric_difference_update": set_inplace("^"),
    "union": set_new("|"), "difference": set_new("-"), "intersection": set_new("&"),
    "symmetric_difference": set_new("^"),
    "discard": set_discard, "remove": set_remove, "pop": set_pop, "clear": set_clear,
    "copy": lambda I, o, a, k: SetV(o.shape, o.mem),
    "issubset": lambda I, o, a, k: I.wrap(subset(o, I.to_set(a[0]))),
    "issuperset": lambda I, o, a, k: I.wrap(subset(I.to_set(a[0]), o)),
    "isdisjoint": lambda I, o, a, k: I.wrap(neg(wrap_formula(I.truth(I.binset("&", o, I.to_set(a[0])))))),
}


def bag_pop(I, o, a, k):
    if not I.branch(wrap_formula(I.truth(o))):
        I.raise_(IndexError)
    xs = [I.fresh("popped", s) for s in sorts_of(o.shape)]
    I.assume(o.mem(xs))
    # the remaining contents: nothing new, and nothing else lost
    old, shape = o.mem, o.shape
    rest = I.fresh_fn("rest", *(sorts_of(shape) + [B]))
    c = gen_consts(shape)
    same_ = conj([x == y for x, y in zip(c, xs)])
    I.assume(forall(c, imp(rest(*c), old(c))))
    I.assume(forall(c, imp(conj([old(c), neg(same_)]), rest(*c))))
    o.mem = lambda c: rest(*c)
    return unflatten(shape, xs)


BAG = {
    "pop": bag_pop, "popleft": bag_pop,
    "append": lambda I, o, a, k: I.set_add(o, a[0]),
    "appendleft": lambda I, o, a, k: I.set_add(o, a[0]),
    "extend": lambda I, o, a, k: set_inplace("|")(I, o, a, k),
    "clear": set_clear,
}


def map_get(I, o, a, k):
    d = a[1] if len(a) > 1 else k.get("default")
    if o.kshape is None:
        return d
    try:
        kk = flatten(a[0], o.kshape)
    except Unsupported:
        return d
    if I.branch(o.dom(kk)):
        return o.val(kk)
    return d


def map_items(I, o, a, k):
    if o.kshape is None:
        return ListV()
    xs = gen_consts(o.kshape, "k")
    key = unflatten(o.kshape, xs)
    return ListV([Part(xs, o.dom(xs), TupV([key, o.val(xs)]))])


def map_values(I, o, a, k):
    if o.kshape is None:
        return ListV()
    xs = gen_consts(o.kshape, "k")
    return ListV([Part(xs, o.dom(xs), o.val(xs))])


def map_pop(I, o, a, k):
    kk = flatten(a[0], o.kshape)
    if I.branch(o.dom(kk)):
        v = o.val(kk)
        dom = o.dom
        o.dom = lambda c: conj([dom(c), neg(conj([x == y for x, y in zip(c, kk)]))])
        return v
    if len(a) > 1:
        return a[1]
    I.raise_(KeyError)


def map_clear(I, o, a, k):
    o.dom = lambda c: FF


def map_update(I, o, a, k):
    for x in a:
        if isinstance(x, MapV):
            if x.kshape is None:
                continue
            o.kshape = join_shape(o.kshape, x.kshape)
            o.vshape = join_shape(o.vshape, x.vshape)
            d0, v0, d1, v1 = o.dom, o.val, x.dom, x.val
            from .interp import merge_val
            o.dom = lambda c: disj([d0(c), d1(c)])
            o.val = lambda c: merge_val(d1(c), v1(c), v0(c))
        elif isinstance(x, DictV):
            for kk, v in x.d.items():
                I.setitem(o, kk, v)
        else:
            def body(env, v):
                kv = I.unpack(v, 2)
                I.setitem(o, kv[0], kv[1])
            raise Unsupported("dict.update with a sequence")


MAP = {
    "get": map_get, "items": map_items, "values": map_values, "pop": map_pop, "clear": map_clear,
    "keys": lambda I, o, a, k: SetV(o.kshape, o.dom),
    "update": map_update,
    "copy": lambda I, o, a, k: MapV(o.kshape, o.dom, o.val, o.missing, o.vshape),
}


def dict_get(I, o, a, k):
    key = a[0]
    d = a[1] if len(a) > 1 else None
    if isinstance(key, Sym):
        for kk, v in o.d.items():
            if I.branch(eqv(kk, key)):
                return v
        return d
    return o.d.get(key, d)


def dict_update(I, o, a, k):
    d = dict(o.d)
    for x in a:
        if not isinstance(x, DictV):
            raise Unsupported("dict.update")
        d.update(x.d)
    d.update(k)
    o.d = d


def dict_setdefault(I, o, a, k):
    if a[0] not in o.d:
        I.setitem(o, a[0], a[1] if len(a) > 1 else None)
    return o.d[a[0]]


def dict_pop(I, o, a, k):
    if a[0] in o.d:
        v = o.d[a[0]]
        o.d = {x: y for x, y in o.d.items() if x != a[0]}
        return v
    if len(a) > 1:
        return a[1]
    I.raise_(KeyError)


def dict_clear(I, o, a, k):
    o.d = {}


def dict_keys(I, o, a, k):
    s = empty_set()
    for x in o.d:
        I.set_add(s, x)
    return s if len(o.d) != 1 and not o.d else DictV({x: None for x in o.d})


DICT = {
    "get": dict_get, "update": dict_update, "setdefault": dict_setdefault, "pop": dict_pop,
    "clear": dict_clear,
    "keys": lambda I, o, a, k: DictV({x: None for x in o.d}),
    "items": lambda I, o, a, k: ListV([Item(TupV([x, y])) for x, y in o.d.items()]),
    "values": lambda I, o, a, k: ListV([Item(y) for y in o.d.values()]),
    "copy": lambda I, o, a, k: DictV(o.d),
}


def sort_parts(I, parts, key, rev):
    rev = bool(rev)
    if len(parts) == 1 and isinstance(parts[0], Part):
        p = fresh_part(parts[0])
        # the key is a function of the element: evaluate it symbolically
        if key is None:
            kv = p.elem
        else:
            saved = I.pc
            I.pc = list(saved) + [("g", p.guard)]
            n = len(I.pc)
            outer = I.ctx
            I.ctx = outer + p.xs
            try:
                kv = I.call(key, [p.elem])
            finally:
                I.ctx = outer
                extra = I.pc[n:]
                I.pc = saved
            if any(t == "b" for t, f in extra):
                raise Unsupported("sort key with branches")
        ks = flatten(kv, shape_of(kv))
        return [Part(p.xs, p.guard, p.elem, [(t, rev) for t in ks] + list(p.keys))]
    if all(isinstance(p, Item) for p in parts):
        vs = [p.v for p in parts]
        if len(vs) < 2:
            return parts
        ks = [v if key is None else I.call(key, [v]) for v in vs]
        if all(isinstance(k, (str, int, float)) for k in ks):
            order = sorted(range(len(vs)), key=lambda i: ks[i], reverse=rev)
            return [parts[i] for i in order]
    # the order of several templates is unknown to the model
    if all(isinstance(p, Part) and not p.xs for p in parts):
        return parts
    raise Unsupported("sorting a composite sequence")


def list_sort(I, o, a, k):
    o.parts = tuple(sort_parts(I, list(known_parts(o.parts)), k.get("key"), k.get("reverse", False)))


def list_extend(I, o, a, k):
    o.parts = o.parts + tuple(I.parts_of(a[0]))


def list_pop(I, o, a, k):
    i = a[0] if a else -1
    ps = list(o.parts)
    if not ps:
        I.raise_(IndexError)
    if isinstance(i, int) and o.concrete:
        try:
            p = ps.pop(i)
        except IndexError:
            I.raise_(IndexError)
        o.parts = tuple(ps)
        return p.v
    if i == -1 and isinstance(ps[-1], Item):
        p = ps.pop()
        o.parts = tuple(ps)
        return p.v
    raise Unsupported("list.pop")


def list_remove(I, o, a, k):
    if not o.concrete:
        raise Unsupported("list.remove")
    for i, p in enumerate(o.parts):
        if I.branch(eqv(p.v, a[0])):
            o.parts = o.parts[:i] + o.parts[i + 1:]
            return
    I.raise_(ValueError)


def list_insert(I, o, a, k):
    if a[0] == 0:
        o.parts = (Item(a[1]),) + o.parts
        return
    if o.concrete and isinstance(a[0], int):
        ps = list(o.parts)
        ps.insert(a[0], Item(a[1]))
        o.parts = tuple(ps)
        return
    raise Unsupported("list.insert")


def list_append_(I, o, a, k):
    o.parts = o.parts + (Item(a[0]),)


def list_clear(I, o, a, k):
    o.parts = ()


def list_reverse(I, o, a, k):
    ps = []
    for p in reversed(o.parts):
        if isinstance(p, Item):
            ps.append(p)
        else:
            raise Unsupported("list.reverse")
    o.parts = tuple(ps)


LIST = {
    "append": list_append_, "extend": list_extend, "sort": list_sort, "pop": list_pop,
    "remove": list_remove, "insert": list_insert, "clear": list_clear, "reverse": list_reverse,
    "copy": lambda I, o, a, k: ListV(o.parts),
    "keys": None,
}
LIST.pop("keys")


def slice_value(I, o, lo, hi, step):
    if isinstance(o, ListV) and lo is None and hi is None and step is None:
        return ListV(o.parts)
    if strlike(o):
        if I.strsort != P:
            from . import strings
            return strings.slice(I, o, lo, hi, step)
        if step is None and all(x is None or isinstance(x, int) for x in (lo, hi)):
            return uf(I, "slice[%s:%s]" % (lo, hi), [o], P)
        return Sym(I.fresh("slice", P))
    raise Unsupported("slice of %r" % (o,))


# --- builtins -------------------------------------------------------------------

def b_set(I, a, k):
    if not a:
        return empty_set()
    return I.to_set(a[0])


def b_list(I, a, k):
    if not a:
        return ListV()
    if isinstance(a[0], BagV):
        raise Unsupported("list of a work list")
    return ListV(I.parts_of(a[0]))


def b_tuple(I, a, k):
    if not a:
        return TupV([])
    ps = I.parts_of(a[0])
    if all(isinstance(p, Item) for p in ps):
        return TupV([p.v for p in ps])
    return ListV(ps)            # an immutable sequence; only ever read


def b_dict(I, a, k):
    if not a:
        return DictV(k)
    x = a[0]
    if isinstance(x, DictV):
        d = dict(x.d)
        d.update(k)
        return DictV(d)
    if isinstance(x, MapV) and not k:
        return MapV(x.kshape, x.dom, x.val, None, x.vshape)
    ps = I.parts_of(x)
    m = MapV(None, lambda c: FF, lambda c: None)
    from .values import Env
    env = Env(I.stack[-1].mod if I.stack else None)
    env.vars["%m"] = m

    def body(env2, v):
        kv = I.unpack(v, 2)
        I.setitem(env2.vars["%m"], kv[0], kv[1])
    I.for_each(ps, env, body)
    return env.vars["%m"]


def b_sorted(I, a, k):
    return ListV(sort_parts(I, I.parts_of(a[0]), k.get("key"), k.get("reverse", False)))


def b_len(I, a, k):
    v = a[0]
    if isinstance(v, ObjV):
        m = I.getattr(v, "__len__")
        return I.call(m, [])
    return I.card(v)


def b_bool(I, a, k):
    if not a:
        return False
    t = I.truth(a[0])
    return I.wrap(t)


def b_int(I, a, k):
    v = a[0] if a else 0
    if isinstance(v, (bool, int)):
        return int(v)
    if isinstance(v, float):
        return int(v)
    if isinstance(v, str):
        try:
            return int(v, *a[1:])
        except ValueError:
            I.raise_(ValueError)
    base = a[1] if len(a) > 1 else k.get("base", 10)
    if isinstance(v, Sym) and base != 10:
        raise Unsupported("number in another base")
    if isinstance(v, Sym):
        if v.sort == INT:
            return v
        if v.sort == B:
            return Sym(If(v.e, IntVal(1), IntVal(0)))
        if v.sort == REAL:
            return Sym(z3.If(v.e >= 0, z3.ToInt(v.e), -z3.ToInt(-v.e)))
        if v.sort == P:
            I.maybe_raise("int", ValueError)
            return uf(I, "int_of", [v], INT)
        from . import strings
        return strings.to_int(I, v)
    if v is None:
        I.raise_(TypeError)
    raise Unsupported("int(%r)" % (v,))


def b_float(I, a, k):
    v = a[0]
    if isinstance(v, (int, float)):
        return float(v)
    if isinstance(v, Sym) and v.sort in (INT, REAL):
        return Sym(term(v, REAL))
    raise Unsupported("float()")


def b_str(I, a, k):
    if not a:
        return ""
    v = a[0]
    if isinstance(v, (str, int, float, bool)) or v is None:
        return str(v)
    if strlike(v):
        return v
    if isinstance(v, Sym):
        if I.strsort != P and v.sort == INT:
            return Sym(z3.IntToStr(v.e) if I.branch(v.e >= 0) else z3.Concat(z3.StringVal("-"), z3.IntToStr(-v.e)))
        return uf(I, "str_of", [v], I.strsort)
    return Sym(I.fresh("str", I.strsort))


def b_sum(I, a, k):
    ps = I.parts_of(a[0])
    start = a[1] if len(a) > 1 else k.get("start", 0)
    from .values import Env
    env = Env(I.stack[-1].mod if I.stack else None)
    env.vars["%s"] = start

    def body(env2, v):
        env2.vars["%s"] = I.binop("+", env2.vars["%s"], v)
    I.for_each(ps, env, body)
    return env.vars["%s"]


def quantified(I, a, universal):
    """any()/all() over a sequence."""
    ps = I.parts_of(a[0])
    out = []
    for p in ps:
        if isinstance(p, Item):
            out.append(wrap_formula(I.truth(p.v)))
        else:
            q = fresh_part(p)
            t = wrap_formula(I.truth(q.elem))
            out.append(forall(q.xs, imp(q.guard, t)) if universal else exists(q.xs, conj([q.guard, t])))
    return I.wrap(conj(out) if universal else disj(out))


def b_minmax(I, a, k, mx):
    if len(a) > 1:
        vs = a
        r = vs[0]
        for v in vs[1:]:
            if isinstance(r, (int, float)) and isinstance(v, (int, float)):
                r = max(r, v) if mx else min(r, v)
            else:
                s = REAL if any(isinstance(x, float) or (isinstance(x, Sym) and x.sort == REAL) for x in (r, v)) else INT
                x, y = term(r, s), term(v, s)
                r = Sym(If(x >= y, x, y) if mx else If(x <= y, x, y))
        return r
    ps = I.parts_of(a[0])
    if all(isinstance(p, Item) for p in ps) and ps and "key" not in k:
        return b_minmax(I, [p.v for p in ps], {}, mx) if len(ps) > 1 else ps[0].v
    if len(ps) == 1 and isinstance(ps[0], Part) and "key" not in k:
        q = fresh_part(ps[0])
        sh = shape_of(q.elem)
        if isinstance(sh, Tup):
            raise Unsupported("min/max of tuples")
        some = exists(q.xs, q.guard)
        if not I.branch(some):
            if "default" in k:
                return k["default"]
            I.raise_(ValueError)
        r = I.fresh("max" if mx else "min", sh)
        I.assume(part_mem(ps[0], [r], sh))
        e = flatten(q.elem, sh)[0]
        le = (lambda x, y: Or(slt(x, y), x == y)) if sh == P else (lambda x, y: x <= y)
        I.assume(forall(q.xs, imp(q.guard, le(e, r) if mx else le(r, e))))
        return Sym(r)
    if not ps:
        if "default" in k:
            return k["default"]
        I.raise_(ValueError)
    raise Unsupported("min/max")


def b_zip(I, a, k):
    seqs = [I.parts_of(x) for x in a]
    if all(all(isinstance(p, Item) for p in s) for s in seqs):
        return GenV([Item(TupV([p.v for p in t])) for t in zip(*seqs)])
    if len({len(s) for s in seqs}) != 1:
        raise Unsupported("zip of unaligned sequences")
    out = []
    for row in zip(*seqs):
        if all(isinstance(p, Item) for p in row):
            out.append(Item(TupV([p.v for p in row])))
            continue
        if any(isinstance(p, Item) for p in row) or len({p.ident for p in row}) != 1:
            raise Unsupported("zip of unaligned sequences")
        p0 = fresh_part(row[0])
        elems = [p0.elem]
        for p in row[1:]:
            prs = list(zip(p.xs, p0.xs))
            elems.append(vsubst(p.elem, prs))
        out.append(Part(p0.xs, p0.guard, TupV(elems), p0.keys, p0.lt, p0.ident, p0.order))
    return GenV(out)


def b_iter(I, a, k):
    if len(a) == 2:
        # iter(callable, sentinel): only used to drain a cursor in batches
        f = a[0]
        while isinstance(f, BoundV):
            f = f.f
        d = getattr(f, "drain", None)
        if d is not None and isinstance(a[1], ListV) and not a[1].parts:
            return d(I)
        raise Unsupported("iter(callable, sentinel)")
    if isinstance(a[0], GenV):
        return a[0]
    return GenV(I.parts_of(a[0]))


def b_next(I, a, k):
    g = a[0]
    if isinstance(g, GenV) and not g.used:
        if g.parts and isinstance(g.parts[0], Item):
            v = g.parts[0].v
            g.parts = tuple(g.parts[1:])
            return v
        if not g.parts:
            if len(a) > 1:
                return a[1]
            I.raise_(StopIteration)
        if len(g.parts) == 1:
            q = g.parts[0]
            p = fresh_part(q)
            if I.branch(exists(p.xs, p.guard)):
                x0 = [I.fresh("first", x.sort()) for x in q.xs]
                pr = list(zip(q.xs, x0))
                I.assume(z3.substitute(q.guard, *pr))
                lt = I.lt_of(q)
                ys = [const("y", x.sort()) for x in q.xs]
                I.assume(forall(ys, imp(z3.substitute(q.guard, *list(zip(q.xs, ys))),
                                        disj([conj([u == w for u, w in zip(x0, ys)]), lt(x0, ys)]))))
                v = vsubst(q.elem, pr)
                g.parts = (Part(q.xs, conj([q.guard, neg(conj([u == w for u, w in zip(q.xs, x0)]))]),
                                q.elem, q.keys, q.lt),)
                return v
            if len(a) > 1:
                return a[1]
            I.raise_(StopIteration)
    raise Unsupported("next()")


def b_isinstance(I, a, k):
    v, c = a
    cs = c.items if isinstance(c, TupV) else [c]
    for c in cs:
        if isinstance(c, ClassV):
            cls = v.cls if isinstance(v, (ObjV, TupV)) else v.cls if isinstance(v, ExcV) else None
            if isinstance(cls, ClassV) and c in cls.mro():
                return True
        elif isinstance(c, Native) and c.name in TYPES:
            if TYPES[c.name](v):
                return True
        elif isinstance(c, type):
            if isinstance(v, ExcV) and v.pycls() is not None and issubclass(v.pycls(), c):
                return True
    return False


TYPES = {
    "str": strlike, "set": lambda v: isinstance(v, SetV), "list": lambda v: isinstance(v, ListV),
    "dict": lambda v: isinstance(v, (DictV, MapV)), "tuple": lambda v: isinstance(v, TupV),
    "int": lambda v: isinstance(v, int) or (isinstance(v, Sym) and v.sort in (INT, B)),
    "bool": lambda v: isinstance(v, bool) or (isinstance(v, Sym) and v.sort == B),
    "float": lambda v: isinstance(v, float) or (isinstance(v, Sym) and v.sort == REAL),
}


def b_type(I, a, k):
    v = a[0]
    if isinstance(v, (ObjV,)):
        return v.cls
    if isinstance(v, TupV) and v.cls is not None:
        return v.cls
    return Opaque("type")


def b_range(I, a, k):
    if all(isinstance(x, int) for x in a):
        return ListV([Item(i) for i in range(*a)])
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    if len(a) > 2:
        raise Unsupported("range with a step")
    i = const("i", INT)
    return ListV([Part([i], conj([i >= term(lo, INT), i < term(hi, INT)]), Sym(i), [(i, False)])])


def b_enumerate(I, a, k):
    ps = I.parts_of(a[0])
    if all(isinstance(p, Item) for p in ps):
        return GenV([Item(TupV([i, p.v])) for i, p in enumerate(ps)])
    raise Unsupported("enumerate of a symbolic sequence")


def b_map(I, a, k):
    ps = I.parts_of(a[1])
    from .values import Env
    env = Env(I.stack[-1].mod if I.stack else None)
    env.vars["%l"] = ListV()

    def body(env2, v):
        list_append_(I, env2.vars["%l"], [I.call(a[0], [v])], {})
    I.for_each(ps, env, body)
    return GenV(env.vars["%l"].parts)


def b_filter(I, a, k):
    ps = I.parts_of(a[1])
    from .values import Env
    env = Env(I.stack[-1].mod if I.stack else None)
    env.vars["%l"] = ListV()

    def body(env2, v):
        c = v if a[0] is None else I.call(a[0], [v])
        if I.test(c):
            list_append_(I, env2.vars["%l"], [v], {})
    I.for_each(ps, env, body)
    return GenV(env.vars["%l"].parts)


def b_getattr(I, a, k):
    if not isinstance(a[1], str):
        raise Unsupported("getattr with a symbolic name")
    if len(a) > 2:
        try:
            return I.getattr(a[0], a[1])
        except PyRaise as e:
            if e.exc.cls is AttributeError:
                return a[2]
            raise
    return I.getattr(a[0], a[1])


def b_hasattr(I, a, k):
    try:
        I.getattr(a[0], a[1])
        return True
    except PyRaise:
        return False


def b_property(I, a, k):
    return PropV("property", a[0] if a else None)


def b_abs(I, a, k):
    v = a[0]
    if isinstance(v, (int, float)):
        return abs(v)
    return Sym(If(v.e >= 0, v.e, -v.e))


def b_round(I, a, k):
    v = a[0]
    if isinstance(v, (int, float)):
        return round(v, *a[1:])
    n = I.fresh("rounded", INT if len(a) < 2 else REAL)
    return Sym(n)


def b_open(I, a, k):
    mode = a[1] if len(a) > 1 else k.get("mode", "r")
    path = a[0]
    w = isinstance(mode, str) and any(c in mode for c in "wax+")
    I.maybe_raise("open", *I.raises_of("open"))
    if w:
        I.effect("open_write", path=path)
    return file_obj(I, path, mode)


def file_obj(I, path, mode):
    h = I.hooks.get("file")
    if h:
        r = h(I, path, mode)
        if r is not None:
            return r
    return ObjV(None, {"name": path, "%path": path}, "file")


def file_method(I, o, name):
    if name in ("write", "writelines"):
        def w(I, a, k):
            if "%out" in o.attrs:
                if name == "writelines":
                    list_extend(I, o.attrs["%out"], a, k)
                else:
                    list_append_(I, o.attrs["%out"], a, k)
                return None
            I.effect("file_write", path=o.attrs["%path"], data=a[0])
            return None
        return nat(w, name)
    if name == "close":
        return nat(lambda I, a, k: None, name)
    if name == "readlines" and "%lines" in o.attrs:
        return nat(lambda I, a, k: ListV(list(o.attrs["%lines"].parts)), name)
    if name == "read" and "%text" in o.attrs:
        return nat(lambda I, a, k: o.attrs["%text"](), name)
    if name in ("read", "readline"):
        return nat(lambda I, a, k: Sym(I.fresh("read", P)), name)
    if name == "flush":
        return nat(lambda I, a, k: None, name)
    return None


OBJ["file"] = file_method


def b_print(I, a, k):
    I.effect("print", out="print")
    return None


BUILTINS = {n: getattr(_b, n) for n in dir(_b)
            if isinstance(getattr(_b, n), type) and issubclass(getattr(_b, n), BaseException)}
for _n, _f in {
        "set": b_set, "frozenset": b_set, "list": b_list, "tuple": b_tuple, "dict": b_dict,
        "sorted": b_sorted, "len": b_len, "bool": b_bool, "int": b_int, "float": b_float, "str": b_str,
        "sum": b_sum, "any": lambda I, a, k: quantified(I, a, False),
        "all": lambda I, a, k: quantified(I, a, True),
        "min": lambda I, a, k: b_minmax(I, a, k, False), "max": lambda I, a, k: b_minmax(I, a, k, True),
        "zip": b_zip, "iter": b_iter, "next": b_next, "isinstance": b_isinstance, "type": b_type,
        "range": b_range, "enumerate": b_enumerate, "map": b_map, "filter": b_filter,
        "getattr": b_getattr, "hasattr": b_hasattr, "property": b_property, "abs": b_abs,
        "round": b_round, "open": b_open, "print": b_print,
        "staticmethod": lambda I, a, k: PropV("static", a[0]),
        "classmethod": lambda I, a, k: PropV("class", a[0]),
        "input": lambda I, a, k: Sym(I.fresh("input", I.strsort)),
        "id": lambda I, a, k: Sym(I.fresh("id", INT)),
        "callable": lambda I, a, k: isinstance(a[0], (FuncV, BoundV, Native, ClassV)),
        "reversed": lambda I, a, k: (_ for _ in ()).throw(Unsupported("reversed")),
        "repr": lambda I, a, k: Sym(I.fresh("repr", I.strsort))}.items():
    BUILTINS[_n] = Native(_n, _f)
BUILTINS["object"] = ClassV("object", "object", None)
BUILTINS["NotImplemented"] = Opaque("NotImplemented")


# --- context managers ---------------------------------------------------------------

def context_manager(I, cm):
    if isinstance(cm, ObjV):
        if isinstance(cm.cls, ClassV) and cm.cls.lookup("__enter__"):
            def leave(exc):
                a = [None, None, None] if exc is None else [exc.cls, exc, None]
                r = I.call(BoundV(cm.cls.lookup("__exit__"), cm), a)
                return exc is not None and I.test(r)
            return (lambda: I.call(BoundV(cm.cls.lookup("__enter__"), cm), [])), leave
        if cm.tag == "suppress":
            def leave(exc):
                return exc is not None and any(I.matches(exc, c) for c in cm.attrs["classes"].items)
            return (lambda: cm), leave
        if cm.tag == "file":
            def leave(exc):
                I.effect("file_close", path=cm.attrs["%path"])
                return False
            return (lambda: cm), leave
        return (lambda: cm), (lambda exc: False)
    if isinstance(cm, Opaque):
        return (lambda: cm), (lambda exc: False)
    if isinstance(cm, GenV):       # scandir
        return (lambda: cm), (lambda exc: False)
    raise Unsupported("context manager %r" % (cm,))


# --- os, os.path, shutil -------------------------------------------------------------

def pjoin(I, a, k):
    r = a[0]
    for x in a[1:]:
        if x is None or r is None:
            I.raise_(TypeError)
        if isinstance(r, str) and isinstance(x, str):
            r = _os.path.join(r, x)
        elif isinstance(x, str) and x.startswith("/"):
            r = x
        elif I.strsort != P:
            from . import strings
            r = strings.pjoin(I, r, x)
        else:
            r = Sym(join(S(r), S(x)))
    return r


def path_uf(name, fn, out=P):
    def f(I, a, k):
        v = a[0]
        if isinstance(v, OptV):
            if I.branch(v.none):
                I.raise_(TypeError)
            v = v.v
        if v is None:
            I.raise_(TypeError)
        if isinstance(v, str) and name in ("dirname", "basename", "normpath", "isabs") and len(a) == 1:
            return getattr(_os.path, name)(v)
        if isinstance(v, Sym) and v.sort == ENTRY:
            v = Sym(entry_path(v.e))
        return Sym(fn(S(v)))
    return nat(f, "os.path." + name)


def query(name, fn):
    """A query of the file system."""
    def f(I, a, k):
        v = a[0]
        if isinstance(v, Sym) and v.sort == ENTRY:
            v = Sym(entry_path(v.e))
        if v is None:
            I.raise_(TypeError)
        h = I.hooks.get("query")
        if h:
            r = h(I, name, v)
            if r is not None:
                return r
        return Sym(fn(S(v)))
    return nat(f, "os.path." + name)


def p_relpath(I, a, k):
    start = a[1] if len(a) > 1 else k.get("start", ".")
    if isinstance(a[0], str) and isinstance(start, str):
        return _os.path.relpath(a[0], start)
    x = a[0]
    if isinstance(x, Sym) and z3.is_app(x.e) and x.e.decl().eq(join) and x.e.arg(0).eq(S(start)):
        return Sym(x.e.arg(1))
    return Sym(relpath(S(x), S(start)))


def p_commonpath(I, a, k):
    v = a[0]
    items = v.items if isinstance(v, TupV) else v.items() if isinstance(v, ListV) and v.concrete else None
    if items is None or len(items) != 2:
        raise Unsupported("commonpath")
    h = I.hooks.get("commonpath")
    if h:
        h(I, items)
    return Sym(commonpath(S(items[0]), S(items[1])))


def p_samefile(I, a, k):
    x, y = S(a[0]), S(a[1])
    if not I.branch(conj([fexists(x), fexists(y)])):
        cs = I.raises.get("samefile", (FileNotFoundError,))
        I.maybe_raise("samefile", *cs[:-1])
        I.raise_(cs[-1])
    return Sym(samefile(x, y))


def p_splitext(I, a, k):
    if isinstance(a[0], str):
        return TupV(_os.path.splitext(a[0]))
    return TupV([Sym(splitroot(S(a[0]))), Sym(splitext(S(a[0])))])


def dir_listing_fails(I, d):
    """Listing fails for what is no directory, and possibly for other reasons."""
    try:
        I.maybe_raise("scandir", *I.raises_of("scandir"))
    except PyRaise as e:
        if e.exc.cls is NotADirectoryError:
            I.assume(neg(isdir(S(d))))
        raise
    if I.raises_of("scandir"):
        I.assume(isdir(S(d)))


def o_scandir(I, a, k):
    d = a[0] if a else "."
    dir_listing_fails(I, d)
    h = I.hooks.get("scandir")
    if h:
        r = h(I, d)
        if r is not None:
            return r
    p = const("p", P)
    return GenV([Part([p], dir_entry(S(d), p), Sym(entry_of(p)))])


def o_listdir(I, a, k):
    d = a[0] if a else "."
    dir_listing_fails(I, d)
    p = const("p", P)
    return ListV([Part([p], dir_entry(S(d), p), Sym(basename(p)))])


def o_stat(I, a, k):
    v = a[0]
    if isinstance(v, Sym) and v.sort == ENTRY:
        v = Sym(entry_path(v.e))
    I.maybe_raise("stat", *I.raises_of("stat"))
    return Sym((fstat if follow(a, k) else lstat)(S(v)))


def o_readlink(I, a, k):
    p = S(a[0])
    if not I.branch(islink(p)):
        I.raise_(OSError)
    return Sym(readlink(p))


def mut(kind, names, defaults=()):
    """A mutating file system operation: fails demonically or reports its effect."""
    def f(I, a, k):
        args = {}
        for i, n in enumerate(names):
            v = a[i] if i < len(a) else k.get(n)
            if isinstance(v, Sym) and v.sort == ENTRY:
                v = Sym(entry_path(v.e))
            if v is None:
                I.raise_(TypeError)
            args[n] = v
        rest = {x: y for x, y in k.items() if x not in names}
        pre = I.hooks.get("pre_" + kind)
        if pre:
            pre(I, kind, args, rest)
        if "try_" + kind in I.hooks or "ev_try_" + kind in I.ghost.attrs:
            I.effect("try_" + kind, **args)
        tried = []
        for c in I.raises_of(kind):
            if I.choose("%s_%s" % (kind, getattr(c, "__name__", getattr(c, "name", "exc")))):
                n = "%s!%s" % (kind, getattr(c, "__name__", getattr(c, "name", "exc")))
                if n in I.hooks or "ev_" + n in I.ghost.attrs:
                    I.effect(n, **args)
                e = ExcV(c, (), I.where())
                e.isnot = tuple(tried)
                raise PyRaise(e)
            tried.append(c)
        if kind in I.hooks.get("options", ()):
            args["options"] = rest
        I.effect(kind, **args)
        return None
    return nat(f, kind)


RAISES = {
    "remove": (IsADirectoryError, FileNotFoundError, OSError),
    "rmtree": (FileNotFoundError, OSError),
    "rmdir": (FileNotFoundError, OSError),
    "rename": (FileNotFoundError, OSError),
    "replace": (FileNotFoundError, OSError),
    "symlink": (FileExistsError, OSError),
    "mkdir": (FileExistsError, FileNotFoundError, OSError),
    "makedirs": (OSError,),
    "copy2": (FileNotFoundError, PermissionError, OSError),
    "copy": (FileNotFoundError, OSError),
    "utime": (OSError,),
    "open": (FileNotFoundError, OSError),
    "scandir": (FileNotFoundError, NotADirectoryError, OSError),
    "stat": (FileNotFoundError,),
    "copytree": (OSError,),
    "move": (OSError,),
}


def o_fspath(I, a, k):
    return a[0]


def mod_os(ld):
    path = ModV("os.path", {
        "join": nat(pjoin, "os.path.join"),
        "dirname": path_uf("dirname", dirname), "basename": path_uf("basename", basename),
        "normpath": path_uf("normpath", normpath), "abspath": path_uf("abspath", abspath),
        "realpath": path_uf("realpath", Function("realpath", P, P)),
        "expanduser": path_uf("expanduser", expanduser),
        "isabs": path_uf("isabs", isabs),
        "relpath": nat(p_relpath), "commonpath": nat(p_commonpath), "splitext": nat(p_splitext),
        "exists": query("exists", fexists), "lexists": query("lexists", lexists),
        "islink": query("islink", islink), "isdir": query("isdir", isdir), "isfile": query("isfile", isfile),
        "ismount": query("ismount", Function("ismount", P, B)),
        "getsize": nat(lambda I, a, k: Sym(STATF["st_size"](fstat(S(a[0]))))),
        "getmtime": nat(lambda I, a, k: Sym(STATF["st_mtime"](fstat(S(a[0]))))),
        "samefile": nat(p_samefile, "os.path.samefile"),
        "sep": "/", "pardir": "..", "curdir": ".",
        "split": nat(lambda I, a, k: TupV([Sym(dirname(S(a[0]))), Sym(basename(S(a[0])))])),
    })
    return ModV("os", {
        "path": path, "sep": "/", "curdir": ".", "pardir": "..", "devnull": "/dev/null",
        "linesep": "\n", "F_OK": 0, "R_OK": 4, "W_OK": 2, "X_OK": 1,
        "remove": mut("remove", ["path"]), "unlink": mut("remove", ["path"]),
        "rmdir": mut("rmdir", ["path"]), "rename": mut("rename", ["src", "dst"]),
        "replace": mut("replace", ["src", "dst"]), "symlink": mut("symlink", ["src", "dst"]),
        "mkdir": mut("mkdir", ["path"]), "makedirs": mut("makedirs", ["name"]),
        "link": mut("link", ["src", "dst"]), "utime": mut("utime", ["path"]), "chmod": mut("chmod", ["path"]),
        "removedirs": mut("removedirs", ["name"]), "truncate": mut("truncate", ["path"]),
        "scandir": nat(o_scandir, "os.scandir"), "listdir": nat(o_listdir, "os.listdir"),
        "stat": nat(o_stat, "os.stat"),
        "lstat": nat(lambda I, a, k: o_stat(I, a, {"follow_symlinks": False}), "os.lstat"),
        "readlink": nat(o_readlink, "os.readlink"), "fspath": nat(o_fspath),
        "access": nat(lambda I, a, k: Sym(Function("access", P, INT, B)(S(a[0]), term(a[1], INT)))),
        "getuid": nat(lambda I, a, k: Sym(Const("uid", INT))),
        "getpid": nat(lambda I, a, k: Sym(Const("pid", INT))),
        "getcwd": nat(lambda I, a, k: Sym(Const("cwd", P))),
        "getenv": nat(lambda I, a, k: uf(I, "getenv", [a[0]], P)),
        "walk": nat(lambda I, a, k: (_ for _ in ()).throw(Unsupported("os.walk"))),
        "error": OSError, "DirEntry": Opaque("os.DirEntry"), "stat_result": Opaque("os.stat_result"),
        "PathLike": Opaque("os.PathLike"),
    })


def sh_disk_usage(I, a, k):
    p = S(a[0])
    f = lambda n: Sym(Function("disk_" + n, P, INT)(p))
    return TupV([f("total"), f("used"), f("free")], ("total", "used", "free"))


def sh_move(I, a, k):
    return I.call(mut("move", ["src", "dst"]), a, k)


def mod_shutil(ld):
    return ModV("shutil", {
        "rmtree": mut("rmtree", ["path"]), "copy2": mut("copy2", ["src", "dst"]),
        "copy": mut("copy", ["src", "dst"]), "copyfile": mut("copyfile", ["src", "dst"]),
        "copytree": mut("copytree", ["src", "dst"]), "move": mut("move", ["src", "dst"]),
        "copystat": mut("copystat", ["src", "dst"]),
        "disk_usage": nat(sh_disk_usage), "get_terminal_size": nat(lambda I, a, k: TupV([80, 24])),
        "Error": OSError, "SameFileError": OSError,
    })


def t_time(I, a, k):
    h = I.hooks.get("time")
    if h:
        return h(I)
    t = I.fresh("now", REAL)
    return Sym(t)


def mod_time(ld):
    return ModV("time", {"time": nat(t_time, "time.time"),
                         "sleep": nat(lambda I, a, k: I.effect("sleep", t=0), "time.sleep"),
                         "mktime": nat(_mktime, "time.mktime"),
                         "monotonic": nat(t_time, "time.monotonic")})


def _mktime(I, a, k):
    from . import dates
    return dates.mktime(I, a, k)


def mod_functools(ld):
    def wraps(I, a, k):
        return nat(lambda I, b, k2: b[0], "wraps")
    return ModV("functools", {"wraps": nat(wraps, "functools.wraps"),
                              "partial": nat(lambda I, a, k: Native("partial", lambda I, b, k2: I.call(a[0], list(a[1:]) + list(b), {**k, **k2})), "partial"),
                              "lru_cache": Opaque("lru_cache")})


def mod_contextlib(ld):
    return ModV("contextlib", {
        "contextmanager": nat(lambda I, a, k: ContextFactory(a[0]), "contextmanager"),
        "suppress": nat(lambda I, a, k: ObjV(None, {"classes": TupV(a)}, "suppress"), "suppress")})


def ContextFactory(f):
    def make(I, a, k):
        return ObjV(None, {"f": f}, "context")
    return Native("contextmanager(%s)" % getattr(f, "qual", "?"), make)


def c_deque(I, a, k):
    if not a:
        return BagV(None, lambda c: FF)
    shape, mem = as_mem(ListV(I.parts_of(a[0])))
    return BagV(shape, mem)


def c_defaultdict(I, a, k):
    f = a[0] if a else None
    miss = Native("default_factory", lambda I, b, k2: I.call(f, [])) if f is not None else None
    return MapV(None, lambda c: FF, lambda c: None, miss)


def mod_collections(ld):
    dd = ClassV("defaultdict", "collections.defaultdict", None)
    return ModV("collections", {
        "deque": nat(c_deque, "collections.deque"),
        "defaultdict": DD, "OrderedDict": BUILTINS["dict"],
        "namedtuple": nat(lambda I, a, k: namedtuple(I, a[0], [p.v for p in I.parts_of(a[1])] if not isinstance(a[1], str) else a[1].replace(",", " ").split()))})


class _DD(ClassV):
    pass


DD = _DD("defaultdict", "collections.defaultdict", None)


def namedtuple(I, name, fields):
    return ClassV(name, "namedtuple." + name, None, [], {}, None, tuple(fields))


def mod_typing(ld):
    def NT(I, a, k):
        items = a[1].items() if isinstance(a[1], ListV) else a[1].items
        return namedtuple(I, a[0], [t.items[0] for t in items])
    ns = {n: Opaque("typing." + n) for n in
          "Any Iterable Generator Dict Optional Union Set List Tuple Callable Iterator Sequence Mapping".split()}
    ns["NamedTuple"] = nat(NT, "NamedTuple")
    return ModV("typing", ns)


def mod_copy(ld):
    import copy as _c

    def dc(I, a, k):
        return _c.deepcopy(a[0], {})
    return ModV("copy", {"deepcopy": nat(dc, "copy.deepcopy"), "copy": nat(shallow, "copy.copy")})


def shallow(I, a, k):
    v = a[0]
    if isinstance(v, SetV):
        return SetV(v.shape, v.mem)
    if isinstance(v, ListV):
        return ListV(v.parts)
    if isinstance(v, DictV):
        return DictV(v.d)
    if isinstance(v, MapV):
        return MapV(v.kshape, v.dom, v.val, v.missing, v.vshape)
    return v


def mod_tempfile(ld):
    def ntf(I, a, k):
        d = k.get("dir")
        I.effect("tempfile", dir=d)
        return ObjV(None, {"%path": d, "name": Sym(I.fresh("tempname", P))}, "file")
    return ModV("tempfile", {"NamedTemporaryFile": nat(ntf, "NamedTemporaryFile"),
                             "mkstemp": Opaque("mkstemp")})


def mod_glob(ld):
    g = Function("glob_match", P, P, B)

    def glob_(I, a, k):
        p, deep = const("p", P), k.get("recursive", False)
        if set(k) - {"recursive"} or not isinstance(deep, bool):
            raise Unsupported("options of glob")
        found = g if deep else Function("glob_match_flat", P, P, B)
        return ListV([Part([p], found(S(a[0]), p), Sym(p))])
    return ModV("glob", {"glob": nat(glob_, "glob.glob"),
                         "iglob": nat(lambda I, a, k: GenV(glob_(I, a, k).parts), "glob.iglob"),
                         "escape": nat(lambda I, a, k: uf(I, "glob_escape", [a[0]], P))})


def mod_atexit(ld):
    def reg(I, a, k):
        I.effect("atexit_register", fn=Opaque("fn"), f=a[0]) if False else I.hooks.get("atexit", lambda *x: None)(I, "register", a)
        return a[0]

    def unreg(I, a, k):
        I.hooks.get("atexit", lambda *x: None)(I, "unregister", a)
    return ModV("atexit", {"register": nat(reg, "atexit.register"), "unregister": nat(unreg, "atexit.unregister")})


def mod_sys(ld):
    return ModV("sys", {"stdout": ObjV(None, {}, "stdout"), "stderr": ObjV(None, {}, "stdout"),
                        "stdin": ObjV(None, {}, "stdin"), "prefix": Sym(Const("sys_prefix", P)),
                        "exit": nat(lambda I, a, k: I.raise_(SystemExit), "sys.exit"), "argv": Opaque("argv"),
                        "maxsize": 2 ** 63 - 1})


def stdout_method(I, o, name):
    if name == "isatty":
        return nat(lambda I, a, k: I.hooks["isatty"](I) if "isatty" in I.hooks else Sym(I.fresh("isatty", B)), "isatty")
    return nat(lambda I, a, k: None, name)


OBJ["stdout"] = stdout_method
OBJ["stdin"] = lambda I, o, name: nat(lambda I, a, k: Sym(I.fresh("stdin", I.strsort)), name)


def mod_re(ld):
    from . import strings
    return strings.mod_re()


def mod_string(ld):
    return ModV("string", {"ascii_letters": _string.ascii_letters, "digits": _string.digits,
                           "ascii_lowercase": _string.ascii_lowercase})


def mod_socket(ld):
    ns = {"AF_UNIX": 1, "SOCK_DGRAM": 2, "SOCK_STREAM": 1, "error": OSError}

    def sock(I, a, k):
        I.maybe_raise("socket", OSError)
        o = ObjV(None, {"%bound": False, "%closed": False}, "socket")
        h = I.hooks.get("socket")
        if h:
            h(I, o, a)
        return o
    ns["socket"] = nat(sock, "socket.socket")
    return ModV("socket", ns)


def socket_method(I, o, name):
    h = I.hooks.get("socket_" + name)
    if name == "bind":
        def f(I, a, k):
            I.maybe_raise("bind", OSError)
            o.attrs["%bound"] = a[0]
            if h:
                h(I, o, a)
        return nat(f, "socket.bind")
    if name == "close":
        def f(I, a, k):
            o.attrs["%closed"] = True
            if h:
                h(I, o, a)
        return nat(f, "socket.close")
    return None


OBJ["socket"] = socket_method


def generic_module(name):
    return lambda ld: ModV(name, {})


def mod_sqlite3(ld):
    ns = {"OperationalError": Exc("sqlite3.OperationalError", Exception),
          "PARSE_DECLTYPES": 1,
          "register_adapter": nat(lambda I, a, k: None), "register_converter": nat(lambda I, a, k: None),
          "connect": nat(lambda I, a, k: I.hooks["sqlite_connect"](I, a, k) if "sqlite_connect" in I.hooks
                         else (_ for _ in ()).throw(Unsupported("sqlite3.connect")), "sqlite3.connect")}
    return ModV("sqlite3", ns)


def Exc(name, base):
    return ClassV(name.split(".")[-1], name, None, [], {}, base)


def external(cls):
    """A class outside of the program: what its objects do is left to the hooks "cls.method"."""
    def make(I, a, k):
        o = ObjV(None, {}, "external:" + cls)
        h = I.hooks.get(cls)
        if h is None:
            raise Unsupported(cls)
        h(I, o, a, k)
        return o

    def method(I, o, name):
        h = I.hooks.get(cls + "." + name)
        if h is None:
            raise Unsupported("%s.%s" % (cls, name))
        return nat(lambda I, a, k: h(I, o, a, k), cls + "." + name)
    OBJ["external:" + cls] = method
    return nat(make, cls)


def mod_queue(ld):
    return ModV("queue", {"Queue": external("queue.Queue"), "SimpleQueue": external("queue.Queue"), "Empty": Exc("queue.Empty", Exception)})


def mod_threading(ld):
    return ModV("threading", {"Thread": external("threading.Thread"), "Lock": Opaque("threading.Lock"), "RLock": Opaque("threading.RLock")})


def mod_pyinotify(ld):
    ns = {n: external("pyinotify." + n) for n in ("WatchManager", "ThreadedNotifier")}
    ns.update(IN_ACCESS=1, IN_MODIFY=2, IN_ATTRIB=4, IN_CLOSE_WRITE=8, IN_CLOSE_NOWRITE=16, IN_OPEN=32, IN_MOVED_FROM=64, IN_MOVED_TO=128,
              IN_CREATE=256, IN_DELETE=512, IN_DELETE_SELF=1024, IN_MOVE_SELF=2048)
    return ModV("pyinotify", ns)


def mod_datetime(ld):
    from . import dates
    return dates.modules()


def mod_abc(ld):
    return ModV("abc", {"ABC": ClassV("ABC", "abc.ABC", None),
                        "abstractmethod": nat(lambda I, a, k: a[0], "abstractmethod")})


def mod_textwrap(ld):
    import textwrap

    def dedent(I, a, k):
        return textwrap.dedent(a[0]) if isinstance(a[0], str) else Sym(I.fresh("dedent", I.strsort))
    return ModV("textwrap", {"dedent": nat(dedent, "dedent"),
                             "wrap": nat(lambda I, a, k: ListV([Item("")]), "wrap")})


def mod_random(ld):
    return ModV("random", {"SystemRandom": Opaque("SystemRandom")})


def mod_json(ld):
    return ModV("json", {
        "load": nat(lambda I, a, k: I.hooks["json_load"](I, a) if "json_load" in I.hooks
                    else (_ for _ in ()).throw(Unsupported("json.load")), "json.load"),
        "dump": nat(lambda I, a, k: I.hooks["json_dump"](I, a) if "json_dump" in I.hooks
                    else I.effect("json_dump", data="?"), "json.dump"),
        "loads": nat(lambda I, a, k: I.hooks["json_loads"](I, a) if "json_loads" in I.hooks
                     else (_ for _ in ()).throw(Unsupported("json.loads")), "json.loads"),
        "dumps": nat(lambda I, a, k: I.hooks["json_dumps"](I, a) if "json_dumps" in I.hooks
                     else (_ for _ in ()).throw(Unsupported("json.dumps")), "json.dumps"),
        "JSONDecodeError": Exc("json.JSONDecodeError", ValueError)})


def mod_hashlib(ld):
    names = ("sha256", "sha1", "sha512", "md5", "blake2b", "sha384", "sha224")
    return ModV("hashlib", {n: nat(lambda I, a, k, n=n: ObjV(None, {"%how": n, "%data": S(a[0]) if a else None}, "hash"), n) for n in names})


def hash_method(I, o, name):
    """A hash is a function of the data given."""
    def update(I, a, k):
        d = a[0].attrs["%data"]
        a[0].attrs["%data"] = S(a[1]) if d is None else concat(d, S(a[1]))

    def digest(I, a, k):
        d = a[0].attrs["%data"]
        return uf(I, "%s_%s" % (name, a[0].attrs["%how"]), [Sym(d) if d is not None else ""], P)
    return {"update": Native("update", update, o), "digest": Native("digest", digest, o),
            "hexdigest": Native("hexdigest", digest, o)}.get(name)


OBJ["hash"] = hash_method


def int_from_bytes(I, a, k):
    order = a[1] if len(a) > 1 else k.get("byteorder", "big")
    return uf(I, "from_bytes_%s_%s" % (order, bool(k.get("signed", False))), [a[0]], INT)


MODULES = {
    "os": mod_os, "shutil": mod_shutil, "time": mod_time, "functools": mod_functools,
    "contextlib": mod_contextlib, "collections": mod_collections, "typing": mod_typing, "copy": mod_copy,
    "tempfile": mod_tempfile, "glob": mod_glob, "atexit": mod_atexit, "sys": mod_sys, "re": mod_re,
    "string": mod_string, "socket": mod_socket, "sqlite3": mod_sqlite3, "queue": mod_queue,
    "datetime": mod_datetime, "abc": mod_abc, "textwrap": mod_textwrap, "random": mod_random,
    "threading": mod_threading, "pyinotify": mod_pyinotify,
    "json": mod_json, "calendar": lambda ld: ModV("calendar", {"timegm": nat(_dates.timegm, "calendar.timegm")}), "hashlib": mod_hashlib,
}

from . import sql as _sql
from . import strings as _strings
OBJ["sqlcursor"], OBJ["sqlconn"] = _sql.cursor_method, _sql.conn_method
from . import dates as _dates
OBJ["datetime"] = OBJ["timedelta"] = _dates.method
OBJ["regex"] = _strings.regex_method
OBJ["match"] = _strings.match_method
