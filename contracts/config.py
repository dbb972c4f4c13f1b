"""Config values: validation and interpretation agree (C14)."""
from .base import *
from .setup import STR
from pyvc import strings, solve
from pyvc.induct import lemma, Unproved
from .select import proved
from pyvc.interp import PyRaise

CF = "zielen.profile.ProfileConfigFile."
PR = "zielen.profile.Profile."
DEFAULT = {"SyncInterval": "20", "PriorityHalfLife": "120", "UseTrash": "yes", "TrashCleanupPeriod": "30", "InflatePriority": "yes", "AccountForSize": "yes"}
REQUIRED = ["LocalDir", "RemoteDir", "StorageLimit"]
ATTRS = {"LocalDir": "local_path", "RemoteDir": "remote_path", "StorageLimit": "storage_limit", "SyncInterval": "sync_interval",
         "PriorityHalfLife": "priority_half_life", "UseTrash": "use_trash", "TrashCleanupPeriod": "cleanup_period",
         "InflatePriority": "inflate_priority", "AccountForSize": "account_for_size"}
SECONDS = {"SyncInterval": 60, "PriorityHalfLife": 3600, "TrashCleanupPeriod": 86400}
SPACE = strings.char_set([c for c in strings.CHARS if c.isspace()])
ANY = strings.char_set([c for c in strings.CHARS if c != "\n"])
SOLID = strings.char_set([c for c in strings.CHARS if not c.isspace()])
DIGIT = z3.Range("0", "9")
cat, opt, alt, star, plus = z3.Concat, z3.Option, z3.Union, z3.Star, z3.Plus


def text(s, case=True):
    """This text, in any case."""
    rs = [strings.char_set({c, c.lower(), c.upper()} if case else {c}) for c in s]
    return rs[0] if len(rs) == 1 else cat(*rs)


UNITS = [("", 1024), ("B", 1000), ("iB", 1024)]
K = alt(text("K"), text("M"), text("G"))
PREFIXES = [("K", 1), ("M", 2), ("G", 3)]
TRUE, FALSE = alt(text("yes"), text("true")), alt(text("no"), text("false"))
# the documented forms
FORM = {"LocalDir": alt(cat(text("/"), star(ANY)), cat(text("~/"), star(ANY))),
        "StorageLimit": cat(plus(DIGIT), star(SPACE), alt(text("K"), text("M"), text("G")), opt(alt(text("B"), text("iB")))),
        "SyncInterval": plus(DIGIT), "PriorityHalfLife": plus(DIGIT), "TrashCleanupPeriod": cat(opt(text("-")), plus(DIGIT)),
        "UseTrash": alt(TRUE, FALSE)}
FORM.update(RemoteDir=FORM["LocalDir"], InflatePriority=FORM["UseTrash"], AccountForSize=FORM["UseTrash"])


def stripped(v):
    """A value as it is read from a line: no surrounding blanks."""
    return z3.InRe(v, opt(alt(SOLID, cat(SOLID, star(ANY), SOLID))))


def in_(v, r):
    return z3.InRe(v, r)


def cfg_of(I, raw):
    cfg = ObjV(I.loader.func(CF[:-1]), {"path": "config", "raw_vals": raw})
    return cfg, ObjV(I.loader.func(PR[:-1]), {"_cfg_file": cfg})


def setting(I, prof, attr):
    try:
        return "return", I.getattr(prof, attr)
    except PyRaise as e:
        return "raise", e.exc


def meaning(I, key, v, got):
    """What the documentation says about an accepted value."""
    if key in SECONDS:
        if key == "TrashCleanupPeriod":
            minus = z3.PrefixOf(z3.StringVal("-"), v)
            never = got is None
            if never:
                I.oblige("only negative numbers mean never", minus)
                return
            I.oblige("negative numbers mean never", neg(minus))
        I.oblige("the number is scaled to seconds", term(got, INT) == z3.StrToInt(v) * SECONDS[key])
    elif key == "StorageLimit":
        d, s, x, y = (I.fresh(n, STR) for n in ("digits", "blanks", "prefix", "unit"))
        for c in (v == cat(d, s, x, y), in_(d, plus(DIGIT)), in_(s, star(SPACE)), in_(x, K), in_(y, opt(alt(text("B"), text("iB"))))):
            I.assume(c)
        unique(I, v, [d, s, x, y])
        got = term(got, INT)
        for p, e in PREFIXES:
            for u_, b in UNITS:
                I.oblige("%s%s has the documented meaning" % (p, u_), imp(conj([in_(x, text(p)), in_(y, text(u_)) if u_ else y == ""]),
                                                                      got == z3.StrToInt(d) * b ** e))
    else:
        I.oblige("it is a boolean", BoolVal(isinstance(got, (bool, Sym))))
        if isinstance(got, (bool, Sym)):
            I.oblige("true values are true", imp(in_(v, TRUE), term(got, B)))
            I.oblige("false values are false", imp(in_(v, FALSE), neg(term(got, B))))


def unique(I, v, own):
    """A number, blanks, a prefix and a unit are found in one way: the parts found by the code are these."""
    for w, parts in getattr(I, "parsed", []):
        if not w.eq(v) or len(parts) not in (4, 5):
            continue
        facts = [f for t, f in I.pc if t != "s"]
        langs = [plus(DIGIT), star(SPACE), K, opt(alt(text("B"), text("iB")))]
        prove = lambda n, g, *using: lemma_at(I, n, g, list(using) or facts)
        for i in range(4):
            prove("part %d" % i, in_(parts[i], langs[i]), *[f for f in facts if z3.is_app(f) and f.num_args() and f.arg(0).eq(parts[i])])
        text_ = [f for f in facts if z3.is_eq(f) and f.arg(0).eq(v)]
        if len(parts) == 5:
            text_.append(prove("nothing follows the unit", parts[4] == ""))
        for i in range(2):
            # the longest run of characters of one kind
            rest = lambda q: cat(*q[i + 1:4])
            a, b, ra, rb = own[i], parts[i], rest(own), rest(parts)
            after = cat(*langs[i + 1:])
            whole = prove("same rest %d" % i, cat(a, ra) == cat(b, rb), *same) if i else prove("same text", cat(a, ra) == cat(b, rb), *text_)
            for q, r, side in ((own, ra, "wanted"), (parts, rb, "found")):
                prove("form of what follows %d (%s)" % (i, side), in_(r, after), *[in_(q[j], langs[j]) for j in range(i + 1, 4)])
            k = [in_(a, langs[i]), in_(b, langs[i]), in_(ra, after), in_(rb, after), whole]
            c = disj([z3.PrefixOf(a, b), z3.PrefixOf(b, a)])
            prove("one begins with the other %d" % i, c, whole)
            for x, rx, y, ry in ((a, ra, b, rb), (b, rb, a, ra)):
                e = z3.SubString(y, z3.Length(x), z3.Length(y) - z3.Length(x))
                split = imp(z3.PrefixOf(x, y), y == cat(x, e))
                prove("splitting %d" % i, split, z3.BoolVal(True))
                f = I.fresh("more", STR)
                # for every continuation, this one in particular
                g = lambda f: imp(conj([in_(x, langs[i]), in_(cat(x, f), langs[i]), in_(rx, after), rx == cat(f, ry)]), f == "")
                prove("maximal %d" % i, g(f), z3.BoolVal(True))
                k += [split, g(e)]
                prove("rests %d" % i, imp(z3.PrefixOf(x, y), rx == cat(e, ry)), split, whole)
                prove("no more %d" % i, imp(z3.PrefixOf(x, y), e == ""), *k, imp(z3.PrefixOf(x, y), rx == cat(e, ry)))
                k += [imp(z3.PrefixOf(x, y), e == "")]
            same_part = prove("same part %d" % i, a == b, c, *k)
            same = [prove("same remainder %d" % i, ra == rb, whole, same_part)]
        prove("same prefix", own[2] == parts[2], *same, *[in_(q[j], langs[j]) for q in (own, parts) for j in (2, 3)])
        prove("same unit", own[3] == parts[3], *same, *[in_(q[j], langs[j]) for q in (own, parts) for j in (2, 3)])


def lemma_at(I, name, goal, using):
    if not lemma(I, name, goal, using, 5):
        raise Unproved(name)
    return goal


def value_unit(key):
    @proved
    def body(I, f):
        I.strsort = STR
        I.parsed = []
        v = Const("value", STR)
        I.assume(stripped(v))
        if key == "TrashCleanupPeriod":
            I.assume(neg(in_(v, cat(text("-"), plus(text("0"))))))
        if key == "PriorityHalfLife":
            I.assume(neg(in_(v, plus(text("0")))))
        cfg, prof = cfg_of(I, DictV({key: Sym(v)}))
        kind, err = outcome(I, f, [cfg, key, Sym(v)])
        if kind == "raise":
            I.oblige("checking never fails", FF)
            return kind
        if err is not None and not isinstance(err, str):
            raise Unsupported("error message")
        blank = v == ""
        if err is not None:
            I.oblige("values of the documented form are accepted", neg(in_(v, FORM[key])))
            if key in DEFAULT and key not in SECONDS:
                I.oblige("a blank value is accepted", neg(blank))
            return kind
        if key in DEFAULT:
            I.oblige("accepted values have the documented form", disj([blank, in_(v, FORM[key])]))
        else:
            I.oblige("accepted values have the documented form", in_(v, FORM[key]))
        if key in ("LocalDir", "RemoteDir"):
            return kind
        if I.branch(blank):
            check_default(I, key, prof)
            return kind
        kind, got = setting(I, prof, ATTRS[key])
        if kind == "raise":
            I.oblige("an accepted value is usable", FF)
            return "return"
        meaning(I, key, v, got)
        return kind
    return body


def check_default(I, key, prof):
    d = DEFAULT[key]
    kind, got = setting(I, prof, ATTRS[key])
    want = int(d) * SECONDS[key] if key in SECONDS else True
    I.oblige("a missing value means the default", BoolVal(kind == "return" and not isinstance(got, Sym) and got == want))


def default_unit(key):
    def body(I, f):
        for raw in ({}, {key: ""}):
            cfg, prof = cfg_of(I, DictV(dict(raw)))
            check_default(I, key, prof)
        return "return"
    return body


def path_unit(key):
    """The directory is that of the value after expanding the home directory."""
    def body(I, f):
        v = Const("value", P)
        I.assume(conj([neg(v == EMPTY), neg(v == NONE)]))
        cfg, prof = cfg_of(I, DictV({key: Sym(v)}))
        kind, got = setting(I, prof, ATTRS[key])
        if kind == "raise":
            I.oblige("an accepted value is usable", FF)
            return "return"
        I.oblige("it is the path without a home abbreviation and in normal form",
                 term(got, P) == lib.normpath(Function("expanduser", P, P)(v)))
        return kind
    return body


def check_all():
    bad, msg = Function("value_error", P, P, B), Function("message", P, P, P)

    def c_check(I, a):
        k, v = term(a["key"], P), term(a["value"], P)
        return OptV(neg(bad(k, v)), Sym(msg(k, v)))

    def body(I, f):
        k, v = const("key", P), const("val", P)
        has, val = Function("given", P, B), Function("raw", P, P)
        raw = MapV(P, lambda c: has(c[0]), lambda c: Sym(val(c[0])), None, P)
        I.assume(forall([k, v], imp(bad(k, v), conj([neg(msg(k, v) == EMPTY), neg(msg(k, v) == NONE)]))))
        I.assume(forall([k], imp(has(k), neg(val(k) == NONE))))
        cfg, prof = cfg_of(I, raw)
        empty = Const("check_empty", B)
        kw = {}
        if I.choose("template"):
            kw["check_empty"] = False
            empty = FF
        else:
            empty = TT
        kind, r = outcome(I, f, [cfg], kw)
        known = lambda c: disj([c == lit(x) for x in REQUIRED + list(DEFAULT)])
        wrong = disj([neg(has(lit(x))) for x in REQUIRED] + [exists([k], conj([has(k), neg(known(k))])),
                     exists([k], conj([has(k), bad(k, val(k)), disj([empty, neg(val(k) == EMPTY)])]))])
        if kind == "raise":
            I.oblige("only files with missing, unknown or invalid options are rejected", wrong)
            I.oblige("they are rejected with a parse error", BoolVal(r.cls is I.loader.func("zielen.exceptions.FileParseError")))
        else:
            I.oblige("files with missing, unknown or invalid options are rejected", neg(wrong))
        I.oblige("the values are kept", forall([k], conj([raw.dom([k]) == has(k), imp(has(k), term(raw.val([k]), P) == val(k))])))
        return kind
    return body, {CF + "check_value": c_check}


def reading():
    """Nothing that is read is used without a check."""
    def body(I, f):
        trace = []

        def note(name):
            def h(I, a):
                I.maybe_raise(name, OSError)
                trace.append(name)
            return h
        for q_, n in ((CF + "check_all", "check"), ("zielen.containerbase.ConfigFile.read", "read"), ("zielen.containerbase.JSONFile.read", "info")):
            I.contracts[q_] = note(n)
        cfg, prof = cfg_of(I, DictV({}))
        prof.attrs["_info_file"] = ObjV(I.loader.func("zielen.profile.ProfileInfoFile"), {"path": "info", "vals": None})
        prof.attrs["_exclude_file"] = ObjV(I.loader.func("zielen.profile.ProfileExcludeFile"), {"path": "exclude", "_matches": DictV({}), "_all_matches": DictV({})})
        kind, v = outcome(I, f, [prof])
        if kind == "return":
            I.oblige("the config file is read and checked", BoolVal("read" in trace and "check" in trace[trace.index("read"):]))
            I.oblige("the metadata is read", BoolVal("info" in trace))
        return kind
    return body


def units():
    out = [Unit("check_" + k, CF + "check_value", value_unit(k), {}) for k in ATTRS]
    out += [Unit("default_" + k, CF + "check_value", default_unit(k), {}) for k in DEFAULT]
    out += [Unit(ATTRS[k], CF + "check_value", path_unit(k), {}) for k in ("LocalDir", "RemoteDir")]
    b, c = check_all()
    out.append(Unit("check_all", CF + "check_all", b, c))
    out.append(Unit("profile_read", PR + "read", reading(), {}))
    return out
