"""Which files are excluded, by one client and by all of them (C12)."""
from .base import *
from .removal import only
from .fs import c_scan_tree
from .files import text_file, comment, strip
from pyvc import lib
from pyvc.lib import in_tree, dir_entry, isdir, islink
from pyvc.terms import relpath, rstripsep

EX = "zielen.profile.ProfileExcludeFile."
RD = "zielen.userdata.RemoteSyncDir."
START, OTHER = "START", "OTHER"
anchored = Function("begins_with_slash", P, B)
bare = Function("str_lstrip", P, P, P)
globbed = Function("glob_match", P, P, B)
escape = Function("glob_escape", P, P)
pattern, at = Function("pattern_line", P, P), Function("in_exclude_file", P, B)


def starts(I, o, x):
    return Sym(anchored(term(o, P))) if x == "/" else None


def excluded(I, below):
    """The relative paths that the patterns of the file match in START, with what is below them."""
    x, m, e = const("line_", P), const("match_", P), const("entry_", P)
    s = strip(pattern(x))
    I.assume(forall([x], neg(strip(x) == NONE)))
    line = conj([at(x), neg(comment(pattern(x))), neg(s == EMPTY)])
    # what a pattern means is relative to the directory, whatever its name looks like
    root = Sym(escape(lit(START)))
    here, deep = (term(lib.pjoin(I, v, {}), P) for v in ([root, Sym(bare(s, lit("/")))], [root, "**", Sym(s)]))
    rel = lambda y: relpath(y, lit(START))
    inside = lambda p: exists([e], conj([neg(islink(rstripsep(m))), isdir(m), in_tree(m, e), p == rel(e)]))
    found = lambda w, p: exists([m], conj([globbed(w, m), disj([p == rel(m)] + ([inside(p)] if below else []))]))
    return lambda p: exists([x], conj([line, disj([conj([anchored(s), found(here, p)]), conj([neg(anchored(s)), found(deep, p)])])]))


def matches(name, below):
    def body(I, f):
        p = const("x", P)
        text_file(I, [Part([p], at(p), Sym(pattern(p)))])
        I.hooks["startswith"] = starts
        only(I)
        other, O = path_set("matches_elsewhere", I)
        other2, O2 = path_set("all_matches_elsewhere", I)
        o = ObjV(I.loader.func(EX[:-1]), {"path": Sym(Const("patterns", P)), "_matches": DictV({OTHER: other}), "_all_matches": DictV({OTHER: other2})})
        kind, v = outcome(I, f, [o, START])
        if kind == "raise":
            return kind
        sh, mem = as_mem(v)
        spec = excluded(I, below)
        I.oblige("exactly what the patterns match%s" % (" and what is below it" if below else ""), iff_all(lambda p: mem([p]), spec))
        again = I.call(I.getattr(o, name), [START])
        I.oblige("matches are remembered", iff_all(lambda p: as_mem(again)[1]([p]), spec))
        there = I.call(I.getattr(o, name), [OTHER])
        I.oblige("other directories are kept apart", iff_all(lambda p: as_mem(there)[1]([p]), O2 if below else O))
        both = I.call(I.getattr(o, "matches" if below else "all_matches"), [START])
        I.oblige("the other kind of matches fits", iff_all(lambda p: as_mem(both)[1]([p]), excluded(I, not below)))
        return kind
    return body


matched = Function("matched_by", P, P, P, B)        # (exclude file, start directory, relative path)


def c_exclude_file(I, cls, args, kwargs):
    if len(args) + len(kwargs) != 1:
        raise Unsupported("arguments of ProfileExcludeFile")
    return ObjV(cls, {"path": (args or list(kwargs.values()))[0]}, "exclude")


def c_all_matches(I, a):
    f, s = term(a["self"].attrs["path"], P), term(a["start_path"], P)
    return SetV(P, lambda c: matched(f, s, c[0]))


def check_excluded(I, f):
    D, s, e = Const("exclude_dir", P), Const("start", P), const("client", P)
    only(I)
    o = ObjV(I.loader.func(RD[:-1]), {"_exclude_dir": Sym(D), "path": Sym(Const("remote_root", P))}, "syncdir")
    paths, S = path_set("paths", I)
    kind, v = outcome(I, f, [o, paths, Sym(s)])
    if kind == "return":
        sh, mem = as_mem(v)
        I.oblige("exactly the paths that the patterns of every client match",
                 iff_all(lambda p: mem([p]), lambda p: conj([S(p), forall([e], imp(dir_entry(D, e), matched(e, s, p)))])))
    return kind


def units():
    c = {"zielen.fstools.scan_tree": c_scan_tree}
    d = {EX[:-1]: c_exclude_file, EX + "all_matches": c_all_matches}
    return [Unit("all_matches", EX + "all_matches", matches("all_matches", True), c),
            Unit("matches", EX + "matches", matches("matches", False), c),
            Unit("check_excluded", RD + "check_excluded", check_excluded, d)]
