"""Regular expressions and z3 strings.

Characters above U+00FF are outside of what is modelled: a unit that uses this states it as an assumption.
"""
import re as _re
import warnings
import z3
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    import sre_parse
    import sre_compile
from .terms import *
from .values import *

STRING = z3.StringSort()
CHARS = [chr(i) for i in range(256)]
SIGMA = z3.Star(z3.Range(chr(0), chr(255)))


def latin(s):
    """The assumption that s has only characters up to U+00FF."""
    return z3.InRe(s, SIGMA)


def char_set(chars):
    """A regular expression for one of these characters."""
    codes = sorted(map(ord, chars))
    if not codes:
        return z3.Empty(z3.ReSort(STRING))
    runs, lo, hi = [], codes[0], codes[0]
    for c in codes[1:]:
        if c == hi + 1:
            hi = c
        else:
            runs.append((lo, hi))
            lo = hi = c
    runs.append((lo, hi))
    rs = [z3.Re(z3.StringVal(chr(a))) if a == b else z3.Range(chr(a), chr(b)) for a, b in runs]
    return z3.Union(*rs) if len(rs) > 1 else rs[0]


class Regex:
    """A parsed pattern."""
    def __init__(self, pattern, flags=0):
        if isinstance(pattern, ObjV) and pattern.tag == "regex":
            flags = pattern.attrs["flags"]
            pattern = pattern.attrs["pattern"]
        if not isinstance(pattern, str) or not isinstance(flags, int):
            raise Unsupported("symbolic regular expression")
        self.tree = sre_parse.parse(pattern, flags)
        self.flags = self.tree.state.flags
        self.pattern = pattern
        self.groups = {}

    def single(self, node):
        sub = sre_parse.SubPattern(self.tree.state, [node])
        c = sre_compile.compile(sub, self.flags)
        return [x for x in CHARS if c.fullmatch(x)]

    def seq(self, nodes):
        rs = [self.node(n) for n in nodes]
        return z3.Re(z3.StringVal("")) if not rs else rs[0] if len(rs) == 1 else z3.Concat(*rs)

    def node(self, n):
        op, av = n
        name = str(op)
        if name in ("LITERAL", "NOT_LITERAL", "IN", "ANY", "RANGE"):
            return char_set(self.single(n))
        if name in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, sub = av
            r = self.seq(list(sub))
            if hi == sre_parse.MAXREPEAT:
                return z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
            return z3.Option(r) if (lo, hi) == (0, 1) else z3.Loop(r, lo, hi)
        if name == "SUBPATTERN":
            g, add, dele, sub = av
            if add or dele:
                raise Unsupported("inline flags")
            return self.seq(list(sub))
        if name == "BRANCH":
            rs = [self.seq(list(x)) for x in av[1]]
            return z3.Union(*rs) if len(rs) > 1 else rs[0]
        raise Unsupported("regular expression node %s" % name)

    def split(self, nodes, mode):
        """(free at the start, nodes, end) without the anchors; end: free, end or eol."""
        nodes = list(nodes)
        start, end = mode == "search", "free" if mode != "fullmatch" else "end"
        while nodes and str(nodes[0][0]) == "AT":
            a = str(nodes[0][1])
            if a == "AT_BEGINNING_STRING" or (a == "AT_BEGINNING" and not self.flags & _re.MULTILINE):
                start, nodes = False, nodes[1:]
            else:
                break
        while nodes and str(nodes[-1][0]) == "AT":
            a = str(nodes[-1][1])
            if a == "AT_END_STRING":
                end, nodes = "end", nodes[:-1]
            elif a == "AT_END" and not self.flags & _re.MULTILINE:
                end, nodes = ("eol" if end == "free" else end), nodes[:-1]
            else:
                break
        return start, nodes, end

    def language(self, mode):
        """The strings in which the pattern is found."""
        nodes = list(self.tree)
        if len(nodes) == 1 and str(nodes[0][0]) == "BRANCH":
            alts = [list(x) for x in nodes[0][1][1]]
        else:
            alts = [nodes]
        out = []
        for a in alts:
            start, ns, end = self.split(a, mode)
            r = self.seq(ns)
            parts = ([SIGMA] if start else []) + [r]
            if end == "free":
                parts.append(SIGMA)
            elif end == "eol":
                parts.append(z3.Option(z3.Re(z3.StringVal("\n"))))
            out.append(z3.Concat(*parts) if len(parts) > 1 else parts[0])
        return z3.Union(*out) if len(out) > 1 else out[0]

    def parse(self, I, s, mode="search"):
        """Decompose s, which the (anchored) pattern matches: {group: (present, string)}."""
        start, nodes, end = self.split(list(self.tree), mode)
        if start or end == "free":
            raise Unsupported("groups of a pattern that is not anchored")
        parts, groups = [], {}

        def walk(nodes):
            for n in nodes:
                op, av = n
                name = str(op)
                x = I.fresh("part", STRING)
                if name == "SUBPATTERN" and av[0] is not None:
                    I.assume(z3.InRe(x, self.node(n)))
                    groups[av[0]] = (TT, x)
                elif name in ("MAX_REPEAT", "MIN_REPEAT") and av[1] == 1 and av[0] == 0 and len(av[2]) == 1 \
                        and str(av[2][0][0]) == "SUBPATTERN" and av[2][0][1][0] is not None:
                    inner = self.node(av[2][0])
                    I.assume(z3.InRe(x, z3.Option(inner)))
                    groups[av[2][0][1][0]] = (z3.InRe(x, inner), x)
                else:
                    if name in ("MAX_REPEAT", "MIN_REPEAT", "BRANCH") and has_group(n):
                        raise Unsupported("repeated groups")
                    I.assume(z3.InRe(x, self.node(n)))
                parts.append(x)
        walk(nodes)
        if end == "eol":
            x = I.fresh("eol", STRING)
            I.assume(z3.InRe(x, z3.Option(z3.Re(z3.StringVal("\n")))))
            parts.append(x)
        I.assume(s == (z3.Concat(*parts) if len(parts) > 1 else parts[0]))
        I.parsed = getattr(I, "parsed", []) + [(s, parts)]
        return groups


def has_group(n):
    if isinstance(n, tuple) and len(n) == 2 and str(n[0]) == "SUBPATTERN" and n[1][0] is not None:
        return True
    if isinstance(n, (tuple, list, sre_parse.SubPattern)):
        return any(has_group(x) for x in n)
    return False


def mod_re():
    from .lib import nat
    ns = {"IGNORECASE": int(_re.IGNORECASE), "I": int(_re.IGNORECASE), "MULTILINE": int(_re.MULTILINE)}

    def compile_(I, a, k):
        return ObjV(None, {"pattern": a[0], "flags": a[1] if len(a) > 1 else k.get("flags", 0)}, "regex")

    def fn(name):
        def f(I, a, k):
            return op(I, name, a[0], a[1], a[2] if len(a) > 2 else k.get("flags", 0))
        return nat(f, "re." + name)
    ns["compile"] = nat(compile_, "re.compile")
    for n in ("search", "match", "fullmatch", "findall", "sub", "split"):
        ns[n] = fn(n)
    return ModV("re", ns)


def op(I, name, pat, s, flags):
    h = I.hooks.get("regex")
    if h:
        r = h(I, name, pat, s, flags)
        if r is not None:
            return r
    if isinstance(pat, str) and isinstance(s, str):
        r = getattr(_re, name)(pat, s, flags)
        return bool(r) if name in ("search", "match", "fullmatch") else Opaque("re")
    if isinstance(s, Sym) and s.sort == STRING:
        rx = Regex(pat, flags)
        lang = rx.language("search" if name == "findall" else name) if name in ("search", "match", "fullmatch", "findall") else None
        if lang is None:
            raise Unsupported("re." + name)
        if name == "findall":
            if not I.branch(z3.InRe(s.e, lang)):
                return ListV()
            gs = rx.parse(I, s.e)
            items = [Sym(gs[i][1]) for i in sorted(gs)]
            return ListV([Item(TupV(items) if len(items) > 1 else items[0] if items else s)])
        if name != "search" and False:
            return None
        return MatchV(I, rx, s, lang, name)
    if name in ("search", "match", "fullmatch"):
        p, f = (pat.attrs["pattern"], pat.attrs["flags"]) if isinstance(pat, ObjV) else (pat, flags)
        f = Function("re_%s:%s:%s" % (name, p, f), s.sort if isinstance(s, Sym) else P, B)
        return Sym(f(term(s, P)))
    return Opaque("re." + name)


def MatchV(I, rx, s, lang, mode):
    """The result of a search: None or a match."""
    o = ObjV(None, {"%rx": rx, "%s": s, "%mode": mode}, "match")
    return OptV(neg(z3.InRe(s.e, lang)), o)


def match_method(I, o, name):
    from .lib import nat
    if name in ("group", "groups"):
        def f(I, a, k):
            gs = getattr(o, "groups", None)
            if gs is None:
                gs = o.groups = o.attrs["%rx"].parse(I, o.attrs["%s"].e, o.attrs["%mode"])
            if name == "groups":
                return TupV([OptV(neg(gs[i][0]), Sym(gs[i][1])) if not is_true(gs[i][0]) else Sym(gs[i][1]) for i in sorted(gs)])
            i = a[0] if a else 0
            if i == 0:
                return o.attrs["%s"]
            present, x = gs[i]
            return Sym(x) if is_true(present) else OptV(neg(present), Sym(x))
        return nat(f, "match." + name)
    return None


def regex_method(I, o, name):
    from .lib import nat
    if name in ("search", "match", "fullmatch", "findall"):
        return nat(lambda I, a, k: op(I, name, o, a[0], o.attrs["flags"]), "regex." + name)
    return None


lower, upper = Function("str_lower", STRING, STRING), Function("str_upper", STRING, STRING)
strip_ = {n: Function("str_" + n, STRING, STRING) for n in ("strip", "lstrip", "rstrip")}


def swap_lang(table, want):
    """Strings that a character-wise mapping turns into `want`; None if it is not character-wise."""
    rs = []
    for c in want:
        pre = [x for x in CHARS if table(x) == c]
        rs.append(char_set(pre))
    return z3.Re(z3.StringVal("")) if not rs else rs[0] if len(rs) == 1 else z3.Concat(*rs)


def method(I, o, name):
    from .lib import nat
    t = lambda v: term(v, STRING)
    if name == "join":
        from .lib import s_join
        return nat(lambda I, a, k: s_join(I, o, a, k), "join")
    if name == "format" and isinstance(o, str):
        return None
    if isinstance(o, str):
        return None

    def case(f):
        def g(I, a, k):
            return Sym(f(t(o)))
        return g
    table = {
        "startswith": lambda I, a, k: Sym(disj([z3.PrefixOf(t(x), t(o)) for x in (a[0].items if isinstance(a[0], TupV) else [a[0]])])),
        "endswith": lambda I, a, k: Sym(disj([z3.SuffixOf(t(x), t(o)) for x in (a[0].items if isinstance(a[0], TupV) else [a[0]])])),
        "lower": case(lower), "upper": case(upper), "casefold": case(lower),
        "strip": case(strip_["strip"]), "lstrip": case(strip_["lstrip"]), "rstrip": case(strip_["rstrip"]),
        "isdigit": lambda I, a, k: Sym(z3.InRe(t(o), z3.Plus(char_set([c for c in CHARS if c.isdigit()])))),
        "isdecimal": lambda I, a, k: Sym(z3.InRe(t(o), z3.Plus(z3.Range("0", "9")))),
        "isspace": lambda I, a, k: Sym(z3.InRe(t(o), z3.Plus(char_set([c for c in CHARS if c.isspace()])))),
    }
    f = table.get(name)
    return nat(f, "str." + name) if f else None


def equals(a, b):
    """a == b for strings, with case mapping applied to literals."""
    for x, y in ((a, b), (b, a)):
        if z3.is_app(x) and x.decl().eq(lower) and z3.is_string_value(y):
            return z3.InRe(x.arg(0), swap_lang(str.lower, text_of(y)))
        if z3.is_app(x) and x.decl().eq(upper) and z3.is_string_value(y):
            return z3.InRe(x.arg(0), swap_lang(str.upper, text_of(y)))
    return a == b


def text_of(v):
    return _re.sub(r"\\u\{([0-9a-f]+)\}", lambda m: chr(int(m.group(1), 16)), v.as_string())


def to_int(I, v):
    """int(v): digits with optional sign and surrounding blanks."""
    s = v.e
    dig = z3.Plus(z3.Range("0", "9"))
    if I.branch(z3.InRe(s, dig)):
        I.assume(z3.StrToInt(s) >= 0)
        return Sym(z3.StrToInt(s))
    if I.branch(z3.InRe(s, z3.Concat(z3.Re(z3.StringVal("-")), dig))):
        rest = z3.SubString(s, 1, z3.Length(s) - 1)
        n = z3.StrToInt(rest)
        I.assume(n >= 0)
        I.assume((n == 0) == z3.InRe(s, z3.Concat(z3.Re(z3.StringVal("-")), z3.Plus(z3.Re(z3.StringVal("0"))))))
        return Sym(-n)
    sp = z3.Star(char_set([c for c in CHARS if c.isspace()]))
    # underscores between digits are allowed, too
    body = z3.Concat(z3.Star(z3.Concat(dig, z3.Re(z3.StringVal("_")))), dig)
    other = z3.Concat(sp, z3.Option(z3.Union(z3.Re(z3.StringVal("-")), z3.Re(z3.StringVal("+")))), body, sp)
    if I.branch(z3.InRe(s, other)):
        return Sym(Function("int_of_text", STRING, INT)(s))
    I.raise_(ValueError)


def format(I, fmt, ts):
    """Plain fields of strings and integers are a concatenation; nothing is known of other formats."""
    import string
    from .lib import b_str
    out, n = [], 0
    try:
        fields = list(string.Formatter().parse(fmt))
    except ValueError:
        raise Unsupported("format string")
    for text, field, spec, conv in fields:
        if text:
            out.append(term(text, STRING))
        if field is None:
            continue
        i = n if field == "" else int(field) if field.isdigit() else -1
        n += 1
        if spec or conv or not 0 <= i < len(ts):
            return Sym(I.fresh("formatted", STRING))
        v = ts[i]
        if not (isinstance(v, (str, int)) or isinstance(v, Sym) and v.sort in (STRING, z3.IntSort())):
            return Sym(I.fresh("formatted", STRING))
        out.append(term(b_str(I, [v], {}), STRING))
    return Sym(z3.Concat(*out) if len(out) > 1 else out[0] if out else z3.StringVal(""))


def slice(I, o, lo, hi, step):
    s = term(o, STRING)
    if step is None and (lo is None or isinstance(lo, int)) and (hi is None or isinstance(hi, int)):
        n = z3.Length(s)
        at = lambda i, d: d if i is None else (IntVal(i) if i >= 0 else z3.If(n + i >= 0, n + i, IntVal(0)))
        a, b = at(lo, IntVal(0)), at(hi, n)
        a, b = z3.If(a > n, n, a), z3.If(b > n, n, b)
        return Sym(z3.If(b > a, z3.SubString(s, a, b - a), z3.StringVal("")))
    raise Unsupported("slice of a string")


def pjoin(I, a, b):
    raise Unsupported("path join in string mode")
