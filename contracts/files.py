"""What is written to the files of a profile is what is read back (C23)."""
from .base import *
from pyvc import strings
from pyvc.interp import PyRaise
from .config import stripped, lemma_at, SPACE, STR
from .select import proved

PR = "zielen.profile.Profile."
JS = "zielen.containerbase.JSONFile."
MICRO = z3.Q(1, 1000000)


class Files:
    """The contents of files: a file is what was written to it between opening and closing it."""
    def __init__(self, I):
        self.I, self.named, self.json = I, [], []
        for k in ("open", "replace", "rename", "remove"):
            I.raises[k] = ()
        I.hooks["file"] = self.open
        I.hooks["file_write"] = self.write
        I.hooks["json_dump"] = lambda I, a: self.put(a[1], self.dumps(I, a))
        I.hooks["json_dumps"] = self.dumps
        I.hooks["json_load"] = lambda I, a: self.loads(I, [self.content(a[0])])
        I.hooks["json_loads"] = self.loads
        for k in ("replace", "rename"):
            I.hooks[k] = self.move

    def find(self, path):
        t = term(path, P)
        for i in range(len(self.named) - 1, -1, -1):
            if self.named[i][0].eq(t) or self.I.branch(self.named[i][0] == t):
                return i
        return None

    def open(self, I, path, mode):
        o = ObjV(None, {"name": path, "%path": path, "%mode": mode}, "file")
        if "w" in mode or "x" in mode:
            o.attrs["%content"] = cell = [[]]
            self.named.append((term(path, P), cell))
        elif "r" in mode and "+" not in mode:
            i = self.find(path)
            if i is None:
                I.raise_(FileNotFoundError)
            o.attrs["%content"] = self.named[i][1]
            o.attrs["%text"] = lambda: self.content(o)
        else:
            raise Unsupported("mode of a file")
        return o

    def put(self, file, data):
        file.attrs["%content"][0].append(data)

    def write(self, I, kind, args, rest=None):
        i = self.find(args["path"])
        self.named[i][1][0].append(args["data"])

    def content(self, file):
        c = file.attrs["%content"][0]
        if len(c) != 1:
            raise Unsupported("a file written in parts")
        return c[0]

    def move(self, I, kind, args, rest=None):
        i = self.find(args["src"])
        if i is None:
            I.raise_(FileNotFoundError)
        self.named.append((term(args["dst"], P), self.named[i][1]))

    def dumps(self, I, a):
        v = snapshot(a[0])
        t = I.fresh("json", P)
        self.json.append((t, v))
        return Sym(t)

    def loads(self, I, a):
        v = a[0]
        for t, data in reversed(self.json):
            if isinstance(v, Sym) and v.e.eq(t):
                return snapshot(data)
        raise Unsupported("JSON text")


def snapshot(v):
    """What JSON keeps of a value."""
    if isinstance(v, DictV):
        if not all(isinstance(k, str) for k in v.d):
            raise Unsupported("keys in JSON")
        return DictV({k: snapshot(x) for k, x in v.d.items()})
    if isinstance(v, ListV) and v.concrete:
        return ListV([Item(snapshot(x)) for x in v.items()])
    if isinstance(v, TupV):
        return ListV([Item(snapshot(x)) for x in v.items])
    if v is None or isinstance(v, (str, bool, int, float, Sym)):
        return v
    raise Unsupported("value in JSON")


def profile(I):
    info = ObjV(I.loader.func("zielen.profile.ProfileInfoFile"), {"path": Sym(Const("info_path", P)), "vals": None})
    return ObjV(I.loader.func(PR[:-1]), {"_info_file": info}), info


def stored(attr):
    """A stored time is read as the same instant."""
    def body(I, f):
        Files(I)
        prof, info = profile(I)
        info.attrs["vals"] = DictV({"Status": "initialized", "ID": "1"})
        x, y = Const("instant", REAL), Const("other_instant", REAL)
        other = "last_sync" if attr == "last_adjust" else "last_adjust"
        I.assume(neg(Const("info_path", P) == NONE))
        try:
            if I.choose("set before"):
                I.setattr(prof, other, Sym(y))
                I.setattr(prof, attr, Sym(x))
            else:
                I.setattr(prof, attr, Sym(x))
                I.setattr(prof, other, Sym(y))
            if I.choose("stored"):
                w = I.call(I.getattr(info, "write"), [])
                again, info2 = profile(I)
                I.call(I.getattr(info2, "read"), [])
                I.oblige("other metadata is kept", BoolVal(isinstance(info2.attrs["vals"], DictV) and info2.attrs["vals"].d.get("ID") == "1"))
            else:
                again = prof
            got = term(I.getattr(again, attr), REAL)
        except PyRaise as e:
            if e.exc.cls is OSError:
                return "raise"
            I.oblige("a stored time can be read", FF)
            return "return"
        I.oblige("a stored time is the same to the microsecond", conj([got - x < MICRO, x - got < MICRO]))
        I.oblige("a stored time stays the same", imp(x * 1000000 == z3.ToReal(Const("whole", INT)), got == x))
        return "return"
    return body


def json_file():
    def body(I, f):
        Files(I)
        path, x, y, z = (Const(n, P) for n in ("path", "a", "b", "c"))
        cls = I.loader.func(JS[:-1])
        one, two = ObjV(cls, {"path": Sym(path), "vals": DictV({"k": Sym(x), "l": ListV([Item(Sym(y)), Item(None), Item(True)]), "d": DictV({"m": Sym(z)}), "e": DictV({})})}), \
            ObjV(cls, {"path": Sym(path), "vals": None})
        want = snapshot(one.attrs["vals"])
        try:
            I.call(I.getattr(one, "write"), [])
            I.call(I.getattr(two, "read"), [])
        except PyRaise as e:
            if e.exc.cls is not OSError:
                I.oblige("values can be stored", FF)
            return "raise"
        got = two.attrs["vals"]
        I.oblige("stored values are read back", same(got, want))
        return "return"
    return body


def same(a, b):
    if isinstance(a, DictV) and isinstance(b, DictV):
        return conj([BoolVal(list(a.d) == list(b.d))] + [same(a.d[k], b.d[k]) for k in a.d if k in b.d])
    if isinstance(a, ListV) and isinstance(b, ListV) and a.concrete and b.concrete:
        return conj([BoolVal(len(a.parts) == len(b.parts))] + [same(x, y) for x, y in zip(a.items(), b.items())])
    if isinstance(a, Sym) or isinstance(b, Sym):
        return eqv(a, b)
    return BoolVal(type(a) is type(b) and a == b)


CFG = "zielen.containerbase.ConfigFile."
part0, part2 = (Function("str_part%d" % i, P, P, P) for i in (0, 2))
strip = Function("str_strip", P, P)
comment = Function("is_comment", P, B)
has = Function("str_contains", P, P, B)
line, at = Function("line", P, P), Function("in_file", P, B)
EQ = lit("=")


def option(s):
    return conj([neg(comment(s)), has(s, EQ)])


def key(s):
    return strip(part0(s, EQ))


def value(s):
    return strip(part2(s, EQ))


def regex(I, name, pat, s, flags):
    """Comments are the lines whose first character that is no blank is #."""
    if isinstance(pat, ObjV):
        pat, flags = pat.attrs["pattern"], pat.attrs["flags"]
    if name in ("search", "match") and pat in (r"^\s*#", r"\s*#") and (name == "match" or pat[0] == "^") and flags == 0:
        return Sym(comment(term(s, P)))
    return None


def starts(I, o, x):
    """A line that begins with # after stripping is a comment."""
    t = term(o, P)
    if x == "#" and z3.is_app(t) and t.decl().name() in ("str_strip", "str_lstrip") and t.num_args() == 1:
        return Sym(comment(t.arg(0)))
    return None


def text_file(I, lines):
    def opened(I, path, mode):
        o = ObjV(None, {"name": path, "%path": path}, "file")
        if "w" in mode:
            o.attrs["%out"] = I.written = ListV()
        else:
            o.attrs["%lines"] = ListV(list(lines))
        return o
    I.raises["open"] = ()
    I.hooks["file"] = opened
    I.hooks["regex"] = regex
    I.hooks["startswith"] = starts


def config(I):
    raw0, rawv = Function("set_before", P, B), Function("value_before", P, P)
    cls = I.loader.func(CFG[:-1])
    raw = MapV(P, lambda c: raw0(c[0]), lambda c: Sym(rawv(c[0])), None, P)
    return ObjV(cls, {"path": Sym(Const("cfg", P)), "raw_vals": raw}), raw, raw0, rawv


def read_config():
    def body(I, f):
        x, y, k = Const("x", P), const("y", P), Const("k", P)
        p = const("x", P)
        part = Part([p], at(p), Sym(line(p)))
        text_file(I, [part])
        cfg, raw, raw0, rawv = config(I)
        kind, r = outcome(I, f, [cfg])
        if kind == "raise":
            I.oblige("a text file can be read", FF)
            return kind
        raw = cfg.attrs["raw_vals"]
        lt = I.lt_of(part)
        sets = lambda y: conj([at(y), option(line(y)), key(line(y)) == k])
        I.oblige("a value is the last one of the file", imp(conj([sets(x), forall([y], imp(conj([sets(y)]), neg(lt([x], [y]))))]),
                                                          conj([raw.dom([k]), term(raw.val([k]), P) == value(line(x))])))
        I.oblige("no other values are read", imp(neg(exists([y], sets(y))), conj([raw.dom([k]) == raw0(k), imp(raw0(k), term(raw.val([k]), P) == rawv(k))])))
        return kind
    return body


def write_config():
    def body(I, f):
        I.flat_concat = True
        p = const("x", P)
        part = Part([p], at(p), Sym(line(p)))
        text_file(I, [part])
        cfg, raw, raw0, rawv = config(I)
        kind, r = outcome(I, f, [cfg, Sym(Const("template", P))])
        if kind == "raise":
            I.oblige("a file can be written", FF)
            return kind
        out = written(I, part)
        x = Const("x", P)
        for i, q in enumerate(out):
            I.oblige("every line of the template is written once", q[0](x) == at(x))
            I.oblige("a line keeps its text unless its option is set", imp(at(x), q[1](x) == new_line(I, line(x), raw0, rawv)))
        y = Const("y", P)
        I.oblige("lines are in the order of the template", imp(conj([at(x), at(y)]), out[0][2](x, y) == I.lt_of(part)([x], [y])))
        I.oblige("the values are kept", conj([cfg.attrs["raw_vals"].dom([x]) == raw0(x), imp(raw0(x), term(cfg.attrs["raw_vals"].val([x]), P) == rawv(x))]))
        return kind
    return body


def text_of(I, *vs):
    return term(lib.concat_all(I, list(vs)), P)


def option_line(I, k, v):
    return text_of(I, Sym(k), "=", Sym(v), "\n")


def new_line(I, s, raw0, rawv):
    """The line with the value that is set for its option, if there is one."""
    return z3.If(conj([option(s), raw0(key(s))]), option_line(I, key(s), rawv(key(s))), s)


def written(I, part):
    """What was written: one line for each element of the part."""
    qs = I.written.parts
    if len(qs) != 1 or not isinstance(qs[0], Part) or len(qs[0].xs) != 1:
        raise Unsupported("a file that is not written line by line")
    q = qs[0]
    put = lambda e, x: z3.substitute(e, (q.xs[0], x))
    return [(lambda x: put(q.guard, x), lambda x: put(term(q.elem, P), x), lambda x, y: I.lt_of(q)([x], [y]))]


def roundtrip():
    """Values that were read are written into the lines of a template and read back."""
    def body(I, f):
        I.flat_concat = True
        p = const("x", P)
        part = Part([p], at(p), Sym(line(p)))
        text_file(I, [part])
        cfg, raw, raw0, rawv = config(I)
        plain, name = Function("is_stripped", P, B), Function("is_option_name", P, B)
        k, v, x = const("k", P), const("v", P), Const("x", P)
        new = option_line(I, k, v)
        # the lemmas about lines of the unit `line_format`
        I.assume(z3.ForAll([k, v], imp(conj([plain(v), name(k)]), conj([neg(comment(new)), has(new, EQ), key(new) == k, value(new) == v])), patterns=[new]))
        I.assume(forall([p], imp(conj([at(p), option(line(p))]), name(key(line(p))))))
        I.assume(forall([k], imp(raw0(k), plain(rawv(k)))))
        kind, r = outcome(I, f, [cfg, Sym(Const("template", P))])
        if kind == "raise":
            I.oblige("a file can be written", FF)
            return kind
        text_file(I, I.written.parts)
        again = I.call(I.loader.func(CFG[:-1]), [Sym(Const("cfg", P))])
        try:
            I.call(I.getattr(again, "read"), [])
        except PyRaise:
            I.oblige("a written file can be read", FF)
            return "return"
        raw2 = again.attrs["raw_vals"]
        w = Const("w", P)
        # x is the last line of this option: the lines are finitely many
        lt = I.lt_of(part)
        last = forall([p], imp(conj([at(p), option(line(p)), key(line(p)) == w]), neg(lt([x], [p]))))
        I.oblige("values that were written are read back", imp(conj([at(x), option(line(x)), w == key(line(x)), raw0(w), last]),
                                                             conj([raw2.dom([w]), term(raw2.val([w]), P) == rawv(w)])))
        I.oblige("no other options appear", imp(raw2.dom([w]), exists([p], conj([at(p), option(line(p)), key(line(p)) == w]))))
        return kind
    return body


def line_format():
    """The lemmas about text that `roundtrip` uses, for the comments and the separator of the code."""
    @proved
    def body(I, f):
        I.strsort = STR
        cls = I.loader.func(CFG[:-1])
        pat, sep = cls.lookup("COMMENT_REGEX"), cls.lookup("SEPARATOR")
        if not isinstance(sep, str) or not (isinstance(pat, ObjV) and pat.tag == "regex"):
            raise Unsupported("how comments and options are told apart")
        sp, cat, star = star_space(), z3.Concat, z3.Star
        is_comment = lambda s: z3.InRe(s, strings.Regex(pat).language("search"))
        ins = z3.StringVal(sep)
        c = lambda n: Const(n, STR)
        l0, p0, p2, a, k, b, v, q0, q2 = (c(n) for n in ("template_line", "before", "after", "a", "name", "b", "value", "found_before", "found_after"))
        free = lambda s: neg(z3.Contains(s, ins))
        new = cat(k, ins, v, z3.StringVal("\n"))
        here = [l0 == cat(p0, ins, p2), free(p0), p0 == cat(a, k, b), z3.InRe(a, sp), z3.InRe(b, sp), stripped(k), neg(is_comment(l0)),
                strings.latin(k), strings.latin(p2), strings.latin(v)]
        pr = lambda n, g, *using: lemma_at(I, n, g, list(using))
        I.oblige("nothing is assumed of the line", TT)
        free_k = pr("the name has no separator", free(k), here[2], free(p0))
        no_hash = pr("the name is no comment", neg(z3.PrefixOf(z3.StringVal("#"), k)), *here)
        pr("a written line is no comment", neg(is_comment(new)), no_hash, stripped(k))
        pr("a written line has the separator", z3.Contains(new, ins))
        found = [new == cat(q0, ins, q2), free(q0)]
        v1 = cat(v, z3.StringVal("\n"))
        one = pr("one begins with the other", z3.Or(z3.PrefixOf(k, q0), z3.PrefixOf(q0, k)), found[0])
        facts = []
        for x, rx, y, ry, i in ((k, v1, q0, q2, 0), (q0, q2, k, v1, 1)):
            e = c("more%d" % i)
            facts.append(e == z3.SubString(y, z3.Length(x), z3.Length(y) - z3.Length(x)))
            split = pr("splitting %d" % i, imp(z3.PrefixOf(x, y), y == cat(x, e)), facts[-1])
            rest = pr("rests %d" % i, imp(z3.PrefixOf(x, y), cat(ins, rx) == cat(e, ins, ry)), split, found[0])
            hit = pr("begins with the separator %d" % i, imp(conj([z3.PrefixOf(x, y), neg(e == "")]), z3.PrefixOf(ins, e)), rest)
            facts.append(pr("no more %d" % i, imp(z3.PrefixOf(x, y), e == ""), hit, split, found[1] if i == 0 else free_k))
            facts.append(split)
        same0 = pr("the name ends at the separator", q0 == k, one, *facts)
        pr("the rest is the value", q2 == cat(v, z3.StringVal("\n")), *(found + [same0]))
        x, t, y = c("x"), c("t"), c("y")
        pr("stripping a name changes nothing", imp(conj([k == cat(x, t, y), z3.InRe(x, sp), z3.InRe(y, sp), stripped(t)]), t == k), stripped(k))
        got = [v1 == cat(x, t, y), z3.InRe(x, sp), z3.InRe(y, sp), stripped(t)]
        pr("stripping no value", imp(v == "", t == v), *got)
        some = neg(v == "")
        front = pr("a value begins with no blank", imp(some, x == ""), *got, stripped(v))
        joined = pr("blanks follow", imp(some, v1 == cat(t, y)), front, got[0])
        pr("one begins with the other (value)", z3.Or(z3.PrefixOf(v, t), z3.PrefixOf(t, v)), *[cat(v, z3.StringVal("\n")) == cat(t, y)])
        cmp_ = imp(some, z3.Or(z3.PrefixOf(v, t), z3.PrefixOf(t, v)))
        pr("comparable", cmp_, joined, imp(v1 == cat(t, y), z3.Or(z3.PrefixOf(v, t), z3.PrefixOf(t, v))))
        e0, e1 = c("rest0"), c("rest1")
        d0, d1 = e0 == z3.SubString(t, z3.Length(v), z3.Length(t) - z3.Length(v)), e1 == z3.SubString(v, z3.Length(t), z3.Length(v) - z3.Length(t))
        s0 = pr("splitting a value", imp(z3.PrefixOf(v, t), t == cat(v, e0)), d0)
        s1 = pr("splitting what is found", imp(z3.PrefixOf(t, v), v == cat(t, e1)), d1)
        n0 = pr("only the newline follows", imp(conj([some, z3.PrefixOf(v, t)]), cat(e0, y) == "\n"), s0, joined)
        w0 = pr("nothing or the newline", imp(conj([some, z3.PrefixOf(v, t)]), z3.Or(e0 == "", e0 == "\n")), n0)
        w1 = pr("no stripped text ends in a newline", neg(stripped(cat(v, z3.StringVal("\n")))))
        m0 = pr("no more than the value", imp(conj([some, z3.PrefixOf(v, t)]), e0 == ""), w0, w1, s0, stripped(t))
        n1 = pr("only blanks follow", imp(conj([some, z3.PrefixOf(t, v)]), cat(e1, z3.StringVal("\n")) == y), s1, joined)
        n2 = pr("they are blanks", imp(conj([some, z3.PrefixOf(t, v)]), z3.InRe(cat(e1, z3.StringVal("\n")), sp)), n1, got[2])
        m1 = pr("no less than the value", imp(conj([some, z3.PrefixOf(t, v)]), e1 == ""), n2, s1, stripped(v))
        pr("stripping a value gives the value", imp(some, t == v), cmp_, s0, s1, m0, m1)
        return "return"
    return body


def star_space():
    return z3.Star(SPACE)


def units():
    return [Unit("read_config", CFG + "read", read_config(), {}),
            Unit("write_config", CFG + "write", write_config(), {}),
            Unit("config_roundtrip", CFG + "write", roundtrip(), {}),
            Unit("line_format", CFG + "write", line_format(), {}),
            Unit("last_sync", PR + "_convert_epoch", stored("last_sync"), {}),
            Unit("last_adjust", PR + "_convert_epoch", stored("last_adjust"), {}),
            Unit("json_file", JS + "write", json_file(), {})]
