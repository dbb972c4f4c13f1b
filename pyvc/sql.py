"""The SQL subset of the project's databases over symbolic tables.

The statements are parsed from the text that the source passes to the cursor. A table is a map from its primary key
to the other columns; booleans are formulas. Rows come in no particular order. Constraints on columns other than
primary keys (ON CONFLICT IGNORE) and foreign keys (ON DELETE CASCADE) are not modelled.
"""
import re
import z3
from .terms import *
from .values import *

TOKEN = re.compile(r"\s*(?:(--[^\n]*)|('(?:[^']|'')*')|(\d+\.\d+|\d+)|([A-Za-z_][A-Za-z_0-9]*)|(:[A-Za-z_][A-Za-z_0-9]*|\?)|(<=|>=|<>|!=|==|\|\||[-+*/(),.;=<>]))")


def tokens(text):
    out, i = [], 0
    while text[i:].strip():
        m = TOKEN.match(text, i)
        if not m:
            raise Unsupported("SQL: %r" % text[i:i + 30])
        i = m.end()
        if m.group(1):
            continue
        for k, g in (("str", 2), ("num", 3), ("name", 4), ("param", 5), ("op", 6)):
            if m.group(g) is not None:
                out.append((k, m.group(g)))
    return out


class Parser:
    def __init__(self, text):
        self.t, self.i = tokens(text), 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ("end", "")

    def at(self, *words):
        return all(self.peek(n)[0] in ("name", "op") and self.peek(n)[1].upper() == w for n, w in enumerate(words))

    def accept(self, *words):
        if self.at(*words):
            self.i += len(words)
            return True
        return False

    def expect(self, *words):
        if not self.accept(*words):
            raise Unsupported("SQL: %s expected before %r" % (" ".join(words), self.peek()[1]))

    def name(self):
        k, v = self.peek()
        if k != "name":
            raise Unsupported("SQL: name expected before %r" % v)
        self.i += 1
        return v.lower()

    def commas(self, f):
        out = [f()]
        while self.accept(","):
            out.append(f())
        return out

    def script(self):
        out = []
        while self.peek()[0] != "end":
            if self.accept(";"):
                continue
            out.append(self.statement())
            if self.peek()[0] != "end":
                self.expect(";")
        return out

    def statement(self):
        if self.accept("PRAGMA"):
            n = self.name()
            self.expect("=")
            k, v = self.peek()
            self.i += 1
            return ("pragma", n, v.upper())
        if self.accept("CREATE", "TABLE"):
            return self.create()
        if self.accept("BEGIN") or self.accept("COMMIT") or self.accept("END"):
            self.accept("TRANSACTION")
            return ("noop",)
        if self.accept("INSERT"):
            return self.insert()
        if self.accept("UPDATE"):
            t = self.name()
            self.expect("SET")
            sets = self.commas(self.assignment)
            return ("update", t, sets, self.expr() if self.accept("WHERE") else None)
        if self.accept("DELETE"):
            self.expect("FROM")
            t = self.name()
            return ("delete", t, self.expr() if self.accept("WHERE") else None)
        if self.at("SELECT"):
            return ("select", self.union())
        raise Unsupported("SQL statement %r" % self.peek()[1])

    def assignment(self):
        n = self.name()
        self.expect("=")
        return n, self.expr()

    def create(self):
        if self.accept("IF"):
            self.expect("NOT", "EXISTS")
        t = self.name()
        self.expect("(")
        cols, pk, fks, ignore = [], None, [], False
        while True:
            if self.accept("PRIMARY", "KEY"):
                self.expect("(")
                pk = self.commas(self.name)
                self.expect(")")
                ignore = self.conflict()
            elif self.accept("FOREIGN", "KEY"):
                self.expect("(")
                c = self.name()
                self.expect(")")
                self.expect("REFERENCES")
                ref = self.name()
                self.expect("(")
                rc = self.name()
                self.expect(")")
                casc = False
                if self.accept("ON", "DELETE"):
                    self.expect("CASCADE")
                    casc = True
                fks.append((c, ref, rc, casc))
            else:
                n, ty = self.name(), self.name()
                while not (self.at(",") or self.at(")")):
                    if self.accept("PRIMARY", "KEY"):
                        pk, ignore = [n], self.conflict()
                    elif self.accept("NOT", "NULL"):
                        pass
                    elif self.accept("DEFAULT"):
                        self.primary()
                    else:
                        raise Unsupported("SQL: column constraint %r" % self.peek()[1])
                cols.append((n, ty))
            if self.accept(")"):
                break
            self.expect(",")
        if self.accept("WITHOUT"):
            self.expect("ROWID")
        if pk is None:
            raise Unsupported("SQL: table without primary key")
        return ("create", t, cols, pk, fks, ignore)

    def conflict(self):
        if self.accept("ON", "CONFLICT"):
            if self.accept("IGNORE"):
                return "ignore"
            if self.accept("REPLACE"):
                return "replace"
            raise Unsupported("SQL: conflict clause %r" % self.peek()[1])
        return False

    def insert(self):
        how = None
        if self.accept("OR"):
            how = self.name()
            if how not in ("ignore", "replace"):
                raise Unsupported("SQL: INSERT OR %s" % how)
        self.expect("INTO")
        t = self.name()
        cols = None
        if self.accept("("):
            cols = self.commas(self.name)
            self.expect(")")
        if self.accept("VALUES"):
            self.expect("(")
            vals = self.commas(self.expr)
            self.expect(")")
            return ("insert", t, cols, how, [("query", vals, [], None)])
        return ("insert", t, cols, how, self.union())

    def union(self):
        out = [self.query()]
        while self.accept("UNION"):
            self.accept("ALL")
            out.append(self.query())
        return out

    def query(self):
        self.expect("SELECT")
        self.accept("DISTINCT")
        items = self.commas(self.item)
        tables = []
        where = None
        if self.accept("FROM"):
            tables.append((self.table(), None))
            while True:
                if self.accept(","):
                    tables.append((self.table(), None))
                elif self.accept("JOIN") or self.accept("INNER", "JOIN") or self.accept("CROSS", "JOIN"):
                    t = self.table()
                    tables.append((t, self.expr() if self.accept("ON") else None))
                else:
                    break
        if self.accept("WHERE"):
            where = self.expr()
        if self.at("ORDER") or self.at("GROUP") or self.at("LIMIT") or self.at("LEFT"):
            raise Unsupported("SQL: %s" % self.peek()[1])
        return ("query", items, tables, where)

    def item(self):
        if self.accept("*"):
            return ("star",)
        e = self.expr()
        if self.accept("AS"):
            self.name()
        return e

    KEYWORDS = {"JOIN", "INNER", "CROSS", "ON", "WHERE", "UNION", "ORDER", "GROUP", "LIMIT", "LEFT", "SET"}

    def table(self):
        n = self.name()
        a = n
        if self.accept("AS"):
            a = self.name()
        elif self.peek()[0] == "name" and self.peek()[1].upper() not in self.KEYWORDS:
            a = self.name()
        return n, a

    def expr(self):
        e = self.conj()
        while self.accept("OR"):
            e = ("or", e, self.conj())
        return e

    def conj(self):
        e = self.neg()
        while self.accept("AND"):
            e = ("and", e, self.neg())
        return e

    def neg(self):
        if self.at("NOT") and not self.at("NOT", "EXISTS"):
            self.i += 1
            return ("not", self.neg())
        return self.comparison()

    def comparison(self):
        e = self.add()
        while True:
            if self.accept("IS", "NOT", "NULL"):
                e = ("not", ("isnull", e))
            elif self.accept("IS", "NULL"):
                e = ("isnull", e)
            elif self.accept("NOT", "IN"):
                e = ("not", self.inlist(e))
            elif self.accept("IN"):
                e = self.inlist(e)
            elif self.peek()[0] == "op" and self.peek()[1] in ("=", "==", "!=", "<>", "<", ">", "<=", ">="):
                op = self.peek()[1]
                self.i += 1
                e = ("cmp", {"==": "=", "<>": "!="}.get(op, op), e, self.add())
            else:
                return e

    def inlist(self, e):
        self.expect("(")
        if self.at("SELECT"):
            q = self.union()
            self.expect(")")
            return ("in", e, q)
        vs = self.commas(self.expr)
        self.expect(")")
        r = ("cmp", "=", e, vs[0])
        for v in vs[1:]:
            r = ("or", r, ("cmp", "=", e, v))
        return r

    def add(self):
        e = self.mul()
        while self.peek() in (("op", "+"), ("op", "-")):
            op = self.peek()[1]
            self.i += 1
            e = ("arith", op, e, self.mul())
        return e

    def mul(self):
        e = self.primary()
        while self.peek() in (("op", "*"), ("op", "/")):
            op = self.peek()[1]
            self.i += 1
            e = ("arith", op, e, self.primary())
        return e

    def primary(self):
        k, v = self.peek()
        if k == "num":
            self.i += 1
            return ("lit", float(v) if "." in v else int(v))
        if k == "str":
            self.i += 1
            return ("lit", v[1:-1].replace("''", "'"))
        if k == "param":
            self.i += 1
            return ("param", v)
        if self.accept("NULL"):
            return ("lit", None)
        if self.accept("TRUE"):
            return ("lit", 1)
        if self.accept("FALSE"):
            return ("lit", 0)
        if self.accept("-"):
            return ("arith", "-", ("lit", 0), self.primary())
        if self.accept("("):
            if self.at("SELECT"):
                q = self.union()
                self.expect(")")
                return ("scalar", q)
            e = self.expr()
            self.expect(")")
            return e
        if self.at("NOT", "EXISTS"):
            self.i += 1
            return ("not", self.primary())
        if self.accept("EXISTS"):
            self.expect("(")
            q = self.union()
            self.expect(")")
            return ("exists", q)
        if k == "name":
            n = self.name()
            if self.accept("("):
                if self.accept(")"):
                    return ("call", n, [])
                if self.accept("*"):
                    self.expect(")")
                    return ("call", n, ["*"])
                args = self.commas(self.expr)
                self.expect(")")
                return ("call", n, args)
            if self.accept("."):
                return ("col", n, self.name())
            return ("col", None, n)
        raise Unsupported("SQL: expression %r" % v)


_parsed = {}


def parse(text):
    if text not in _parsed:
        _parsed[text] = Parser(text).script()
    return _parsed[text]


AGG = ("sum", "min", "max", "count", "total")


def has_aggregate(e):
    if isinstance(e, tuple):
        if e[:1] == ("call",) and e[1] in AGG and len(e[2]) == 1:
            return True
        if e[:1] in (("scalar",), ("exists",), ("in",)):
            return False
        return any(has_aggregate(x) for x in e)
    if isinstance(e, list):
        return any(has_aggregate(x) for x in e)
    return False


def has_query(e):
    if isinstance(e, tuple):
        return e[:1] in (("scalar",), ("exists",), ("in",)) or any(has_query(x) for x in e)
    return isinstance(e, list) and any(has_query(x) for x in e)


# --- tables ---------------------------------------------------------------------------

SORTS = {"integer": P, "int": INT, "text": P, "bool": B, "real": REAL, "float": REAL}


class Schema:
    """A table's columns: those of the primary key first."""
    def __init__(self, name, cols, pk, fks, ignore, idcols):
        self.name, self.pk, self.fks, self.ignore = name, pk, fks, ignore
        self.types = dict(cols)
        self.rest = [n for n, t in cols if n not in pk]
        self.sorts = {n: (P if n in idcols else SORTS.get(t)) for n, t in cols}
        for n, s in self.sorts.items():
            if s is None:
                raise Unsupported("SQL: type of column %s" % n)
        self.order = [n for n, t in cols]

    def __deepcopy__(self, memo):
        return self

    def kshape(self):
        s = [self.sorts[n] for n in self.pk]
        return s[0] if len(s) == 1 else Tup(s)

    def vshape(self):
        return Tup([self.sorts[n] for n in self.rest])


def new_table(schema):
    return MapV(schema.kshape(), lambda c: FF, lambda c: TupV([Sym(default(schema.sorts[n])) for n in schema.rest]), None, schema.vshape())


def default(s):
    return FF if s == B else IntVal(0) if s == INT else RealVal(0) if s == REAL else EMPTY


class Row:
    """Column values of one row of one table."""
    def __init__(self, schema, keys, vals):
        self.schema, self.cols = schema, {}
        for n, k in zip(schema.pk, keys):
            self.cols[n] = Sym(k)
        for n, v in zip(schema.rest, vals.items):
            self.cols[n] = v


class Scope:
    def __init__(self, rows=None, outer=None):
        self.rows, self.outer = rows or {}, outer

    def find(self, alias, col):
        if alias is not None:
            if alias in self.rows:
                if col not in self.rows[alias].cols:
                    raise Unsupported("SQL: no column %s.%s" % (alias, col))
                return self.rows[alias].cols[col]
        else:
            found = [r for r in self.rows.values() if col in r.cols]
            if len(found) > 1:
                raise Unsupported("SQL: ambiguous column %s" % col)
            if found:
                return found[0].cols[col]
        if self.outer is not None:
            return self.outer.find(alias, col)
        raise Unsupported("SQL: no column %s" % col)


class Exec:
    """The execution of one statement on the tables of a database."""
    def __init__(self, I, db, params):
        self.I, self.db, self.params = I, db, params

    def table(self, n):
        t = self.db.attrs.get("t:" + n)
        if t is None:
            raise Unsupported("SQL: no table %s" % n)
        return self.db.attrs["s:" + n], t

    def param(self, n):
        p = self.params
        if n == "?":
            if not isinstance(p, TupV) or len(p.items) != 1:
                raise Unsupported("SQL: positional parameters")
            v = p.items[0]
        else:
            if not isinstance(p, DictV) or n[1:] not in p.d:
                raise Unsupported("SQL: parameter %s" % n)
            v = p.d[n[1:]]
        if isinstance(v, OptV):
            if self.I.branch(v.none):
                return None
            v = v.v
        return v

    # expressions: None is NULL; conditions are formulas
    def ev(self, e, sc):
        I, k = self.I, e[0]
        if k in ("lit", "value"):
            return e[1]
        if k == "param":
            return self.param(e[1])
        if k == "col":
            return sc.find(e[1], e[2])
        if k == "arith":
            a, b = self.ev(e[2], sc), self.ev(e[3], sc)
            if a is None or b is None:
                return None
            return I.binop(e[1], a, b)
        if k == "scalar":
            return self.scalar(e[1], sc)
        if k == "call":
            return self.func(e, sc)
        return wrap_cond(self.cond(e, sc))

    def func(self, e, sc):
        I, n, args = self.I, e[1], e[2]
        if n in ("coalesce", "ifnull"):
            vs = [self.ev(a, sc) for a in args]
            out = vs[-1]
            for v in reversed(vs[:-1]):
                if v is None:
                    continue
                if not isinstance(v, OptV):
                    out = v
                elif getattr(v, "empty", None) is not None and out == v.empty:
                    out = v.v
                elif getattr(v, "both", None) is not None and isinstance(out, (int, bool)):
                    some, val = v.both
                    out = wrap_cond(disj([conj([some, val]), conj([neg(some), BoolVal(bool(out))])]))
                else:
                    if out is None:
                        return v
                    s = v.v.sort
                    out = Sym(If(v.none, term(out, s), v.v.e))
            return out
        if n == "gen_salt":
            return Sym(I.fresh("salt", P))
        raise Unsupported("SQL function %s" % n)

    def cond(self, e, sc):
        k = e[0]
        if k == "and":
            return conj([self.cond(e[1], sc), self.cond(e[2], sc)])
        if k == "or":
            return disj([self.cond(e[1], sc), self.cond(e[2], sc)])
        if k == "not":
            return neg(self.cond2(e[1], sc))
        if k == "isnull":
            v = self.ev(e[1], sc)
            if isinstance(v, OptV):
                return v.none
            return BoolVal(v is None)
        if k == "cmp":
            return self.compare(e[1], self.ev(e[2], sc), self.ev(e[3], sc))
        if k == "in":
            v = self.ev(e[1], sc)
            return disj([exists(xs, conj([g, self.compare("=", v, vals[0])])) for xs, g, vals in self.rows(e[2], sc)])
        if k == "exists":
            return disj([exists(xs, g) for xs, g, vals in self.rows(e[1], sc)])
        v = self.ev(e, sc)
        if v is None:
            return FF
        t = self.I.truth(v)
        return t if not isinstance(t, bool) else BoolVal(t)

    def cond2(self, e, sc):
        """A condition that is negated: NULL must not occur in it."""
        self.no_null(e, sc)
        return self.cond(e, sc)

    def no_null(self, e, sc):
        if e[0] in ("and", "or"):
            self.no_null(e[1], sc)
            self.no_null(e[2], sc)
        elif e[0] == "cmp":
            if any(v is None or isinstance(v, OptV) for v in (self.ev(e[2], sc), self.ev(e[3], sc))):
                raise Unsupported("SQL: negated comparison with NULL")

    def compare(self, op, a, b):
        if a is None or b is None:
            return FF
        if isinstance(a, OptV):
            return conj([neg(a.none), self.compare(op, a.v, b)])
        if isinstance(b, OptV):
            return conj([neg(b.none), self.compare(op, a, b.v)])
        isb = lambda v: isinstance(v, bool) or (isinstance(v, Sym) and v.sort == B)
        if isb(a) or isb(b):
            x, y = as_bool(a), as_bool(b)
            if op == "=":
                return x == y if not (is_true(x) or is_true(y) or is_false(x) or is_false(y)) else simple_eq(x, y)
            if op == "!=":
                return neg(simple_eq(x, y))
            if op == "<":
                return conj([neg(x), y])
            if op == ">":
                return conj([x, neg(y)])
            return imp(x, y) if op == "<=" else imp(y, x)
        if isinstance(a, Sym) or isinstance(b, Sym):
            s = a.sort if isinstance(a, Sym) else b.sort
            if s in (INT, REAL):
                s = REAL if REAL in (shape_of(a), shape_of(b)) else INT
            x, y = term(a, s), term(b, s)
            if op == "=":
                return TT if x.eq(y) else x == y
            if op == "!=":
                return FF if x.eq(y) else neg(x == y)
            if s == P:
                raise Unsupported("SQL: order of texts")
            return {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]
        import operator as o
        return BoolVal({"=": o.eq, "!=": o.ne, "<": o.lt, ">": o.gt, "<=": o.le, ">=": o.ge}[op](a, b))

    # queries: rows as (variables, condition, values)
    def rows(self, qs, sc=None):
        return [self.query(q, sc) for q in qs]

    def query(self, q, outer):
        _, items, tables, where = q
        sc = Scope({}, outer)
        xs, gs = [], []
        for (n, alias), on in tables:
            schema, t = self.table(n)
            ks = [const(alias + "_" + c, schema.sorts[c]) for c in schema.pk]
            if alias in sc.rows:
                raise Unsupported("SQL: table named twice")
            sc.rows[alias] = Row(schema, ks, t.val(ks))
            xs += ks
            gs.append(t.dom(ks))
            if on is not None:
                gs.append(self.cond(on, sc))
        if where is not None:
            gs.append(self.cond(where, sc))
        xs, g, sub = one_point(xs, simp_light(conj(gs)))
        if any(has_aggregate(i) for i in items):
            return [], TT, [self.aggregate(i, sc, xs, g, sub) for i in items]
        vals = []
        for i in items:
            if i == ("star",):
                for r in sc.rows.values():
                    vals += [r.cols[c] for c in r.schema.order]
            else:
                vals.append(self.ev(i, sc))
        return xs, g, [substv(v, sub) for v in vals]

    def aggregate(self, e, sc, xs, g, sub):
        I = self.I
        if e[0] == "call" and e[1] in AGG and len(e[2]) == 1:
            n = e[1]
            none = neg(exists(xs, g))
            if n == "count":
                return Sym(I.sum_term(xs, g, IntVal(1)))
            v = substv(self.ev(e[2][0], sc), sub)
            if n in ("sum", "total"):
                r = OptV(none, Sym(I.sum_term(xs, g, as_num(v))))
                r.empty = 0
                return r.v if n == "total" else r
            if isinstance(v, Sym) and v.sort == B:
                all_ = forall(xs, imp(g, v.e)) if n == "min" else exists(xs, conj([g, v.e]))
                r = OptV(none, Sym(all_))
                r.both = (neg(none), all_)
                return r
            m = I.fresh(n, v.sort)
            t = term(v, v.sort)
            I.assume(imp(neg(none), exists(xs, conj([g, t == m]))))
            I.assume(forall(xs, imp(g, t >= m if n == "min" else t <= m)))
            return OptV(none, Sym(m))
        if e[0] == "call" and e[1] in ("coalesce", "ifnull"):
            vs = [self.aggregate(a, sc, xs, g, sub) if has_aggregate(a) else self.ev(a, sc) for a in e[2]]
            return self.func(("call", "coalesce", [("value", v) for v in vs]), Scope())
        raise Unsupported("SQL: aggregate expression")

    def scalar(self, qs, sc):
        if len(qs) != 1:
            raise Unsupported("SQL: union as a value")
        xs, g, vals = self.query(qs[0], sc)
        if not xs and is_true(g):
            return vals[0]
        if not xs:
            return OptV(neg(g), vals[0])
        raise Unsupported("SQL: a query for one value")

    # statements
    def update(self, st):
        I = self.I
        _, n, sets, where = st
        schema, t = self.table(n)
        ks = [const("k", schema.sorts[c]) for c in schema.pk]
        dom, val = t.dom, t.val
        sc = Scope({n: Row(schema, ks, val(ks))})
        w = simp_light(self.cond(where, sc)) if where is not None else TT
        left, w1, sub = one_point(ks, w)
        single = not left
        keys = [z3.substitute(k, *sub) for k in ks] if single else ks
        if not single:
            w1 = w
            for c, e in sets:
                if has_query(e):
                    raise Unsupported("SQL: query in an update of many rows")
        old = val(keys)
        row = Scope({n: Row(schema, keys, old)})
        at_row = Exec(I, self.db, self.params)
        new = {}
        for c, e in sets:
            if c in schema.pk:
                raise Unsupported("SQL: update of the primary key")
            v = at_row.ev(e, row)
            s = schema.sorts[c]
            v = as_bool(v) if s == B else term(v, s) if not isinstance(v, OptV) and v is not None else None
            if v is None:
                raise Unsupported("SQL: NULL in column %s" % c)
            new[schema.rest.index(c)] = v
        cols = [x.e if isinstance(x, Sym) else term(x, schema.sorts[c]) for c, x in zip(schema.rest, old.items)]
        changed = {}
        for i, v in new.items():
            changed[i] = settle(w1, v, cols[i])
        sh = schema.vshape()

        def newval(c):
            o = val(c)
            items = list(o.items)
            pr = list(zip(ks, c))
            for i, (g, v) in changed.items():
                if single:
                    cnd = conj([x == y for x, y in zip(c, keys) if not x.eq(y)] + [g])
                else:
                    cnd, v = z3.substitute(g, *pr), z3.substitute(v, *pr)
                ov = term(items[i], sh.shapes[i])
                items[i] = Sym(v if is_true(cnd) else ov if is_false(cnd) else If(cnd, v, ov))
            return TupV(items)
        t.val = newval
        return exists(ks, conj([dom(ks), w]))

    def insert(self, st):
        I = self.I
        _, n, cols, how, queries = st
        schema, t = self.table(n)
        cols = cols or schema.order
        if sorted(cols) != sorted(schema.order):
            raise Unsupported("SQL: insert without all columns")
        policy = how or schema.ignore
        if policy != "ignore":
            raise Unsupported("SQL: insert without ON CONFLICT IGNORE")
        any_ = []
        for xs, g, vals in self.rows(queries):
            if len(vals) != len(cols):
                raise Unsupported("SQL: number of values")
            row = dict(zip(cols, vals))
            for v in row.values():
                if v is None or isinstance(v, OptV):
                    raise Unsupported("SQL: NULL inserted")
            tm = {c: as_bool(v) if schema.sorts[c] == B else term(v, schema.sorts[c]) for c, v in row.items()}
            self.foreign(schema, xs, g, tm)
            any_.append(self.put(schema, t, xs, g, tm))
        return disj(any_)

    def put(self, schema, t, xs, g, tm):
        dom, val = t.dom, t.val
        ks = [const("k", schema.sorts[c]) for c in schema.pk]
        eqs = conj([k == tm[c] for k, c in zip(ks, schema.pk)])
        left, w, sub = one_point(xs, simp_light(conj([g, eqs])))
        rest = [z3.substitute(tm[c], *sub) if sub else tm[c] for c in schema.rest]
        if is_false(w):
            return FF
        bad = {x.get_id() for x in left}
        if any(occurs(v, bad) for v in rest):
            raise Unsupported("SQL: inserted values are not determined by the key")
        here = exists(left, w)
        fresh = lambda c: conj([z3.substitute(here, *list(zip(ks, c))), neg(dom(c))])
        t.dom = lambda c: disj([dom(c), z3.substitute(here, *list(zip(ks, c)))])
        sh = schema.vshape()

        def newval(c):
            o = flatten(val(c), sh)
            cnd = fresh(c)
            return unflatten(sh, [If(cnd, z3.substitute(v, *list(zip(ks, c))), ov) for v, ov in zip(rest, o)])
        t.val = newval
        return exists(ks, fresh(ks))

    def foreign(self, schema, xs, g, tm):
        """A key given as a parameter must exist in the referenced table."""
        if not self.db.attrs.get("%fk"):
            return
        ids = {x.get_id() for x in xs}
        for c, ref, rc, casc in schema.fks:
            s2, t2 = self.table(ref)
            if s2.pk == [rc] and not occurs(tm[c], ids):
                self.I.oblige("foreign key %s.%s exists" % (schema.name, c), imp(exists(xs, g), t2.dom([tm[c]])), "pre")

    def delete(self, st):
        _, n, where = st
        schema, t = self.table(n)
        ks = [const("k", schema.sorts[c]) for c in schema.pk]
        dom, val = t.dom, t.val
        w = simp_light(self.cond(where, Scope({n: Row(schema, ks, val(ks))}))) if where is not None else TT
        gone = lambda c: conj([dom(c), z3.substitute(w, *list(zip(ks, c)))])
        t.dom = lambda c: conj([dom(c), neg(z3.substitute(w, *list(zip(ks, c))))])
        for other in [a[2:] for a in sorted(self.db.attrs) if a.startswith("s:")]:
            s2, t2 = self.table(other)
            for c, ref, rc, casc in s2.fks:
                if ref != n:
                    continue
                if s2.pk.count(c) != 1 or schema.pk != [rc]:
                    raise Unsupported("SQL: foreign key")
                if not self.db.attrs.get("%fk"):
                    continue
                if not casc:
                    raise Unsupported("SQL: foreign key without cascade")
                self.cascade(t2, s2.pk.index(c), gone)
        return exists(ks, gone(ks))

    def cascade(self, t2, i, gone):
        d2 = t2.dom
        t2.dom = lambda c: conj([d2(c), neg(gone([c[i]]))])


def settle(cond, v, old):
    """Under which condition the column gets the value v (the same whatever the old value is, if possible)."""
    oid = {old.get_id()}
    if old.sort() == B and occurs(cond, oid):
        outs = []
        for o in (TT, FF):
            c, n = z3.simplify(z3.substitute(cond, (old, o))), z3.simplify(z3.substitute(v, (old, o)))
            outs.append((c, n, o))
        (c1, n1, o1), (c0, n0, o0) = outs
        # the row is written in one of the two cases, to what it is in the other
        if n1.eq(n0):
            if is_false(c1) and n0.eq(TT):
                return simp_light(c0), n0
            if is_false(c0) and n1.eq(FF):
                return simp_light(c1), n1
    return cond, v


def one_point(xs, g):
    """Eliminate variables that the condition determines."""
    subs = []
    xs = list(xs)
    again = True
    while again:
        again = False
        for c in (g.children() if z3.is_and(g) else [g]):
            if not z3.is_eq(c):
                continue
            for a, b in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                hit = [x for x in xs if x.eq(a)]
                if hit and not occurs(b, {a.get_id()}):
                    g = simp_light(z3.substitute(g, (a, b)))
                    subs = [(x, z3.substitute(t, (a, b))) for x, t in subs] + [(a, b)]
                    xs = [x for x in xs if not x.eq(a)]
                    again = True
                    break
            if again:
                break
    return xs, g, subs


def substv(v, sub):
    if not sub or not isinstance(v, (Sym, OptV)):
        return v
    if isinstance(v, OptV):
        return OptV(z3.substitute(v.none, *sub), substv(v.v, sub))
    return Sym(z3.substitute(v.e, *sub))


def as_bool(v):
    if isinstance(v, bool):
        return BoolVal(v)
    if isinstance(v, int):
        if v not in (0, 1):
            raise Unsupported("SQL: number as a boolean")
        return BoolVal(bool(v))
    if isinstance(v, Sym) and v.sort == B:
        return v.e
    if isinstance(v, Sym) and v.sort == INT:
        return neg(v.e == 0)
    raise Unsupported("SQL: boolean from %r" % (v,))


def as_num(v):
    if isinstance(v, Sym) and v.sort == B:
        return If(v.e, IntVal(1), IntVal(0))
    if isinstance(v, Sym):
        return v.e
    return term(v, INT if isinstance(v, int) else REAL)


def simple_eq(x, y):
    if is_true(x):
        return y
    if is_true(y):
        return x
    if is_false(x):
        return neg(y)
    if is_false(y):
        return neg(x)
    return x == y


def wrap_cond(f):
    return bool(is_true(f)) if is_true(f) or is_false(f) else Sym(f)


# --- connections and cursors ------------------------------------------------------------

def new_database():
    return ObjV(None, {"%fk": False}, "sqldb")


def connection(db):
    return ObjV(None, {"%db": db}, "sqlconn")


def run(I, cur, st, params):
    """Execute a statement; DML returns whether any row was changed."""
    db = cur.attrs["%conn"].attrs["%db"]
    x = Exec(I, db, params)
    k = st[0]
    if k == "noop":
        return None
    if k == "pragma":
        if st[1] == "foreign_keys":
            db.attrs["%fk"] = st[2] in ("ON", "1", "TRUE")
        I.hooks.get("pragma", lambda *a: None)(I, st)
        return None
    if k == "create":
        idcols = {c for c, ref, rc, casc in st[4]}
        if "t:" + st[1] in db.attrs:
            raise Unsupported("SQL: table created twice")
        s = Schema(st[1], st[2], st[3], st[4], st[5], idcols)
        db.attrs["s:" + st[1]] = s
        db.attrs["t:" + st[1]] = new_table(s)
        return None
    if k == "select":
        rs = x.rows(st[1])
        cur.attrs["%rows"] = ListV([Part(xs, g, TupV(vals)) if xs or not is_true(g) else Item(TupV(vals)) for xs, g, vals in rs])
        return None
    return {"update": x.update, "insert": x.insert, "delete": x.delete}[k](st)


def one_statement(text):
    if not isinstance(text, str):
        raise Unsupported("SQL text is not a literal")
    sts = parse(text)
    if len(sts) != 1:
        raise Unsupported("SQL: several statements")
    return sts[0]


def execute(I, cur, a):
    st = one_statement(a[0])
    p = a[1] if len(a) > 1 else None
    if isinstance(p, ListV) and p.concrete:
        p = TupV(p.items())
    cur.attrs["%rows"] = ListV()
    r = run(I, cur, st, p)
    cur.attrs["%changed"] = Sym(r) if r is not None else False
    return cur


def increments(I, cur, st, parts):
    """UPDATE t SET c = c + e WHERE key = k for every element: the contributions to a row are added up."""
    if st[0] != "update" or len(st[2]) != 1 or len(parts) != 1 or not isinstance(parts[0], Part):
        return False
    _, n, [(col, e)], where = st
    if e[0] != "arith" or e[1] != "+" or where is None:
        return False
    _, _, a, b = e
    same = lambda x: x[0] == "col" and x[2] == col and x[1] in (None, n)
    if not same(a) and same(b):
        a, b = b, a
    if not same(a):
        return False
    db = cur.attrs["%conn"].attrs["%db"]
    q = parts[0]
    x = Exec(I, db, q.elem)
    schema, t = x.table(n)
    ks = [const("k", schema.sorts[c]) for c in schema.pk]
    dom, val = t.dom, t.val
    i = schema.rest.index(col)
    sc = Scope({n: Row(schema, ks, val(ks))})
    w = simp_light(x.cond(where, sc))
    d = x.ev(b, Scope())
    s = schema.sorts[col]
    d = term(d, s)
    left, w1, sub = one_point(q.xs, simp_light(conj([q.guard, w])))
    if not left:
        add = If(w1, z3.substitute(d, *sub) if sub else d, default(s))
    else:
        outer = list(I.ctx)
        I.ctx = outer + ks
        try:
            add = I.sum_term(q.xs, conj([q.guard, w]), d)
        finally:
            I.ctx = outer

    def newval(c):
        items = list(val(c).items)
        items[i] = Sym(term(items[i], s) + z3.substitute(add, *list(zip(ks, c))))
        return TupV(items)
    t.val = newval
    return True


def executemany(I, cur, a):
    st = one_statement(a[0])
    if st[0] not in ("update", "insert", "delete"):
        raise Unsupported("SQL: executemany of %s" % st[0])
    cur.attrs["%rows"] = ListV()
    cur.attrs["%changed"] = False
    if st[0] == "insert" and "sql_executemany_insert" in I.hooks:
        I.hooks["sql_executemany_insert"](I, st, a[1], cur)
    parts = I.parts_of(a[1])
    if increments(I, cur, st, parts):
        cur.attrs["%changed"] = Sym(I.fresh("changed", B))
        return cur
    env = Env(None)
    env.vars["%cur"] = cur

    def body(en, v):
        c = en.vars["%cur"]
        r = run(I, c, st, v)
        old = I.truth(c.attrs["%changed"])
        c.attrs["%changed"] = wrap_cond(simp_light(disj([old, r])))
    I.for_each(parts, env, body)
    return cur


def fetchone(I, cur, a):
    rows = cur.attrs["%rows"]
    if not isinstance(rows, ListV):
        raise Unsupported("SQL: rows")
    ps = known_parts(rows.parts)
    cur.attrs["%rows"] = ListV()
    if not ps:
        return None
    if len(ps) > 1:
        raise Unsupported("SQL: one row of a union")
    p = ps[0]
    if isinstance(p, Item):
        return p.v
    if not p.xs:
        return OptV(neg(p.guard), p.elem)
    cur.attrs["%rows"] = Poison("remaining rows")
    none = neg(exists(p.xs, p.guard))
    if I.branch(none):
        return None
    xs = [I.fresh("row", x.sort()) for x in p.xs]
    sub = list(zip(p.xs, xs))
    I.assume(z3.substitute(p.guard, *sub))
    return TupV([substv(v, sub) for v in p.elem.items])


def fetchall(I, cur, a):
    rows = cur.attrs["%rows"]
    cur.attrs["%rows"] = ListV()
    if not isinstance(rows, ListV):
        raise Unsupported("SQL: rows")
    return rows


def chunks(I, cur):
    """The results of calling fetchmany() until there are no more rows: each row is in one of them."""
    rows = fetchall(I, cur, [])
    if len(rows.parts) > 1 or (rows.parts and not isinstance(rows.parts[0], Part)):
        raise Unsupported("SQL: fetchmany of a union")
    if not rows.parts:
        return GenV([])
    p = rows.parts[0]
    j = const("chunk", INT)
    f = I.fresh_fn("chunk_of", *([x.sort() for x in p.xs] + [INT]))
    inside = conj([p.guard, f(*p.xs) == j])
    # no variable name may be bound twice
    ys = [const("r", x.sort()) for x in p.xs]
    sub = list(zip(p.xs, ys))
    return GenV([Part([j], exists(p.xs, inside), ListV([Part(ys, z3.substitute(inside, *sub), TupV([substv(v, sub) for v in p.elem.items]))]),
                      [(j, False)])])


def fetchmany(I, cur, a):
    raise Unsupported("SQL: single batch of rows")


METHODS = {"execute": execute, "executemany": executemany, "fetchone": fetchone, "fetchall": fetchall, "fetchmany": fetchmany}


def cursor_method(I, o, name):
    if name == "rowcount":
        n = I.fresh("rowcount", INT)
        t = I.truth(o.attrs["%changed"])
        I.assume(n >= -1)
        I.assume((n > 0) == (t if not isinstance(t, bool) else BoolVal(t)))
        return Sym(n)
    if name in METHODS:
        f = Native("cursor." + name, lambda I, a, k: METHODS[name](I, a[0], a[1:]), o)
        if name == "fetchmany":
            f.drain = lambda I: chunks(I, o)
        return f
    if name == "executescript":
        def f(I, a, k):
            for st in parse(a[1]):
                run(I, a[0], st, None)
            return a[0]
        return Native("cursor.executescript", f, o)
    if name == "close":
        return Native("cursor.close", lambda I, a, k: None)
    return None


def conn_method(I, o, name):
    if name == "cursor":
        return Native("cursor", lambda I, a, k: ObjV(None, {"%conn": a[0], "%rows": ListV(), "%changed": False}, "sqlcursor"), o)
    if name in ("create_function", "commit", "rollback", "close"):
        return Native(name, lambda I, a, k: I.hooks.get("sql_" + name, lambda *x: None)(I, o))
    return None
