"""Symbolic values.  Immutable: Python scalars, Sym, TupV, FuncV, BoundV, ClassV, ModV, Native.
Mutable (aliased by reference): SetV, MapV, ListV, GenV, DictV, ObjV, Env."""
import z3
from .terms import *


class Unsupported(Exception):
    """The program uses a construct outside the verified subset."""


class Tup:
    """Shape of a tuple: component shapes, field names, class."""
    def __init__(self, shapes, names=None, cls=None):
        self.shapes, self.names, self.cls = tuple(shapes), names, cls

    def __eq__(self, o):
        return isinstance(o, Tup) and self.shapes == o.shapes

    def __hash__(self):
        return hash(self.shapes)


class Sym:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __deepcopy__(self, memo):
        return self

    @property
    def sort(self):
        return self.e.sort()

    def __repr__(self):
        return "Sym(%s)" % self.e


class TupV:
    def __init__(self, items, names=None, cls=None):
        self.items, self.names, self.cls = tuple(items), names, cls

    def __repr__(self):
        return "TupV(%s)" % (self.items,)


class Mut:
    fields = ()

    def __deepcopy__(self, memo):
        import copy
        new = object.__new__(type(self))
        memo[id(self)] = new
        memo.setdefault("pairs", []).append((self, new))
        for k, v in self.__dict__.items():
            new.__dict__[k] = copy.deepcopy(v, memo)
        return new

    def content(self):
        return tuple(getattr(self, f) for f in self.fields)


class SetV(Mut):
    """A set given by its membership predicate over flattened elements."""
    fields = ("mem",)

    def __init__(self, shape, mem, frozen=False):
        self.shape, self.mem = shape, mem

    def copy(self):
        return SetV(self.shape, self.mem)


class MapV(Mut):
    """A dict given by its domain predicate and value function."""
    fields = ("dom", "val")

    def __init__(self, kshape, dom, val, missing=None, vshape=None):
        self.kshape, self.dom, self.val, self.missing, self.vshape = kshape, dom, val, missing, vshape


ident_source = uid


class Part:
    """One element template of a symbolic sequence: for all xs with guard, elem."""
    def __init__(self, xs, guard, elem, keys=(), lt=None, ident=None, order=None):
        self.xs, self.guard, self.elem, self.keys, self.lt = list(xs), guard, elem, list(keys), lt
        self.ident = ident if ident is not None else ident_source()
        # the sequence whose order this one keeps
        self.order = order if order is not None else self.ident

    def __deepcopy__(self, memo):
        return self


class Item:
    """One concrete position of a sequence."""
    def __init__(self, v):
        self.v = v

    def __deepcopy__(self, memo):
        import copy
        return Item(copy.deepcopy(self.v, memo))


class ListV(Mut):
    fields = ("parts",)

    def __init__(self, parts=()):
        self.parts = tuple(parts)

    @property
    def concrete(self):
        return all(isinstance(p, Item) for p in self.parts)

    def items(self):
        return [p.v for p in self.parts]


class GenV(Mut):
    """A one-shot iterator over a sequence."""
    fields = ("used",)

    def __init__(self, parts):
        self.parts, self.used = tuple(parts), False


class BagV(Mut):
    """A work list: only membership is tracked (order and multiplicity are not)."""
    fields = ("mem",)

    def __init__(self, shape, mem):
        self.shape, self.mem = shape, mem


class DictV(Mut):
    """A dict with concrete keys."""
    fields = ("d",)
    node = None                # the display of an empty one

    def __init__(self, d=None):
        self.d = dict(d or {})

    def slots(self):
        return self.d


class ObjV(Mut):
    def __init__(self, cls, attrs=None, tag=None):
        self.cls, self.attrs, self.tag = cls, dict(attrs or {}), tag

    def slots(self):
        return self.attrs

    def __repr__(self):
        return "<%s %s>" % (getattr(self.cls, "name", self.cls), self.tag or "")


class Env(Mut):
    def __init__(self, mod, parent=None, func=None):
        self.vars, self.mod, self.parent, self.func = {}, mod, parent, func
        self.nonlocals = set()

    def slots(self):
        return self.vars


class OptV:
    """A value that is None when `none` holds, else v."""
    def __init__(self, none, v):
        self.none, self.v = none, v

    def __deepcopy__(self, memo):
        import copy
        return OptV(self.none, copy.deepcopy(self.v, memo))


class FuncV:
    def __init__(self, node, mod, env, qual, cls=None, defaults=(), kwdefaults=None, lookup=None):
        self.node, self.mod, self.env, self.qual, self.cls = node, mod, env, qual, cls
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}
        self.isgen = lookup

    def __deepcopy__(self, memo):
        import copy
        if self.env is None:
            return self
        return FuncV(self.node, self.mod, copy.deepcopy(self.env, memo), self.qual, self.cls,
                     copy.deepcopy(self.defaults, memo), copy.deepcopy(self.kwdefaults, memo), self.isgen)


class BoundV:
    def __init__(self, f, self_):
        self.f, self.self_ = f, self_


class Native:
    """A built-in or modelled function: fn(I, args, kwargs)."""
    def __init__(self, name, fn, state=None):
        self.name, self.fn, self.state = name, fn, state

    def __deepcopy__(self, memo):
        if self.state is None:
            return self
        import copy
        return Native(self.name, self.fn, copy.deepcopy(self.state, memo))

    def __repr__(self):
        return "Native(%s)" % self.name


class ClassV:
    def __init__(self, name, qual, mod, bases=(), ns=None, exc=None, fields=None):
        self.name, self.qual, self.mod, self.bases, self.ns = name, qual, mod, list(bases), ns or {}
        self.exc, self.fields = exc, fields

    def __deepcopy__(self, memo):
        return self

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name]
        return None

    def namedtuple_fields(self):
        for c in self.mro():
            if c.fields is not None:
                return c.fields
        return None

    def exc_class(self):
        for c in self.mro():
            if c.exc is not None:
                return c.exc
        for c in self.mro():
            for b in c.bases:
                if isinstance(b, type) and issubclass(b, BaseException):
                    return b
        return None

    def __repr__(self):
        return "<class %s>" % self.qual


class ModV:
    def __init__(self, name, ns):
        self.name, self.ns = name, ns

    def __deepcopy__(self, memo):
        return self


class PropV:
    """property / staticmethod / classmethod marker."""
    def __init__(self, kind, fget, fset=None):
        self.kind, self.fget, self.fset = kind, fget, fset

    def __deepcopy__(self, memo):
        return self


class ExcV:
    """A raised exception: a Python class or project class, and arguments."""
    def __init__(self, cls, args=(), origin=None):
        self.cls, self.args, self.origin = cls, args, origin

    def __deepcopy__(self, memo):
        return self

    def pycls(self):
        return self.cls.exc_class() if isinstance(self.cls, ClassV) else self.cls

    def __repr__(self):
        return "ExcV(%s)" % getattr(self.cls, "__name__", getattr(self.cls, "name", self.cls))


class Opaque:
    """A value about which nothing is known (and nothing may be concluded)."""
    def __init__(self, tag):
        self.tag = tag

    def __deepcopy__(self, memo):
        return self


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class Infeasible(Exception):
    pass


# --- flattening ------------------------------------------------------------

def shape_of(v):
    if isinstance(v, Sym):
        return v.sort
    if isinstance(v, bool):
        return B
    if isinstance(v, int):
        return INT
    if isinstance(v, float):
        return REAL
    if isinstance(v, str) or v is None:
        return P
    if isinstance(v, TupV):
        return Tup([shape_of(i) for i in v.items], v.names, v.cls)
    raise Unsupported("value of unsupported shape: %r" % (v,))


def join_shape(a, b):
    if a is None or a == b:
        return b
    if b is None:
        return a
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.shapes) == len(b.shapes):
        return Tup([join_shape(x, y) for x, y in zip(a.shapes, b.shapes)], a.names or b.names, a.cls or b.cls)
    if {str(a), str(b)} == {"Int", "Real"}:
        return REAL
    raise Unsupported("incompatible shapes %s and %s" % (a, b))


def strsort(sort):
    return sort == P or sort.kind() == z3.Z3_SEQ_SORT


def term(v, sort):
    """v as a z3 term of the given sort."""
    if isinstance(v, Sym):
        if v.sort == sort:
            return v.e
        if sort == REAL and v.sort == INT:
            return z3.ToReal(v.e)
        if sort == INT and v.sort == B:
            return If(v.e, IntVal(1), IntVal(0))
        if sort == REAL and v.sort == B:
            return If(v.e, RealVal(1), RealVal(0))
        raise Unsupported("cannot use %s as %s" % (v.sort, sort))
    if sort == B and isinstance(v, bool):
        return BoolVal(v)
    if sort == INT and isinstance(v, (bool, int)):
        return IntVal(int(v))
    if sort == REAL and isinstance(v, (bool, int, float)):
        return RealVal(repr(float(v)) if isinstance(v, float) else int(v))
    if sort == P:
        if v is None:
            return NONE
        if isinstance(v, str):
            return lit(v)
    if sort.kind() == z3.Z3_SEQ_SORT and isinstance(v, str):
        return z3.StringVal(v)
    raise Unsupported("cannot use %r as %s" % (v, sort))


def flatten(v, shape):
    if isinstance(shape, Tup):
        if not isinstance(v, TupV) or len(v.items) != len(shape.shapes):
            raise Unsupported("tuple expected, got %r" % (v,))
        return [t for i, s in zip(v.items, shape.shapes) for t in flatten(i, s)]
    return [term(v, shape)]


def sorts_of(shape):
    if isinstance(shape, Tup):
        return [s for x in shape.shapes for s in sorts_of(x)]
    return [shape]


def unflatten(shape, ts):
    ts = list(ts)

    def go(s):
        if isinstance(s, Tup):
            return TupV([go(x) for x in s.shapes], s.names, s.cls)
        t = ts.pop(0)
        return Sym(t)
    return go(shape)


def vsubst(v, pairs):
    """Substitute z3 constants in an (immutable) value."""
    if isinstance(v, Sym):
        return Sym(z3.substitute(v.e, *pairs)) if pairs else v
    if isinstance(v, TupV):
        return TupV([vsubst(i, pairs) for i in v.items], v.names, v.cls)
    if isinstance(v, DictV):
        return DictV({k: vsubst(x, pairs) for k, x in v.d.items()})
    if isinstance(v, OptV):
        return OptV(z3.substitute(v.none, *pairs), vsubst(v.v, pairs))
    if v is None or isinstance(v, (bool, int, float, str, bytes, Opaque, ClassV, ModV)):
        return v
    if isinstance(v, ObjV):
        return ObjV(v.cls, {k: vsubst(x, pairs) for k, x in v.attrs.items()}, v.tag)
    if isinstance(v, (FuncV, Native, BoundV)):
        return v
    if isinstance(v, SetV):
        mem = v.mem
        return SetV(v.shape, lambda c: z3.substitute(mem(c), *pairs))
    if isinstance(v, ListV):
        return ListV([Item(vsubst(p.v, pairs)) if isinstance(p, Item) else
                      Part(p.xs, z3.substitute(p.guard, *pairs), vsubst(p.elem, pairs), p.keys, p.lt, p.ident, p.order)
                      for p in v.parts])
    raise Unsupported("substitution in %r" % (v,))


def eqv(a, b):
    """Equality of two values as a z3 formula (or Unsupported)."""
    if isinstance(a, OptV):
        if b is None:
            return a.none
        return conj([neg(a.none), eqv(a.v, b)])
    if isinstance(b, OptV):
        return eqv(b, a)
    if isinstance(a, TupV) or isinstance(b, TupV):
        if isinstance(a, TupV) and isinstance(b, TupV):
            if len(a.items) != len(b.items):
                return FF
            return conj([eqv(x, y) for x, y in zip(a.items, b.items)])
        return FF
    if isinstance(a, Sym) or isinstance(b, Sym):
        sa = a.sort if isinstance(a, Sym) else None
        sb = b.sort if isinstance(b, Sym) else None
        s = sa if sb is None else sb if sa is None else sa
        num = {"Int", "Real", "Bool"}
        if sa is not None and sb is not None and sa != sb:
            if str(sa) in num and str(sb) in num:
                s = REAL if REAL in (sa, sb) else INT
            else:
                return FF
        other = b if sb is None else a if sa is None else None
        if other is None and (sa is None or sb is None):
            # comparing with a literal None (or False/0 handled by term)
            if s != P:
                return FF
        elif sa is None or sb is None:
            if isinstance(other, str) != strsort(s):
                return FF
            if str(s) == "Int" and isinstance(other, float):
                s = REAL
            if not isinstance(other, (bool, int, float, str)):
                return FF
        x, y = term(a, s), term(b, s)
        if s == z3.StringSort():
            from . import strings
            return TT if x.eq(y) else strings.equals(x, y)
        for u, v in ((x, y), (y, x)):
            if z3.is_app(u) and u.num_args() == 2 and u.decl().name() == "commonpath":
                # commonpath(p, d) == d iff d lies at or above p
                for i in (0, 1):
                    if u.arg(i).eq(v):
                        return under(v, u.arg(1 - i))
        return TT if x.eq(y) else simp_light(x == y)
    if isinstance(a, (SetV, MapV)) and isinstance(b, (SetV, MapV)):
        return set_eq(a, b)
    if isinstance(a, (bool, int, float, str, bytes, type(None))) and isinstance(
            b, (bool, int, float, str, bytes, type(None))):
        return BoolVal(a == b)
    if a is b:
        return TT
    if isinstance(a, ListV) and isinstance(b, ListV) and a.concrete and b.concrete:
        if len(a.parts) != len(b.parts):
            return FF
        return conj([eqv(x, y) for x, y in zip(a.items(), b.items())])
    if isinstance(a, (ObjV, ClassV, FuncV)) or isinstance(b, (ObjV, ClassV, FuncV)) \
            or a is None or b is None:
        return BoolVal(a is b)
    raise Unsupported("equality of %r and %r" % (a, b))


def gen_consts(shape, hint="c"):
    return [const(hint, s) for s in sorts_of(shape)]


def as_mem(v):
    """(shape, membership function) of any collection."""
    if isinstance(v, (SetV, BagV)):
        return v.shape, v.mem
    if isinstance(v, MapV):
        return v.kshape, v.dom
    if isinstance(v, DictV):
        keys = list(v.d)
        shape = shape_of(keys[0]) if keys else None
        return shape, lambda c: disj([c[0] == term(k, c[0].sort()) for k in keys])
    if isinstance(v, (ListV, GenV)):
        shape = None
        for p in known_parts(v.parts):
            shape = join_shape(shape, shape_of(p.v if isinstance(p, Item) else p.elem))
        parts = v.parts

        def mem(c):
            out = []
            for p in parts:
                if isinstance(p, Item):
                    out.append(conj([x == y for x, y in zip(c, flatten(p.v, shape))]))
                else:
                    out.append(part_mem(p, c, shape))
            return disj(out)
        return shape, mem
    if isinstance(v, TupV):
        return as_mem(ListV([Item(i) for i in v.items]))
    raise Unsupported("not a collection: %r" % (v,))


def fresh_part(p):
    """Rename a part's bound variables apart."""
    ys = [const("y", x.sort()) for x in p.xs]
    prs = list(zip(p.xs, ys))
    if not prs:
        return p
    return Part(ys, z3.substitute(p.guard, *prs), vsubst(p.elem, prs),
                [(z3.substitute(k, *prs), r) for k, r in p.keys], p.lt, p.ident, p.order)


def known_parts(parts):
    """No part may stand for contents that are not known yet."""
    if any(getattr(p, "unknown", False) for p in parts):
        raise Unsupported("use of a list under construction")
    return parts


def part_mem(p, c, shape):
    known_parts((p,))
    q = fresh_part(p)
    return exists(q.xs, conj([q.guard] + [x == y for x, y in zip(c, flatten(q.elem, shape))]))


def set_eq(a, b):
    sa, ma = as_mem(a)
    sb, mb = as_mem(b)
    s = join_shape(sa, sb)
    if s is None:
        return TT
    c = gen_consts(s)
    return forall(c, (ma(c) if sa is not None else FF) == (mb(c) if sb is not None else FF))


def subset(a, b):
    sa, ma = as_mem(a)
    sb, mb = as_mem(b)
    s = join_shape(sa, sb)
    if s is None:
        return TT
    c = gen_consts(s)
    return forall(c, imp(ma(c) if sa is not None else FF, mb(c) if sb is not None else FF))


def empty_set():
    return SetV(None, lambda c: FF)
