"""Symbolic values and the store."""
import z3
from . import types as T


class Unsupported(Exception):
    pass


class Val:
    pass


class V(Val):
    """A value denoted by one SMT term (scalars, and *snapshots* of containers)."""
    __slots__ = ('ty', 't')

    def __init__(self, ty, t):
        self.ty = ty
        self.t = t

    def __repr__(self):
        return 'V(%s,%s)' % (T.name(self.ty), self.t)


class KwV(Val):
    """the dictionary of extra keyword arguments: known names only"""
    def __init__(self, d):
        self.d = dict(d)


class TupV(Val):
    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return 'Tup%r' % (self.items,)


class Ref(Val):
    """Reference to a mutable container / object in the store."""

    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return 'Ref(%s)' % self.loc


class PathRef(Val):
    """Interior reference: element `idx` of the container designated by `base`."""

    def __init__(self, base, idx, ty):
        self.base = base
        self.idx = idx          # SMT term (list index / dict key) or field name
        self.ty = ty


class NoneV(Val):
    pass


class StrV(Val):
    def __init__(self, s):
        self.s = s


class FuncV(Val):
    def __init__(self, node, module, qual, closure=None, owner=None):
        self.node, self.module, self.qual, self.closure, self.owner = node, module, qual, closure, owner


class LambdaV(Val):
    def __init__(self, node, module, env):
        self.node, self.module, self.env = node, module, env


class BuiltinV(Val):
    def __init__(self, name):
        self.name = name


class ModV(Val):
    def __init__(self, name):
        self.name = name


class ClassV(Val):
    def __init__(self, node, module, qual):
        self.node, self.module, self.qual = node, module, qual


class MethV(Val):
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class PartialInf(Val):
    """float('inf')"""


class FloatPow(Val):
    """(c + n ** 0.5) / d of an int term n and int constants c, d (plain n ** 0.5: c = 0, d = 1)"""

    def __init__(self, t, c=0, d=1):
        self.t, self.c, self.d = t, c, d


class IterV(Val):
    """A lazily described finite sequence: length term and element function idx -> Val."""

    def __init__(self, n, at, kind='seq', src=None, facts=()):
        self.n, self.at, self.kind, self.src, self.facts = n, at, kind, src, list(facts)


class RangeV(Val):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step   # z3 ints; hi None = infinite


class MaybeUnbound(Val):
    def __init__(self, val, flag):
        self.val, self.flag = val, flag


class ObjCell:
    """Store content of an object: field -> Val"""

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields


class EmptyCell:
    """Store content of an empty container whose element type is not known yet."""

    def __init__(self, kind, default=None):
        self.kind = kind
        self.default = default


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def I(n):
    return V(T.INT, z3.IntVal(n))


def B(b):
    return V(T.BOOL, z3.BoolVal(b))


def iv(t):
    return V(T.INT, t)


def bv(t):
    return V(T.BOOL, t)


def const_int(v):
    if isinstance(v, V) and v.ty == T.INT:
        s = v.t if z3.is_int_value(v.t) else None
        if s is None and z3.is_app(v.t) and v.t.num_args() > 0:
            s = z3.simplify(v.t)
        if s is not None and z3.is_int_value(s):
            return s.as_long()
    return None


def And(*a):
    a = [x for x in a if not z3.is_true(x)]
    if any(z3.is_false(x) for x in a):
        return FALSE
    return TRUE if not a else a[0] if len(a) == 1 else z3.And(*a)


def Or(*a):
    a = [x for x in a if not z3.is_false(x)]
    if any(z3.is_true(x) for x in a):
        return TRUE
    return FALSE if not a else a[0] if len(a) == 1 else z3.Or(*a)


def Not(a):
    if z3.is_true(a):
        return FALSE
    if z3.is_false(a):
        return TRUE
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def Imp(a, b):
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return TRUE
    return z3.Implies(a, b)


def If(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    return z3.If(c, a, b)


def is_lam(t):
    return z3.is_quantifier(t) and t.is_lambda()
