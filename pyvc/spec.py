"""Evaluation of specification expressions (pure, total) to SMT terms."""
import ast
import z3
from . import types as T
from .values import *

MACROS = {}     # name -> (params, ast)


def macro(sig, body):
    n, ps = sig.split('(')
    MACROS[n.strip()] = ([p.strip() for p in ps.rstrip(') ').split(',') if p.strip()],
                         ast.parse(body.strip().replace('\n', ' '), mode='eval').body)


_fresh = [0]


def fresh_name(base):
    _fresh[0] += 1
    return '%s!%d' % (base, _fresh[0])


def fresh(base, ty):
    return z3.Const(fresh_name(base), T.sort(ty))


class SpecError(Exception):
    pass


def num_join(a, b):
    """join types of two numeric values"""
    order = ['bool', 'int', 'real', 'ext']
    i, j = order.index(a[0]), order.index(b[0])
    return (order[max(i, j, 1)],)


def to_num(v, ty):
    """convert scalar V to numeric type ty"""
    if v.ty == ty:
        return v.t
    if v.ty == T.BOOL:
        t = If(v.t, z3.IntVal(1), z3.IntVal(0))
        return to_num(V(T.INT, t), ty)
    if v.ty == T.INT and ty == T.REAL:
        if z3.is_int_value(v.t):
            return z3.RealVal(v.t.as_long())
        return z3.ToReal(v.t)
    if v.ty in (T.INT, T.REAL) and ty == T.EXT:
        return T.sort(T.EXT).x_fin(to_num(v, T.REAL))
    raise Unsupported('numeric conversion %s -> %s' % (v.ty, ty))


NUM = ('bool', 'int', 'real', 'ext')


def ext_lt(a, b):
    X = T.sort(T.EXT)
    return And(Not(ext_isinf(a)), Or(ext_isinf(b), ext_val(a) < ext_val(b)))


def ext_isinf(a):
    X = T.sort(T.EXT)
    if z3.is_app(a):
        if a.decl().eq(X.x_inf.decl()):
            return TRUE
        if a.decl().eq(X.x_fin):
            return FALSE
    return X.is_x_inf(a)


def ext_val(a):
    X = T.sort(T.EXT)
    if z3.is_app(a) and a.decl().eq(X.x_fin):
        return a.arg(0)
    return X.x_val(a)


def compare(op, a, b):
    """a, b: V of numeric or equal types -> z3 bool"""
    if a.ty[0] in NUM and b.ty[0] in NUM:
        if a.ty == T.BOOL and b.ty == T.BOOL and op in ('==', '!='):
            r = a.t == b.t
            return r if op == '==' else Not(r)
        ty = num_join(a.ty, b.ty)
        x, y = to_num(a, ty), to_num(b, ty)
        if ty == T.EXT:
            if op == '==':
                return x == y
            if op == '!=':
                return x != y
            if op == '<':
                return ext_lt(x, y)
            if op == '>':
                return ext_lt(y, x)
            if op == '<=':
                return Not(ext_lt(y, x))
            return Not(ext_lt(x, y))
        if z3.is_int_value(x) and z3.is_int_value(y):
            p, q = x.as_long(), y.as_long()
            return z3.BoolVal({'==': p == q, '!=': p != q, '<': p < q, '<=': p <= q, '>': p > q, '>=': p >= q}[op])
        return {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '<=': lambda: x <= y,
                '>': lambda: x > y, '>=': lambda: x >= y}[op]()
    if op in ('==', '!='):
        if a.ty == b.ty:
            r = a.t == b.t
            if a.ty[0] == 'list':
                r = list_eq(a, b)
            elif a.ty[0] == 'set':
                r = T.sel(a.ty, 0, a.t) == T.sel(b.ty, 0, b.t)
            elif a.ty[0] == 'dict':
                if T.is_mut(a.ty[2]):
                    raise Unsupported('comparison of nested dictionaries')
                x = z3.Const(fresh_name('x'), T.sort(a.ty[1]))
                d, v, w = T.sel(a.ty, 0, a.t), T.sel(a.ty, 1, a.t), T.sel(b.ty, 1, b.t)
                r = And(d == T.sel(b.ty, 0, b.t), z3.ForAll([x], Imp(z3.Select(d, x), z3.Select(v, x) == z3.Select(w, x))))
        elif a.ty[0] == 'opt' and b.ty[0] != 'opt':
            r = And(Not(T.is_none(a.ty, a.t)), compare('==', V(a.ty[1], T.opt_val(a.ty, a.t)), b))
        elif b.ty[0] == 'opt' and a.ty[0] != 'opt':
            return compare(op, b, a)
        else:
            raise Unsupported('comparison of %s and %s' % (a.ty, b.ty))
        return r if op == '==' else Not(r)
    if a.ty[0] == 'elem' and a.ty == b.ty:
        lt = z3.Function('lt_' + a.ty[1], T.sort(a.ty), T.sort(a.ty), z3.BoolSort())
        return {'<': lambda: lt(a.t, b.t), '>': lambda: lt(b.t, a.t), '<=': lambda: Not(lt(b.t, a.t)),
                '>=': lambda: Not(lt(a.t, b.t))}[op]()
    if a.ty[0] == 'tuple' and a.ty == b.ty:      # lexicographic
        n = len(a.ty[1])

        def fld(v, i):
            return V(v.ty[1][i], T.sel(v.ty, i, v.t))

        def lt(i):
            if i == n:
                return FALSE
            return Or(compare('<', fld(a, i), fld(b, i)), And(compare('==', fld(a, i), fld(b, i)), lt(i + 1)))

        def gt(i):
            if i == n:
                return FALSE
            return Or(compare('>', fld(a, i), fld(b, i)), And(compare('==', fld(a, i), fld(b, i)), gt(i + 1)))
        return {'<': lambda: lt(0), '>': lambda: gt(0), '<=': lambda: Not(gt(0)), '>=': lambda: Not(lt(0))}[op]()
    raise Unsupported('ordering of %s and %s' % (a.ty, b.ty))


def list_eq(a, b):
    i = z3.Int(fresh_name('le'))
    ty = a.ty
    if a.t.eq(b.t):
        return TRUE
    # extensional on the meaningful range
    A, Bq = T.l_arr(ty, a.t), T.l_arr(ty, b.t)
    if T.is_mut(ty[1]):
        return And(T.l_len(ty, a.t) == T.l_len(ty, b.t), z3.ForAll([i], Imp(And(0 <= i, i < T.l_len(ty, a.t)), compare('==', V(ty[1], z3.Select(A, i)), V(ty[1], z3.Select(Bq, i))))))
    return And(T.l_len(ty, a.t) == T.l_len(ty, b.t),
               z3.ForAll([i], Imp(And(0 <= i, i < T.l_len(ty, a.t)), z3.Select(A, i) == z3.Select(Bq, i)),
                         patterns=[z3.Select(A, i), z3.Select(Bq, i)] if not (A.eq(Bq)) and _patok(A) and _patok(Bq) else []))


def _patok(a):
    return z3.is_const(a) or (z3.is_app(a) and a.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_DT_ACCESSOR))


def sel_arr(arr, i):
    """Select with a light store simplification."""
    while z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_STORE:
        j = arr.arg(1)
        if j.eq(i):
            return arr.arg(2)
        if z3.is_int_value(j) and z3.is_int_value(i):
            arr = arr.arg(0)
            continue
        break
    if z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_CONST_ARRAY:
        return arr.arg(0)
    return z3.Select(arr, i)


def quant(univ, vs, body, pats):
    q = z3.ForAll if univ else z3.Exists
    try:
        return q(vs, body, patterns=pats)
    except z3.Z3Exception:          # a trigger without the bound variable (constant maps): let the solver choose
        return q(vs, body)


class SpecEval:
    def __init__(self, env, store=None, old=None, engine=None):
        self.env = env
        self.store = store or {}
        self.old = old            # SpecEval for old(...)
        self.engine = engine

    # -- helpers ---------------------------------------------------------
    def snap(self, v):
        """Immutable snapshot (V / TupV of snapshots / objects stay Ref)."""
        if isinstance(v, Ref):
            c = self.store[v.loc]
            if isinstance(c, (ObjCell, EmptyCell)):
                return v
            return c
        if isinstance(v, PathRef):
            return V(v.ty, path_get(self, v))
        return v

    def term_of(self, v):
        v = self.snap(v)
        if isinstance(v, V):
            return v.t
        if isinstance(v, TupV):
            ts = [self.snap(x) for x in v.items]
            vs = [x if isinstance(x, V) else V(*self.typed(x)) for x in ts]
            ty = ('tuple', tuple(x.ty for x in vs))
            return T.mk(ty, *[x.t for x in vs])
        raise SpecError('no term for %r' % v)

    def typed(self, v):
        v = self.snap(v)
        if isinstance(v, V):
            return v.ty, v.t
        if isinstance(v, TupV):
            vs = [self.typed(x) for x in v.items]
            ty = ('tuple', tuple(x[0] for x in vs))
            return ty, T.mk(ty, *[x[1] for x in vs])
        raise SpecError('no term for %r' % v)

    def coerce(self, v, ty):
        """Val -> V of type ty"""
        v = self.snap(v)
        if isinstance(v, Ref) and isinstance(self.store[v.loc], EmptyCell):
            return V(ty, empty_term(ty))
        if isinstance(v, NoneV):
            if ty[0] == 'opt':
                return V(ty, T.none(ty))
        if isinstance(v, PartialInf) and ty == T.EXT:
            return V(ty, T.sort(T.EXT).x_inf)
        if isinstance(v, TupV):
            if ty[0] == 'tuple' and len(ty[1]) == len(v.items):
                return V(ty, T.mk(ty, *[self.coerce(x, t).t for x, t in zip(v.items, ty[1])]))
            if ty[0] == 'opt':
                return V(ty, T.some(ty, self.coerce(v, ty[1]).t))
            if ty[0] in ('list', 'arr'):
                vs = [self.coerce(x, ty[1]) for x in v.items]
                a = z3.K(z3.IntSort(), default_term(ty[1]))
                for i, x in enumerate(vs):
                    a = z3.Store(a, z3.IntVal(i), x.t)
                return V(ty, a) if ty[0] == 'arr' else V(ty, T.mk(ty, z3.IntVal(len(vs)), a))
        if isinstance(v, V):
            if v.ty == ty:
                return v
            if ty[0] == 'arr' and v.ty == ('list', ty[1]):
                return V(ty, T.l_arr(v.ty, v.t))
            if ty[0] == 'fn' and v.ty[0] == 'set' and ty == ('fn', v.ty[1], T.BOOL):
                return V(ty, T.sel(v.ty, 0, v.t))
            if ty[0] == 'fn' and v.ty[0] == 'dict' and ty == ('fn', v.ty[1], v.ty[2]):
                return V(ty, T.sel(v.ty, 1, v.t))
            if ty[0] in NUM and v.ty[0] in NUM:
                if ty == T.BOOL:
                    return V(ty, to_num(v, v.ty) != 0)
                if ty == T.INT and v.ty == T.REAL:
                    raise SpecError('real used as int')
                return V(ty, to_num(v, ty))
            if ty[0] == 'opt':
                return V(ty, T.some(ty, self.coerce(v, ty[1]).t))
            if v.ty[0] == 'opt':
                return self.coerce(V(v.ty[1], T.opt_val(v.ty, v.t)), ty)
            if ty[0] == 'tuple' and v.ty[0] == 'tuple' and len(ty[1]) == len(v.ty[1]):
                return V(ty, T.mk(ty, *[self.coerce(V(a, T.sel(v.ty, i, v.t)), b).t
                                        for i, (a, b) in enumerate(zip(v.ty[1], ty[1]))]))
            if v.ty == ('list', T.UNK) and ty[0] == 'list':
                return V(ty, empty_term(ty))
        raise SpecError('cannot use %r as %s' % (v, T.name(ty)))

    # -- entry points ----------------------------------------------------
    def parse(self, s):
        return ast.parse(s.strip().replace('\n', ' '), mode='eval').body if isinstance(s, str) else s

    def truth(self, e):
        return self.truthv(self.ev(self.parse(e)))

    def truthv(self, v):
        v = self.snap(v)
        if isinstance(v, V):
            if v.ty == T.BOOL:
                return v.t
            if v.ty == T.INT or v.ty == T.REAL:
                return v.t != 0
            if v.ty[0] == 'list':
                return T.l_len(v.ty, v.t) != 0
            if v.ty[0] == 'opt':
                return And(Not(T.is_none(v.ty, v.t)), self.truthv(V(v.ty[1], T.opt_val(v.ty, v.t))))
            if v.ty[0] == 'tuple':
                return z3.BoolVal(bool(v.ty[1]))
            if v.ty[0] in ('set', 'dict'):
                i = 1 if v.ty[0] == 'set' else 2
                return T.sel(v.ty, i, v.t) != 0
        if isinstance(v, NoneV):
            return FALSE
        if isinstance(v, TupV):
            return z3.BoolVal(bool(v.items))
        raise SpecError('truth of %r' % v)

    def val(self, e):
        return self.ev(self.parse(e))

    # -- evaluation ------------------------------------------------------
    def ev(self, n):
        return getattr(self, 'x_' + type(n).__name__)(n)

    def x_Constant(self, n):
        if n.value is None:
            return NoneV()
        if isinstance(n.value, bool):
            return B(n.value)
        if isinstance(n.value, int):
            return I(n.value)
        if isinstance(n.value, str):
            return StrV(n.value)
        raise SpecError('constant %r' % n.value)

    def x_Name(self, n):
        if n.id in self.env:
            v = self.env[n.id]
            if isinstance(v, MaybeUnbound):
                v = v.val
            return v
        if n.id == 'inf':
            return V(T.EXT, T.sort(T.EXT).x_inf)
        from . import theory
        if self.engine is not None:
            g = self.engine.spec_global(n.id)
            if g is not None:
                return g
        f = theory.FNS.get(n.id)
        if f is not None and not f.args:
            return V(f.ret, f.z3decl()())
        raise SpecError('unknown name %s' % n.id)

    def num(self, v):
        v = self.snap(v)
        if isinstance(v, PartialInf):
            return V(T.EXT, T.sort(T.EXT).x_inf)
        if isinstance(v, V) and v.ty[0] == 'opt':
            v = V(v.ty[1], T.opt_val(v.ty, v.t))
        if not (isinstance(v, V) and v.ty[0] in NUM):
            raise SpecError('number expected: %r' % v)
        return v

    def x_BinOp(self, n):
        a, b = self.ev(n.left), self.ev(n.right)
        sa, sb = self.snap(a), self.snap(b)
        if isinstance(sa, TupV) and isinstance(sb, TupV) and isinstance(n.op, ast.Add):
            return TupV(sa.items + sb.items)
        if isinstance(sa, V) and sa.ty[0] == 'set' and isinstance(n.op, (ast.BitOr, ast.BitAnd, ast.Sub)):
            return set_op(type(n.op).__name__, sa, self.coerce(sb, sa.ty))
        a, b = self.num(a), self.num(b)
        return spec_arith(type(n.op).__name__, a, b)

    def x_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            return bv(Not(self.truth(n.operand)))
        v = self.num(self.ev(n.operand))
        if isinstance(n.op, ast.USub):
            ty = T.INT if v.ty == T.BOOL else v.ty
            t = to_num(v, ty)
            if z3.is_int_value(t):
                return I(-t.as_long())
            return V(ty, -t)
        raise SpecError('unary')

    def x_BoolOp(self, n):
        ts = []
        for v in n.values:            # literal short-circuit: the rest may mention names that are not bound yet
            t = self.truth(v)
            if z3.is_false(t) and isinstance(n.op, ast.And):
                return bv(t)
            if z3.is_true(t) and isinstance(n.op, ast.Or):
                return bv(t)
            ts.append(t)
        return bv(And(*ts) if isinstance(n.op, ast.And) else Or(*ts))

    def x_IfExp(self, n):
        return self.ite(self.truth(n.test), self.ev(n.body), self.ev(n.orelse))

    def ite(self, c, a, b):
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        a, b = self.snap(a), self.snap(b)
        if isinstance(a, TupV) and isinstance(b, TupV):
            return TupV([self.ite(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, TupV):
            a = V(*self.typed(a))
        if isinstance(b, TupV):
            b = V(*self.typed(b))
        if a.ty != b.ty:
            if a.ty[0] in NUM and b.ty[0] in NUM:
                ty = num_join(a.ty, b.ty)
                return V(ty, If(c, to_num(a, ty), to_num(b, ty)))
            raise SpecError('ite types')
        return V(a.ty, If(c, a.t, b.t))

    def x_Compare(self, n):
        out = []
        l = self.ev(n.left)
        for op, r in zip(n.ops, n.comparators):
            rv = self.ev(r)
            out.append(self.cmp1(op, l, rv))
            l = rv
        return bv(And(*out))

    def cmp1(self, op, l, r):
        if isinstance(op, (ast.Is, ast.IsNot)):
            assert isinstance(r, NoneV)
            l = self.snap(l)
            if isinstance(l, NoneV):
                c = TRUE
            elif isinstance(l, V) and l.ty[0] == 'opt':
                c = T.is_none(l.ty, l.t)
            else:
                c = FALSE
            return c if isinstance(op, ast.Is) else Not(c)
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.member(l, r)
            return c if isinstance(op, ast.In) else Not(c)
        o = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[type(op)]
        return self.cmp_vals(o, l, r)

    def cmp_vals(self, o, l, r):
        l, r = self.snap(l), self.snap(r)
        if isinstance(l, StrV) and isinstance(r, StrV) and o in ('==', '!='):
            return z3.BoolVal((l.s == r.s) == (o == '=='))
        if isinstance(l, PartialInf):
            l = self.num(l)
        if isinstance(r, PartialInf):
            r = self.num(r)
        if isinstance(l, NoneV) or isinstance(r, NoneV):
            if isinstance(l, NoneV):
                l, r = r, l
            if isinstance(l, NoneV):
                c = TRUE
            elif isinstance(l, V) and l.ty[0] == 'opt':
                c = T.is_none(l.ty, l.t)
            else:
                c = FALSE
            return c if o == '==' else Not(c)
        if isinstance(l, TupV) and isinstance(r, TupV) and o in ('==', '!='):
            if len(l.items) != len(r.items):
                c = FALSE
            else:
                c = And(*[self.cmp_vals('==', x, y) for x, y in zip(l.items, r.items)])
            return c if o == '==' else Not(c)
        if isinstance(l, (TupV, Ref)):
            if isinstance(r, V) and r.ty[0] in ('list', 'set', 'dict', 'tuple'):
                l = self.coerce(l, r.ty)
            elif isinstance(l, Ref) and isinstance(r, Ref) and isinstance(self.store[l.loc], EmptyCell) and isinstance(self.store[r.loc], EmptyCell):
                return TRUE if o == '==' else FALSE
            elif isinstance(l, TupV):
                l = V(*self.typed(l))
        if isinstance(r, (TupV, Ref)):
            if isinstance(l, V) and l.ty[0] == 'opt':
                r = self.coerce(r, l.ty)
            else:
                r = self.coerce(r, l.ty)
        if o not in ('==', '!='):      # orderings of optionals speak of the value (specifications guard it)
            l, r = [V(x.ty[1], T.opt_val(x.ty, x.t)) if isinstance(x, V) and x.ty[0] == 'opt' else x for x in (l, r)]
        return compare(o, l, r)

    def member(self, x, c):
        c = self.snap(c)
        if isinstance(c, TupV):
            return Or(*[self.cmp_vals('==', x, y) for y in c.items])
        if isinstance(c, Ref) and isinstance(self.store[c.loc], EmptyCell):
            return FALSE
        if isinstance(c, V):
            if c.ty[0] == 'set':
                return sel_arr(T.sel(c.ty, 0, c.t), self.coerce(x, c.ty[1]).t)
            if c.ty[0] == 'dict':
                return sel_arr(T.sel(c.ty, 0, c.t), self.coerce(x, c.ty[1]).t)
            if c.ty[0] == 'list':
                i = z3.Int(fresh_name('mi'))
                if T.is_mut(c.ty[1]):
                    return z3.Exists([i], And(0 <= i, i < T.l_len(c.ty, c.t), compare('==', V(c.ty[1], z3.Select(T.l_arr(c.ty, c.t), i)), self.coerce(x, c.ty[1]))))
                return z3.Exists([i], And(0 <= i, i < T.l_len(c.ty, c.t),
                                          z3.Select(T.l_arr(c.ty, c.t), i) == self.coerce(x, c.ty[1]).t))
            if c.ty[0] == 'fn' and c.ty[2] == T.BOOL:
                return sel_arr(c.t, self.coerce(x, c.ty[1]).t)
        if isinstance(c, RangeV):
            t = self.num(x).t
            return And(c.lo <= t, t < c.hi)
        raise SpecError('membership in %r' % c)

    def x_Tuple(self, n):
        return TupV([self.ev(x) for x in n.elts])

    def x_List(self, n):
        return TupV([self.ev(x) for x in n.elts])

    def x_Subscript(self, n):
        a = self.snap(self.ev(n.value))
        if isinstance(a, TupV):
            return a.items[const_int(self.ev(n.slice))]
        if not isinstance(a, V):
            raise SpecError('subscript of %r' % a)
        i = self.ev(n.slice)
        return self.index(a, i)

    def index(self, a, i):
        k = a.ty[0]
        if k == 'tuple':
            j = const_int(i)
            return V(a.ty[1][j], T.sel(a.ty, j, a.t))
        if k == 'list':
            return V(a.ty[1], sel_arr(T.l_arr(a.ty, a.t), self.num(i).t))
        if k == 'arr':
            return V(a.ty[1], sel_arr(a.t, self.num(i).t))
        if k == 'dict':
            return V(a.ty[2], sel_arr(T.sel(a.ty, 1, a.t), self.coerce(i, a.ty[1]).t))
        if k == 'fn':
            return V(a.ty[2], sel_arr(a.t, self.coerce(i, a.ty[1]).t))
        if k == 'opt':
            return self.index(V(a.ty[1], T.opt_val(a.ty, a.t)), i)
        raise SpecError('subscript of %s' % T.name(a.ty))

    def x_Attribute(self, n):
        o = self.ev(n.value)
        if isinstance(o, Ref):
            c = self.store[o.loc]
            if isinstance(c, ObjCell):
                f = c.fields.get(n.attr)
                if f is None:
                    raise SpecError('no field %s' % n.attr)
                return f
        raise SpecError('attribute %s' % n.attr)

    def bind(self, names, extra):
        return SpecEval({**self.env, **extra}, self.store,
                        self.old and SpecEval({**self.old.env, **extra}, self.old.store, None, self.engine), self.engine)

    def x_Call(self, n):
        f = n.func.id
        if f in ('forall', 'exists'):
            i = n.args[0].id
            c = z3.Int(fresh_name(i))
            lo, hi = self.num(self.ev(n.args[1])).t, self.num(self.ev(n.args[2])).t
            se = self.bind([i], {i: iv(c)})
            p = se.truth(n.args[3])
            pats = self.patterns(se, n, 4)
            if f == 'forall':
                return bv(quant(True, [c], Imp(And(lo <= c, c < hi), p), pats))
            return bv(quant(False, [c], And(lo <= c, c < hi, p), pats))
        if f in ('forallT', 'existsT'):
            ty = T._parse(n.args[0])
            i = n.args[1].id
            c = z3.Const(fresh_name(i), T.sort(ty))
            se = self.bind([i], {i: V(ty, c)})
            p = se.truth(n.args[2])
            pats = self.patterns(se, n, 3)
            return bv(quant(f == 'forallT', [c], p, pats))
        if f == 'forall2':     # forall2(i, j, guard, body, pats...)  two ints
            i, j = n.args[0].id, n.args[1].id
            c, d = z3.Int(fresh_name(i)), z3.Int(fresh_name(j))
            se = self.bind([i, j], {i: iv(c), j: iv(d)})
            g = se.truth(n.args[2])
            p = se.truth(n.args[3])
            pats = []
            if len(n.args) > 4:
                ts = [se.term_of(se.ev(x)) for x in n.args[4:]]
                pats = [z3.MultiPattern(*ts)] if len(ts) > 1 else [ts[0]]
            return bv(quant(True, [c, d], Imp(g, p), pats))
        if f == 'implies':
            a = self.truth(n.args[0])
            if z3.is_false(a):
                return bv(TRUE)
            return bv(Imp(a, self.truth(n.args[1])))
        if f == 'isbound':
            v = self.env.get(n.args[0].id)
            return bv(FALSE if v is None else v.flag if isinstance(v, MaybeUnbound) else TRUE)
        if f == 'iff':
            return bv(self.truth(n.args[0]) == self.truth(n.args[1]))
        if f == 'ite':
            return self.ite(self.truth(n.args[0]), self.ev(n.args[1]), self.ev(n.args[2]))
        if f == 'old':
            return self.old.snap(self.old.ev(n.args[0])) if self.old else self.ev(n.args[0])
        if f == 'len':
            v = self.snap(self.ev(n.args[0]))
            if isinstance(v, TupV):
                return I(len(v.items))
            if isinstance(v, Ref):
                return I(0)
            if v.ty[0] == 'opt':
                v = V(v.ty[1], T.opt_val(v.ty, v.t))
            if v.ty[0] == 'list':
                return iv(T.l_len(v.ty, v.t))
            return iv(T.sel(v.ty, 1 if v.ty[0] == 'set' else 2, v.t))
        if f == 'arr':
            v = self.snap(self.ev(n.args[0]))
            return V(('arr', v.ty[1]), T.l_arr(v.ty, v.t))
        if f == 'mem':      # set -> membership function
            v = self.snap(self.ev(n.args[0]))
            return V(('fn', v.ty[1], T.BOOL), T.sel(v.ty, 0, v.t))
        if f == 'dom':
            v = self.snap(self.ev(n.args[0]))
            return V(('fn', v.ty[1], T.BOOL), T.sel(v.ty, 0, v.t))
        if f == 'vals':
            v = self.snap(self.ev(n.args[0]))
            return V(('fn', v.ty[1], v.ty[2]), T.sel(v.ty, 1, v.t))
        if f == 'upd':
            a = self.ev(n.args[0])
            a = self.snap(a)
            if a.ty[0] == 'list':
                a = V(('arr', a.ty[1]), T.l_arr(a.ty, a.t))
            et = a.ty[1] if a.ty[0] == 'arr' else a.ty[2]
            kt = T.INT if a.ty[0] == 'arr' else a.ty[1]
            return V(a.ty, z3.Store(a.t, self.coerce(self.ev(n.args[1]), kt).t, self.coerce(self.ev(n.args[2]), et).t))
        if f == 'fnconst':  # the constant function (of int arguments, or those of the given type)
            v = self.snap(self.ev(n.args[0]))
            kt = T._parse(n.args[1]) if len(n.args) > 1 else T.INT
            return V(('fn', kt, v.ty), z3.K(T.sort(kt), v.t))
        if f == 'abs':
            v = self.num(self.ev(n.args[0]))
            return V(v.ty, If(v.t >= 0, v.t, -v.t))
        if f in ('min', 'max'):
            a, b = self.num(self.ev(n.args[0])), self.num(self.ev(n.args[1]))
            return self.ite(compare('<=' if f == 'min' else '>=', a, b), a, b)
        if f == 'some':
            v = self.snap(self.ev(n.args[0]))
            return V(('opt', v.ty), T.some(('opt', v.ty), v.t))
        if f == 'val':      # unwrap optional
            v = self.snap(self.ev(n.args[0]))
            return V(v.ty[1], T.opt_val(v.ty, v.t)) if v.ty[0] == 'opt' else v
        if f == 'fin':
            v = self.num(self.ev(n.args[0]))
            return bv(Not(ext_isinf(to_num(v, T.EXT))))
        if f == 'finval':
            v = self.num(self.ev(n.args[0]))
            return V(T.REAL, ext_val(to_num(v, T.EXT)))
        if f in MACROS:
            ps, body = MACROS[f]
            assert len(ps) == len(n.args), 'macro arity %s' % f
            extra = {p: self.ev(a) for p, a in zip(ps, n.args)}
            extra = {p: self.snap(v) for p, v in extra.items()}
            return SpecEval({**self.env_for_macro(), **extra}, self.store, self.old, self.engine).ev(body)
        from . import theory
        fn = theory.FNS.get(f)
        if fn is None:
            raise SpecError('unknown spec function %s' % f)
        if len(fn.args) != len(n.args):
            raise SpecError('arity of %s' % f)
        args = [self.coerce(self.ev(a), t).t for a, t in zip(n.args, fn.args)]
        return V(fn.ret, fn.z3decl()(*args))

    def env_for_macro(self):
        return {}

    def patterns(self, se, n, k):
        if len(n.args) <= k:
            return []
        pats = []
        for p in n.args[k:]:
            if isinstance(p, ast.Tuple):
                pats.append(z3.MultiPattern(*[se.term_of(se.ev(x)) for x in p.elts]))
            else:
                pats.append(se.term_of(se.ev(p)))
        return pats


def spec_arith(op, a, b):
    """Total arithmetic; // and % are Euclidean (= Python's for positive divisors)."""
    ty = num_join(a.ty, b.ty)
    x, y = to_num(a, ty), to_num(b, ty)
    if op == 'Pow':
        c = const_int(b)
        if c is not None and 0 <= c <= 4:
            r = z3.IntVal(1) if ty == T.INT else z3.RealVal(1)
            for k in range(c):
                r = x if k == 0 else r * x
            return V(ty, r)
        from . import theory
        return V(T.INT, theory.FNS['powZ'].z3decl()(x, y))
    if ty == T.EXT:
        X = T.sort(T.EXT)
        if op == 'Add':
            return V(ty, If(Or(ext_isinf(x), ext_isinf(y)), X.x_inf, X.x_fin(ext_val(x) + ext_val(y))))
        if op == 'Sub':
            return V(ty, If(ext_isinf(x), X.x_inf, X.x_fin(ext_val(x) - ext_val(y))))
        raise SpecError('ext op ' + op)
    if z3.is_int_value(x) and z3.is_int_value(y):
        p, q = x.as_long(), y.as_long()
        if op == 'Add':
            return I(p + q)
        if op == 'Sub':
            return I(p - q)
        if op == 'Mult':
            return I(p * q)
        if op == 'FloorDiv' and q > 0:
            return I(p // q)
        if op == 'Mod' and q > 0:
            return I(p % q)
    if op == 'Add':
        return V(ty, x + y)
    if op == 'Sub':
        return V(ty, x - y)
    if op == 'Mult':
        return V(ty, x * y)
    if op == 'FloorDiv' and ty == T.INT:
        return V(ty, x / y)
    if op == 'Mod' and ty == T.INT:
        return V(ty, x % y)
    if op == 'Div' and ty == T.REAL:
        return V(ty, x / y)
    raise SpecError('arith %s on %s' % (op, ty))


def set_op(op, a, b):
    ty = a.ty
    A, Bm = T.sel(ty, 0, a.t), T.sel(ty, 0, b.t)
    if op == 'BitOr':
        m = z3.SetUnion(A, Bm)
    elif op == 'BitAnd':
        m = z3.SetIntersect(A, Bm)
    else:
        m = z3.SetDifference(A, Bm)
    return V(ty, T.mk(ty, m, fresh('card', T.INT)))


def default_term(ty):
    k = ty[0]
    if k == 'int':
        return z3.IntVal(0)
    if k == 'bool':
        return FALSE
    if k == 'real':
        return z3.RealVal(0)
    if k == 'tuple':
        return T.mk(ty, *[default_term(x) for x in ty[1]])
    if k in ('list', 'set', 'dict'):
        return empty_term(ty).t if hasattr(empty_term(ty), 't') else empty_term(ty)
    return z3.Const('dflt_' + T.name(ty), T.sort(ty))


def empty_term(ty):
    k = ty[0]
    if k == 'list':
        return T.mk(ty, z3.IntVal(0), z3.K(z3.IntSort(), default_term(ty[1])))
    if k == 'set':
        return T.mk(ty, z3.K(T.sort(ty[1]), FALSE), z3.IntVal(0))
    if k == 'dict':
        return T.mk(ty, z3.K(T.sort(ty[1]), FALSE), z3.K(T.sort(ty[1]), default_term(ty[2])), z3.IntVal(0))
    raise Unsupported('empty %s' % (ty,))


def path_get(se, p):
    base = se.snap(p.base) if not isinstance(p.base, PathRef) else V(p.base.ty, path_get(se, p.base))
    if base.ty[0] == 'list':
        return sel_arr(T.l_arr(base.ty, base.t), p.idx)
    if base.ty[0] == 'dict':
        return sel_arr(T.sel(base.ty, 1, base.t), p.idx)
    raise Unsupported('path into %s' % (base.ty,))
