"""Models (assumed contracts) of the Python built-ins and standard-library functions the code uses."""
import ast
import z3
from . import types as T
from . import theory
from .values import *
from .spec import (SpecEval, SpecError, fresh, fresh_name, _fresh, compare, to_num, num_join, NUM, sel_arr,
                   default_term, empty_term, spec_arith, set_op, list_eq)

BUILTINS = {'len', 'abs', 'min', 'max', 'sum', 'range', 'enumerate', 'zip', 'reversed', 'sorted', 'list', 'tuple',
            'set', 'dict', 'int', 'bool', 'float', 'isinstance', 'divmod', 'pow', 'all', 'any', 'bytearray', 'print',
            'map', 'frozenset', 'str', 'iter', 'next', 'round', 'filter', 'hash', 'xrange', 'repr', 'object', 'type', 'super'}


def simp(t):
    from .engine import simp as s
    return s(t)


def unparse(n):
    from .engine import unparse as u
    return u(n)


# ---------------------------------------------------------------- containers

def set_add(c, k):
    m, n = T.sel(c.ty, 0, c.t), T.sel(c.ty, 1, c.t)
    return V(c.ty, T.mk(c.ty, z3.Store(m, k, TRUE), n + If(sel_arr(m, k), z3.IntVal(0), z3.IntVal(1))))


def set_remove(c, k):
    m, n = T.sel(c.ty, 0, c.t), T.sel(c.ty, 1, c.t)
    return V(c.ty, T.mk(c.ty, z3.Store(m, k, FALSE), n - If(sel_arr(m, k), z3.IntVal(1), z3.IntVal(0))))


def dict_put(c, k, v):
    d, m, n = (T.sel(c.ty, i, c.t) for i in range(3))
    return V(c.ty, T.mk(c.ty, z3.Store(d, k, TRUE), z3.Store(m, k, v), n + If(sel_arr(d, k), z3.IntVal(0), z3.IntVal(1))))


def dict_del(c, k):
    d, m, n = (T.sel(c.ty, i, c.t) for i in range(3))
    return V(c.ty, T.mk(c.ty, z3.Store(d, k, FALSE), m, n - If(sel_arr(d, k), z3.IntVal(1), z3.IntVal(0))))


def del_item(E, st, b, i, node):
    c = E.content(b, st)
    if c.ty[0] == 'dict':
        k = E.coerce(i, c.ty[1], st).t
        st = E.oblige(st, sel_arr(T.sel(c.ty, 0, c.t), k), 'key[%s]' % unparse(node))
        return E.write(b, dict_del(c, k), st)
    raise Unsupported('del of list item')


def member(E, st, a, b, node):
    if isinstance(b, TupV) or E.is_empty(b, st):
        return st, SpecEval({}, st.store).member(a, b)
    if isinstance(b, MethV) and b.name == 'keys':
        b = b.obj
    ty = E.type_of(b, st)
    if ty[0] == 'obj':
        r = E.call_method(b, '__contains__', [a], {}, st, node)
        if len(r) != 1:
            raise Unsupported('branching __contains__')
        return r[0][0], E.truthv(r[0][1], r[0][0])
    c = E.content(b, st) if not isinstance(b, RangeV) else b
    if isinstance(c, RangeV):
        return st, SpecEval({}, st.store).member(a, c)
    if isinstance(c, V) and c.ty[0] in ('set', 'dict', 'list'):
        try:
            SpecEval({}, st.store).coerce(a, c.ty[1])
        except SpecError:
            raise Unsupported('membership type')
        return st, SpecEval({}, st.store).member(a, c)
    raise Unsupported('membership')


def mk_fresh_list(E, st, ety, hint, n=None):
    ty = ('list', ety)
    a = fresh(hint, ('arr', ety))
    if n is None:
        n = fresh(hint + '.len', T.INT)
        st = st.assume(n >= 0)
    st, r = E.alloc(st, V(ty, T.mk(ty, n, a)), hint)
    st = st.assume(*E.elemfacts(ty, st.store[r.loc].t))
    return st, r, n, a


def list_binop(E, st, o, a, b, node):
    ta, tb = E.type_of(a, st), E.type_of(b, st)
    if o == 'Mult':
        if ta[0] != 'list':
            a, b = b, a
            ta, tb = tb, ta
        st, b = E.numv(b, st, node)
        k = to_num(b, T.INT)
        if E.is_empty(a, st):
            return [E.alloc(st, EmptyCell('list'), 'list')]
        c = E.content(a, st)
        if isinstance(a, TupV):
            raise Unsupported('repeat')
        n = z3.simplify(T.l_len(c.ty, c.t))
        if T.is_mut(c.ty[1]):
            # [[...]] * n aliases its rows
            raise Unsupported('list repetition of mutable elements')
        if z3.is_int_value(n) and n.as_long() == 1:
            arr = z3.K(z3.IntSort(), sel_arr(T.l_arr(c.ty, c.t), z3.IntVal(0)))
            ln = k if E.dry or E.proves(st, k >= 0) else If(k > 0, k, z3.IntVal(0))
            st, r = E.alloc(st, V(c.ty, T.mk(c.ty, ln, arr)), 'rep')
            return [(st, r)]
        arr = T.l_arr(c.ty, c.t)
        if z3.is_K(arr):
            # every element is the same
            ln = n * (k if E.dry or E.proves(st, k >= 0) else If(k > 0, k, z3.IntVal(0)))
            return [E.alloc(st, V(c.ty, T.mk(c.ty, ln, arr)), 'rep')]
        raise Unsupported('list repetition')
    if o == 'Add':
        if E.is_empty(a, st):
            return [E.alloc(st, E.content(b, st), 'cat')]
        if E.is_empty(b, st):
            return [E.alloc(st, E.content(a, st), 'cat')]
        if isinstance(a, TupV) or isinstance(b, TupV):
            raise Unsupported('tuple + list')
        ca, cb = E.content(a, st), E.content(b, st)
        if ca.ty != cb.ty:
            j = E.join(ca.ty, cb.ty)
            if ca.ty != j:
                ca = V(j, T.mk(j, T.l_len(ca.ty, ca.t), E.map_arr(T.l_arr(ca.ty, ca.t), ca.ty[1], j[1], st)))
            if cb.ty != j:
                cb = V(j, T.mk(j, T.l_len(cb.ty, cb.t), E.map_arr(T.l_arr(cb.ty, cb.t), cb.ty[1], j[1], st)))
        for v in (a, b):
            if T.is_mut(ca.ty[1]):
                st = shallow(E.share(v, st), ca.ty[1])
        st, c = E.concat(st, ca, cb)
        st, r = E.alloc(st, c, 'cat')
        return [(st, r)]
    raise Unsupported('list operator ' + o)


def inplace(E, st, a, op, b, node):
    o = type(op).__name__
    ty = E.type_of(a, st)
    if ty[0] == 'list' and o == 'Add':
        r = call_container_method(E, st, a, 'extend', [b], {}, node)
        return [s for s, _ in r]
    if ty[0] == 'set':
        m = {'BitOr': 'update', 'Sub': 'difference_update', 'BitAnd': 'intersection_update'}.get(o)
        if m:
            return [s for s, _ in call_container_method(E, st, a, m, [b], {}, node)]
    raise Unsupported('in-place %s on %s' % (o, ty))


def bound(E, st, n, v, dflt, node):
    """slice bound normalised into [0, n]"""
    if v is None or isinstance(v, NoneV):
        return st, dflt
    st, v = E.numv(v, st, node)
    t = to_num(v, T.INT)
    if E.dry:
        return st, t
    if not E.proves(st, t >= 0):
        t2 = If(t < 0, If(t + n < 0, z3.IntVal(0), t + n), t)
        if E.proves(st, t < 0):
            t2 = If(t + n < 0, z3.IntVal(0), t + n)
            if E.proves(st, t + n >= 0):
                t2 = simp(t + n)
        t = t2
    if not E.proves(st, t <= n):
        t = If(t > n, n, t)
    return st, t


def get_slice(E, st, b, sl, node):
    out = []
    for s1, vs in E.evs([x for x in (sl.lower, sl.upper, sl.step) if x is not None], st):
        it = iter(vs)
        lo = next(it) if sl.lower is not None else None
        hi = next(it) if sl.upper is not None else None
        step = next(it) if sl.step is not None else None
        if isinstance(b, TupV):
            f = lambda v: None if v is None or isinstance(v, NoneV) else const_int(v)
            if any(v is not None and not isinstance(v, NoneV) and const_int(v) is None for v in (lo, hi, step)):
                raise Unsupported('tuple slice')
            out.append((s1, TupV(b.items[f(lo):f(hi):f(step)])))
            continue
        if E.is_empty(b, s1):
            out.append(E.alloc(s1, EmptyCell('list'), 'slice'))
            continue
        c = E.content(b, s1)
        if c.ty[0] != 'list':
            raise Unsupported('slice of %s' % (c.ty,))
        if T.is_mut(c.ty[1]):
            s1 = shallow(E.share(b, s1), c.ty[1])
        n, arr = T.l_len(c.ty, c.t), T.l_arr(c.ty, c.t)
        k = const_int(step) if step is not None else 1
        if k == -1 and lo is None and hi is None:
            s1, r, m, na = mk_fresh_list(E, s1, c.ty[1], 'rev', n)
            i = z3.Int(fresh_name('i'))
            s1 = s1.assume(z3.ForAll([i], Imp(And(0 <= i, i < n), z3.Select(na, i) == sel_arr(arr, n - 1 - i)), patterns=[z3.Select(na, i)]))
            if z3.is_const(arr) or z3.is_app(arr) and arr.num_args() == 1:
                s1 = s1.assume(z3.ForAll([i], Imp(And(0 <= i, i < n), z3.Select(na, n - 1 - i) == z3.Select(arr, i)), patterns=[z3.Select(arr, i)]))
            out.append((s1, r))
            continue
        if k == -1 and lo is not None and hi is not None:
            s1, lv = E.numv(lo, s1, node)
            s1, hv = E.numv(hi, s1, node)
            s1 = E.oblige(s1, And(lv.t >= 0, hv.t >= 0), 'nonneg-slice[%s]' % unparse(node))
            l0 = If(lv.t > n - 1, n - 1, lv.t)
            s1, r, m, na = mk_fresh_list(E, s1, c.ty[1], 'rslice', If(l0 > hv.t, l0 - hv.t, z3.IntVal(0)))
            i = z3.Int(fresh_name('i'))
            s1 = s1.assume(z3.ForAll([i], Imp(And(0 <= i, i < m), z3.Select(na, i) == sel_arr(arr, l0 - i)), patterns=[z3.Select(na, i)]))
            out.append((s1, r))
            continue
        if k != 1:
            raise Unsupported('slice step')
        s1, l = bound(E, s1, n, lo, z3.IntVal(0), node)
        s1, h = bound(E, s1, n, hi, n, node)
        m = simp(h - l)
        if not (E.dry or E.proves(s1, m >= 0)):
            m = If(h > l, h - l, z3.IntVal(0))
        if z3.is_int_value(z3.simplify(l)) and z3.simplify(l).as_long() == 0:
            # prefix: same array, shorter length
            s1, r = E.alloc(s1, V(c.ty, T.mk(c.ty, m, arr)), 'slice')
            out.append((s1, r))
            continue
        s1, r, m, na = mk_fresh_list(E, s1, c.ty[1], 'slice', m)
        i = z3.Int(fresh_name('i'))
        s1 = s1.assume(z3.ForAll([i], Imp(And(0 <= i, i < m), z3.Select(na, i) == sel_arr(arr, l + i)), patterns=[z3.Select(na, i)]))
        out.append((s1, r))
    return out


def store_slice(E, st, b, sl, v, node):
    out = []
    c = E.content(b, st)
    if c.ty[0] != 'list':
        raise Unsupported('slice store')
    n, arr = T.l_len(c.ty, c.t), T.l_arr(c.ty, c.t)
    for s1, vs in E.evs([x for x in (sl.lower, sl.upper, sl.step) if x is not None], st):
        it = iter(vs)
        lo = next(it) if sl.lower is not None else None
        hi = next(it) if sl.upper is not None else None
        step = next(it) if sl.step is not None else None
        s1, l = bound(E, s1, n, lo, z3.IntVal(0), node)
        s1, h = bound(E, s1, n, hi, n, node)
        r = E.content(v, s1)
        if r.ty != c.ty:
            r = V(c.ty, T.mk(c.ty, T.l_len(r.ty, r.t), E.map_arr(T.l_arr(r.ty, r.t), r.ty[1], c.ty[1], s1)))
        rn, rarr = T.l_len(r.ty, r.t), T.l_arr(r.ty, r.t)
        na = fresh('sl', ('arr', c.ty[1]))
        i = z3.Int(fresh_name('i'))
        if step is None:
            # same-length replacement only (otherwise the list is resized)
            s1 = E.oblige(s1, rn == If(h > l, h - l, z3.IntVal(0)), 'slice-length[%s]' % unparse(node))
            s1 = s1.assume(z3.ForAll([i], z3.Select(na, i) == If(And(l <= i, i < h), sel_arr(rarr, i - l), z3.Select(arr, i)),
                                     patterns=[z3.Select(na, i)]))
        else:
            s1, sv = E.numv(step, s1, node)
            k = sv.t
            s1 = E.oblige(s1, k > 0, 'slice-step[%s]' % unparse(node))
            cnt = If(h > l, (h - l + k - 1) / k, z3.IntVal(0))
            # Python raises ValueError unless the sizes agree
            s1 = E.oblige(s1, rn == cnt, 'slice-length[%s]' % unparse(node))
            s1 = s1.assume(z3.ForAll([i], z3.Select(na, i) == If(And(l <= i, i < h, (i - l) % k == 0), sel_arr(rarr, (i - l) / k), z3.Select(arr, i)),
                                     patterns=[z3.Select(na, i)]))
        out.append(E.write(b, V(c.ty, T.mk(c.ty, n, na)), s1))
    return out


# ---------------------------------------------------------------- iteration

def seq_of_set(E, st, c, loc, kind):
    """an arbitrary enumeration order of a set / dict"""
    kt = c.ty[1]
    m = T.sel(c.ty, 0, c.t)
    card = T.sel(c.ty, 1 if c.ty[0] == 'set' else 2, c.t)
    seq = fresh('seq', ('arr', kt))
    rarr = fresh('rank', ('fn', kt, T.INT))
    rank = lambda x: z3.Select(rarr, x)
    rank.v = V(('fn', kt, T.INT), rarr)
    i = z3.Int(fresh_name('i'))
    x = z3.Const(fresh_name('x'), T.sort(kt))
    facts = [card >= 0,
             z3.ForAll([i], Imp(And(0 <= i, i < card), And(sel_arr(m, z3.Select(seq, i)), rank(z3.Select(seq, i)) == i)),
                       patterns=[z3.Select(seq, i)]),
             z3.ForAll([x], Imp(sel_arr(m, x), And(0 <= rank(x), rank(x) < card, z3.Select(seq, rank(x)) == x)),
                       patterns=[rank(x)] + ([z3.Select(m, x)] if not is_store(m) else []))]
    return seq, card, facts, rank


def is_store(m):
    return z3.is_app(m) and m.decl().kind() in (z3.Z3_OP_STORE, z3.Z3_OP_CONST_ARRAY) or (z3.is_quantifier(m) and m.is_lambda())


def iter_of(E, st, v, node):
    """Val -> list of (state, IterV)"""
    if isinstance(v, RangeV):
        lo, hi, step = v.lo, v.hi, v.step
        k = z3.simplify(step)
        if hi is None:
            it = IterV(None, lambda s, i: iv(simp(lo + i * step)), 'range')
        elif z3.is_int_value(k):
            c = k.as_long()
            if c > 0:
                n = If(hi > lo, (hi - lo + (c - 1)) / c if c != 1 else hi - lo, z3.IntVal(0))
            else:
                n = If(lo > hi, (lo - hi + (-c - 1)) / (-c) if c != -1 else lo - hi, z3.IntVal(0))
            n = z3.simplify(n) if all(z3.is_int_value(z3.simplify(q)) for q in (lo, hi)) else n
            if not E.dry and not z3.is_int_value(n):
                if c == 1 and E.proves(st, hi >= lo):
                    n = simp(hi - lo)
                if c == -1 and E.proves(st, lo >= hi):
                    n = simp(lo - hi)
            it = IterV(n, (lambda s, i: iv(simp(lo + i))) if c == 1 else (lambda s, i: iv(simp(lo + i * c))), 'range')
        else:
            if not E.dry:
                st = E.oblige(st, step > 0, 'range-step-positive[%s]' % unparse(node))
            n = If(hi > lo, (hi - lo + (step - 1)) / step, z3.IntVal(0))
            it = IterV(n, lambda s, i: iv(lo + i * step), 'range')
        it.step = step
        it.lo, it.hi = lo, hi
        return [(st, it)]
    if isinstance(v, IterV):
        return [(st, v)]
    if isinstance(v, TupV):
        items = v.items
        it = IterV(z3.IntVal(len(items)), None, 'seq')

        def at(s, i):
            j = z3.simplify(i)
            if z3.is_int_value(j):
                return items[j.as_long()] if 0 <= j.as_long() < len(items) else items[-1]
            st2, r = E.mk_list(s, items)
            c = st2.store[r.loc]
            return E.unpackv(V(c.ty[1], sel_arr(T.l_arr(c.ty, c.t), i)))
        it.at = at
        return [(st, it)]
    if isinstance(v, MethV) and v.name in ('keys',):
        return iter_of(E, st, v.obj, node)
    ty = E.type_of(v, st)
    if E.is_empty(v, st):
        return [(st, IterV(z3.IntVal(0), lambda s, i: NoneV()))]
    if ty[0] == 'obj':
        out = []
        for s, r in E.call_method(v, '__iter__', [], {}, st, node):
            out += iter_of(E, s, r, node)
        return out
    c = E.content(v, st)
    if ty[0] == 'list':
        if isinstance(v, Ref):
            # live view: Python re-reads the list on every step
            def n(s):
                cc = E.content(v, s)
                return T.l_len(cc.ty, cc.t) if isinstance(cc, V) else z3.IntVal(0)
            it = IterV(n, lambda s, i: E.elem_val(v, i, E.content(v, s).ty[1], s))
            it.src = V(c.ty, c.t)
        else:
            it = IterV(T.l_len(c.ty, c.t), lambda s, i: E.elem_val(v, i, c.ty[1], s))
            it.src = V(c.ty, c.t)
        nn = z3.simplify(T.l_len(c.ty, c.t))
        if z3.is_int_value(nn):
            it.const_n = nn.as_long()
        return [(st, it)]
    if ty[0] in ('set', 'dict'):
        seq, card, facts, rank = seq_of_set(E, st, c, None, ty[0])
        it = IterV(card, lambda s, i: E.unpackv(V(c.ty[1], z3.Select(seq, i))), ty[0], V(('list', c.ty[1]), T.mk(('list', c.ty[1]), card, seq)), facts)
        it.srcloc = E.root(v).loc if isinstance(v, Ref) else None
        it.rank = rank
        dm = T.sel(c.ty, 0, c.t)
        it.memof = lambda i: z3.Select(dm, z3.Select(seq, i))
        return [(st, it)]
    raise Unsupported('iteration over %s' % (ty,))


def iter_n(E, it, st):
    return it.n(st) if callable(it.n) else it.n


def to_list_val(E, st, v):
    """materialise an iterable as a list value (Ref or PathRef)"""
    ty = E.type_of(v, st)
    if ty[0] == 'list' and not isinstance(v, TupV):
        return st, v
    if isinstance(v, TupV):
        return E.mk_list(st, v.items)
    r = iter_of(E, st, v, ast.Constant(0))
    st, it = r[0]
    return list_from_iter(E, st, it)


def list_from_iter(E, st, it):
    st = st.assume(*it.facts)
    if it.n is None:
        raise Unsupported('infinite iterable')
    n = iter_n(E, it, st)
    nn = z3.simplify(n)
    if z3.is_int_value(nn) and nn.as_long() <= 12:
        return E.mk_list(st, [it.at(st, z3.IntVal(i)) for i in range(nn.as_long())])
    if it.src is not None and it.kind != 'mapped':
        c = it.src
        st, r = E.alloc(st, c, 'lst')
        if T.is_mut(c.ty[1]):
            st = shallow(st.freeze(r.loc), c.ty[1])
        return st, r
    i = z3.Int(fresh_name('i'))
    e = E.snapv(it.at(st, i), st)
    st, r, n, a = mk_fresh_list(E, st, e.ty, 'lst', n)
    st = st.assume(z3.ForAll([i], Imp(And(0 <= i, i < n), z3.Select(a, i) == e.t), patterns=[z3.Select(a, i)]))
    return st, r


# ---------------------------------------------------------------- comprehensions

def consts_between(terms, mark):
    seen = set()
    out = {}

    def go(t):
        k = t.get_id()
        if k in seen:
            return
        seen.add(k)
        if z3.is_quantifier(t):
            go(t.body())
            return
        if z3.is_app(t):
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                n = d.name()
                if '!' in n:
                    try:
                        idx = int(n.rsplit('!', 1)[1])
                    except ValueError:
                        idx = -1
                    if idx > mark:
                        if t.num_args() == 0:
                            out[n] = t
                        else:
                            out[n] = d
            for c in t.children():
                go(c)
    for t in terms:
        go(t)
    return out


def generalise(terms, ivars, mark, keep):
    """replace constants introduced while evaluating the element by functions of the index variables"""
    cs = consts_between(terms, mark)
    subs = []
    fsubs = []
    for n, c in cs.items():
        if n in keep:
            continue
        if isinstance(c, z3.FuncDeclRef):
            f = z3.Function(n + '_f', *[v.sort() for v in ivars], *[c.domain(i) for i in range(c.arity())], c.range())
            args = list(ivars) + [z3.Var(i, c.domain(i)) for i in range(c.arity())]
            fsubs.append((c, f(*args)))
        else:
            f = z3.Function(n + '_f', *[v.sort() for v in ivars], c.sort())
            subs.append((c, f(*ivars)))
    out = []
    for t in terms:
        if fsubs:
            t = z3.substitute_funs(t, *fsubs)
        if subs:
            t = z3.substitute(t, *subs)
        out.append(t)
    return out


def comprehension(E, st, e, kind):
    """[elt for x in it if c ...] and friends.  Returns [(st, Ref)]"""
    base_env = st.env
    res_states = [st]
    # evaluate generators symbolically at arbitrary indices
    mark = _fresh[0]
    ivs = []
    ns = []
    conds = []
    cur = st
    pc0 = len(st.pc)
    guards = []
    its = []
    for g in e.generators:
        r = E.ev(g.iter, cur)
        if len(r) != 1:
            raise Unsupported('branching comprehension source')
        cur, v = r[0]
        r = iter_of(E, cur, v, g.iter)
        cur, it = r[0]
        cur = cur.assume(*it.facts)
        if it.n is None:
            raise Unsupported('infinite comprehension')
        n = iter_n(E, it, cur)
        if len(ivs) == 0:
            # facts about the outermost source hold outright, not per element
            pc0 = len(cur.pc)
            mark = _fresh[0]
            st = State_like(cur, base_env)
        i = z3.Int(fresh_name('ci'))
        guard = And(i >= 0, i < n)
        guards.append(guard)
        cur = cur.assume(guard)
        pcg = len(cur.pc)
        ivs.append(i)
        ns.append(n)
        its.append(it)
        r = E.bind_iter(cur, it, i, g.target)
        cur = r[0]
        for c in g.ifs:
            r = E.ev(c, cur)
            if len(r) != 1:
                raise Unsupported('branching comprehension filter')
            cur, cv = r[0]
            ct = E.truthv(cv, cur)
            conds.append(ct)
            cur = cur.assume(ct)
            cur = E.narrow(c, cur, True)
    store_before = st.store
    elts = [e.key, e.value] if kind == 'dict' else [e.elt]
    vals = []
    wants = E.want[1][1:] if E.want[0] is e else ()
    for k, x in enumerate(elts):
        r = E.ev(x, cur)
        if len(r) != 1:
            raise Unsupported('branching comprehension element')
        cur, v = r[0]
        if wants:
            vals.append(V(wants[k], empty_term(wants[k])) if E.is_empty(v, cur) else E.coerce(v, wants[k], cur))
            continue
        sv = E.snapv(v, cur)
        if sv is None and E.is_empty(v, cur):
            h = E.contract.types.get('nested')
            if h is None:
                raise Unsupported('untyped nested empty container')
            sv = V(T.parse(h), empty_term(T.parse(h)))
        if sv is None:
            raise Unsupported('comprehension element')
        vals.append(sv)
    for loc, cell in st.store.items():
        if cur.store.get(loc) is not cell:
            raise Unsupported('comprehension with side effects')
    facts = [c for c in cur.pc[pc0:] if not any(c.eq(g) for g in guards) and not any(c.eq(k) for k in conds)]
    keep = {v.decl().name() for v in ivs}
    allterms = generalise(facts + conds + [v.t for v in vals] + ns[1:], ivs, mark, keep)
    nf = len(facts)
    facts2 = allterms[:nf]
    conds2 = allterms[nf:nf + len(conds)]
    vts = allterms[nf + len(conds):nf + len(conds) + len(vals)]
    ns2 = [ns[0]] + allterms[nf + len(conds) + len(vals):]
    guard = And(*[And(i >= 0, i < n) for i, n in zip(ivs, ns2)])
    cond = And(*conds2)
    # quantify over the value of a range variable rather than its index: better triggers
    shift = [(i, i - it.lo) for i, it in zip(ivs, its) if getattr(it, 'lo', None) is not None and simp(it.lo).get_id() != z3.IntVal(0).get_id()
             and (len(its) == 1 or z3.is_int_value(simp(it.lo)))]
    if shift and not (kind == 'list' and len(ivs) == 1 and not conds):
        def sh(t):
            return z3.simplify(z3.substitute(t, *shift))
        guard, cond, vts, facts2 = sh(guard), sh(cond), [sh(t) for t in vts], [sh(t) for t in facts2]

    def patt():
        """trigger: an index-bearing term of the source"""
        return []
    if kind == 'list' and len(ivs) == 1 and not conds:
        i = ivs[0]
        ety = vals[0].ty
        st, r, n, a = mk_fresh_list(E, st, ety, 'comp', ns[0])
        body = [z3.Select(a, i) == vts[0]] + facts2
        alt = [z3.Select(T.l_arr(its[0].src.ty, its[0].src.t), i)] if its[0].kind in ('set', 'dict') and its[0].src is not None else []
        st = st.assume(z3.ForAll([i], Imp(guard, And(*body)), patterns=[z3.Select(a, i)] + alt))
        E_facts_pattern(st)
        r_cell = st.store[r.loc]
        st = st.assume(*E.elemfacts(r_cell.ty, r_cell.t))
        return [(st, r)]
    for f in facts2:
        st = st.assume(z3.ForAll(ivs, Imp(guard, f)) if not conds else z3.ForAll(ivs, Imp(guard, f)))
    if facts2 and conds:
        # facts learnt after a filter hold only under it
        st = State_like2(st, len(facts2))
        for f in facts2:
            st = st.assume(z3.ForAll(ivs, Imp(And(guard, cond), f)))
    if kind == 'list':
        ety = vals[0].ty
        st, r, m, a = mk_fresh_list(E, st, ety, 'comp')
        j = z3.Int(fresh_name('j'))
        idx = [z3.Function(fresh_name('idx'), z3.IntSort(), z3.IntSort()) for _ in ivs]
        rank = z3.Function(fresh_name('rk'), *([z3.IntSort()] * len(ivs)), z3.IntSort())
        sub = [(v, f(j)) for v, f in zip(ivs, idx)]
        inr = And(0 <= j, j < m)
        fw = And(*[z3.substitute(x, *sub) for x in (guard, cond)], z3.Select(a, j) == z3.substitute(vts[0], *sub),
                 rank(*[f(j) for f in idx]) == j)
        st = st.assume(z3.ForAll([j], Imp(inr, fw), patterns=[z3.Select(a, j)] + [f(j) for f in idx[:1]]))
        bw = Imp(And(guard, cond), And(0 <= rank(*ivs), rank(*ivs) < m, *[f(rank(*ivs)) == v for f, v in zip(idx, ivs)],
                                       z3.Select(a, rank(*ivs)) == vts[0]))
        pats = src_patterns(cond, vts[0], ivs)
        st = st.assume(z3.ForAll(ivs, bw, patterns=pats + [rank(*ivs)]))
        if len(ivs) == 1:
            j2 = z3.Int(fresh_name('j2'))
            st = st.assume(z3.ForAll([j, j2], Imp(And(0 <= j, j < j2, j2 < m), idx[0](j) < idx[0](j2)),
                                     patterns=[z3.MultiPattern(z3.Select(a, j), z3.Select(a, j2)), z3.MultiPattern(idx[0](j), idx[0](j2))]))
            st = st.assume(m <= If(ns[0] > 0, ns[0], z3.IntVal(0)))
        return [(st, r)]
    kt = vals[0].ty
    x = z3.Const(fresh_name('x'), T.sort(kt))
    wit = [z3.Function(fresh_name('wit'), T.sort(kt), z3.IntSort()) for _ in ivs]
    sub = [(v, f(x)) for v, f in zip(ivs, wit)]
    from .engine import card_facts
    mset = fresh('cset', ('fn', kt, T.BOOL))
    n = fresh('ccard', T.INT)
    st = st.assume(*card_facts(mset, n, kt))
    pats = src_patterns(cond, vts[0], ivs)
    mapt = None
    if kind == 'dict':
        vt = vals[1].ty
        mapt = fresh('cmap', ('fn', kt, vt))
    fwx = [z3.substitute(y, *sub) for y in (guard, cond)] + [x == z3.substitute(vts[0], *sub)]
    if kind == 'dict':
        fwx.append(z3.Select(mapt, x) == z3.substitute(vts[1], *sub))
    st = st.assume(z3.ForAll([x], Imp(z3.Select(mset, x), And(*fwx)), patterns=[z3.Select(mset, x)]))
    st = st.assume(z3.ForAll(ivs, Imp(And(guard, cond), z3.Select(mset, vts[0])), patterns=pats))
    if kind == 'dict':
        # the last binding of a key wins
        if len(ivs) == 1:
            st = st.assume(z3.ForAll(ivs, Imp(And(guard, cond), wit[0](vts[0]) >= ivs[0]), patterns=pats))
        dt = ('dict', kt, vt)
        st, r = E.alloc(st, V(dt, T.mk(dt, mset, mapt, n)), 'cdict')
        return [(st, r)]
    stt = ('set', kt)
    st, r = E.alloc(st, V(stt, T.mk(stt, mset, n)), 'cset')
    return [(st, r)]


def E_facts_pattern(st):
    pass


def State_like(cur, env):
    return cur.with_env(env)


def State_like2(st, k):
    from .engine import State
    return State(st.env, st.store, st.pc[:-k], st.epoch, st.frozen)


def src_patterns(cond, val, ivs):
    """select terms mentioning all index variables, usable as triggers"""
    from .engine import has_var
    out = []
    seen = set()

    def go(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            return
        if z3.is_app(t):
            k = t.decl().kind()
            if (k == z3.Z3_OP_SELECT and not is_store(t.arg(0)) and not has_interp(t.arg(1))) or (k == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0 and not any(has_interp(c) for c in t.children())):
                if all(has_var(t, v) for v in ivs):
                    out.append(t)
            for c in t.children():
                go(c)
    go(val)
    go(cond)
    return out[:3]


def has_interp(t):
    if z3.is_app(t):
        if t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_ITE, z3.Z3_OP_UMINUS, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_NOT, z3.Z3_OP_STORE):
            return True
        return any(has_interp(c) for c in t.children())
    return False


# ---------------------------------------------------------------- calls with special syntax

def special_call(E, st, e):
    if isinstance(e.func, ast.Name) and e.func.id in ('all', 'any', 'sum') and e.func.id not in st.env \
            and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
        if e.func.id == 'sum':
            return None
        return quant_call(E, st, e.func.id, e.args[0])
    return None


def quant_call(E, st, which, g):
    """all(...) / any(...) as a bounded quantifier"""
    base_env = st.env
    if len(g.generators) != 1:
        return None
    gen = g.generators[0]
    r = E.ev(gen.iter, st)
    if len(r) != 1:
        raise Unsupported('branching source')
    cur, v = r[0]
    cur, it = iter_of(E, cur, v, gen.iter)[0]
    cur = cur.assume(*it.facts)
    n = iter_n(E, it, cur)
    if n is None:
        raise Unsupported('infinite all/any')
    nn = z3.simplify(n)
    st = cur.with_env(base_env)
    if z3.is_int_value(nn) and nn.as_long() <= 16:
        ts = []
        for k in range(nn.as_long()):
            s2 = E.bind_iter(st, it, z3.IntVal(k), gen.target)[0]
            cs = []
            for c in gen.ifs:
                rr = E.ev(c, s2)
                if len(rr) != 1:
                    raise Unsupported('branching')
                cs.append(E.truthv(rr[0][1], rr[0][0]))
                s2 = rr[0][0]
            rr = E.ev(g.elt, s2)
            if len(rr) != 1:
                raise Unsupported('branching element')
            s2 = rr[0][0]
            t = E.truthv(rr[0][1], s2)
            ts.append(Imp(And(*cs), t) if which == 'all' else And(*cs, t))
            st = s2.with_env(base_env)
        return [(st, bv(And(*ts) if which == 'all' else Or(*ts)))]
    mark = _fresh[0]
    i = z3.Int(fresh_name('qi'))
    guard = And(i >= 0, i < n)
    cur = cur.assume(guard)
    pc0 = len(cur.pc)
    cur = E.bind_iter(cur, it, i, gen.target)[0]
    conds = []
    # evaluation of later elements only happens while the earlier ones did not decide; any order is checked
    for c in gen.ifs:
        rr = E.ev(c, cur)
        if len(rr) != 1:
            raise Unsupported('branching filter')
        cur, cv = rr[0]
        ct = E.truthv(cv, cur)
        conds.append(ct)
        cur = cur.assume(ct)
    rr = E.ev(g.elt, cur)
    if len(rr) != 1:
        raise Unsupported('branching element')
    cur, v = rr[0]
    t = E.truthv(v, cur)
    facts = list(cur.pc[pc0:])
    facts = [f for f in facts if not any(f.eq(c) for c in conds)]
    terms = generalise(facts + conds + [t], [i], mark, {i.decl().name()})
    f2, c2, t2 = terms[:len(facts)], terms[len(facts):-1], terms[-1]
    pats = src_patterns(And(*c2), t2, [i])
    for f in f2:
        st = st.assume(z3.ForAll([i], Imp(And(guard, *c2), f)))
    if which == 'all':
        q = z3.ForAll([i], Imp(And(guard, *c2), t2), patterns=pats)
    else:
        q = z3.Exists([i], And(guard, *c2, t2))
    return [(st, bv(q))]


# ---------------------------------------------------------------- built-in functions

def call_builtin(E, st, name, pos, kw, node):
    short = name.split('.')[-1]
    f = globals().get('b_' + name.replace('.', '_'))
    if f is None:
        raise Unsupported('builtin %s' % name)
    return f(E, st, pos, kw, node)


def b_len(E, st, pos, kw, node):
    v = pos[0]
    if isinstance(v, TupV):
        return [(st, I(len(v.items)))]
    if E.is_empty(v, st):
        return [(st, I(0))]
    if isinstance(v, V) and v.ty[0] == 'opt':
        st = E.oblige(st, Not(T.is_none(v.ty, v.t)), 'not-None[%s]' % unparse(node))
        v = V(v.ty[1], T.opt_val(v.ty, v.t))
    ty = E.type_of(v, st)
    if ty[0] == 'obj':
        return E.call_method(v, '__len__', [], {}, st, node)
    if isinstance(v, RangeV):
        it = iter_of(E, st, v, node)[0][1]
        return [(st, iv(it.n))]
    c = E.content(v, st)
    if c.ty[0] == 'list':
        n = T.l_len(c.ty, c.t)
        if isinstance(v, PathRef):
            st = st.assume(n >= 0)
        return [(st, iv(n))]
    if c.ty[0] in ('set', 'dict'):
        n = T.sel(c.ty, 1 if c.ty[0] == 'set' else 2, c.t)
        return [(st, iv(n))]
    raise Unsupported('len of %s' % (c.ty,))


def b_abs(E, st, pos, kw, node):
    st, v = E.numv(pos[0], st, node)
    ty = T.INT if v.ty == T.BOOL else v.ty
    t = to_num(v, ty)
    if z3.is_int_value(t):
        return [(st, I(abs(t.as_long())))]
    return [(st, V(ty, If(t >= 0, t, -t)))]


def minmax(E, st, pos, kw, node, op):
    if len(pos) == 1:
        if kw.get('key') is not None:
            return minmax_key(E, st, pos[0], kw, node, op)
        st, l = to_list_val(E, st, pos[0])
        if 'default' in kw:
            raise Unsupported('default')
        if E.is_empty(l, st):
            E.oblige(st, FALSE, 'nonempty[%s]' % unparse(node))
            return []
        c = E.content(l, st)
        n, a = T.l_len(c.ty, c.t), T.l_arr(c.ty, c.t)
        st = E.oblige(st, n > 0, 'nonempty[%s]' % unparse(node))
        m = V(c.ty[1], fresh('ext', c.ty[1]))
        w = z3.Int(fresh_name('w'))
        i = z3.Int(fresh_name('i'))
        rel = '<=' if op == 'min' else '>='
        st = st.assume(0 <= w, w < n, m.t == z3.Select(a, w),
                       z3.ForAll([i], Imp(And(0 <= i, i < n), compare(rel, m, V(c.ty[1], z3.Select(a, i)))), patterns=[z3.Select(a, i)] if not is_store(a) else []))
        # the first extremal element is returned
        st = st.assume(z3.ForAll([i], Imp(And(0 <= i, i < w), compare('!=', m, V(c.ty[1], z3.Select(a, i)))), patterns=[z3.Select(a, i)] if not is_store(a) else []))
        return [(st, E.unpackv(m))]
    cur = pos[0]
    for v in pos[1:]:
        se = SpecEval({}, st.store)
        st, a = (st, cur)
        if E.type_of(cur, st)[0] in NUM or E.type_of(cur, st)[0] == 'opt':
            st, a = E.numv(cur, st, node)
            st, b = E.numv(v, st, node)
        else:
            a, b = E.snapv(cur, st), E.snapv(v, st)
        # min returns the first of equal elements
        c = compare('<=' if op == 'min' else '>=', a, b)
        cur = E.unpackv(se.ite(c, a, b))
    return [(st, cur)]


def minmax_key(E, st, src, kw, node, op):
    st, it = iter_of(E, st, src, node)[0]
    st = st.assume(*it.facts)
    n = iter_n(E, it, st)
    st = E.oblige(st, n > 0, 'nonempty[%s]' % unparse(node))
    w = z3.Int(fresh_name('w'))
    st = st.assume(0 <= w, w < n)
    key = kw['key']

    def keyat(s, i):
        # the body of the key itself: what a contract says about its result would be lost under the quantifier
        E.force_inline = True
        try:
            r = E.call(key, [it.at(s, i)], {}, s, node)
        finally:
            E.force_inline = False
        if len(r) != 1:
            raise Unsupported('branching key')
        if r[0][0].store is not s.store:
            raise Unsupported('key with side effects')
        return r[0]
    s2, kw_ = keyat(st, w)
    st = s2
    i = z3.Int(fresh_name('i'))
    s3, ki = keyat(st.assume(0 <= i, i < n), i)
    if len(s3.pc) != len(st.pc) + 2:
        # facts introduced by the key are dropped unless purely about i (sound: fewer hypotheses)
        pass
    a, b = E.snapv(kw_, st), E.snapv(ki, st)
    rel = '<=' if op == 'min' else '>='
    body = Imp(And(0 <= i, i < n), compare(rel, a, b))
    st = st.assume(z3.ForAll([i], body, patterns=src_patterns(TRUE, b.t, [i])))
    return [(st, it.at(st, w))]


def b_min(E, st, pos, kw, node):
    return minmax(E, st, pos, kw, node, 'min')


def b_max(E, st, pos, kw, node):
    return minmax(E, st, pos, kw, node, 'max')


def b_sum(E, st, pos, kw, node):
    if isinstance(pos[0], TupV) and len(pos) == 1 and pos[0].items and all(isinstance(x, V) and x.ty == T.INT for x in pos[0].items):
        return [(st, iv(z3.Sum([x.t for x in pos[0].items])))]
    st, l = to_list_val(E, st, pos[0])
    if E.is_empty(l, st):
        return [(st, I(0))]
    c = E.content(l, st)
    ety = c.ty[1]
    if ety == T.BOOL:
        raise Unsupported('sum of bools')
    if ety == T.INT:
        f = theory.FNS['sumZ'].z3decl()
        t = f(T.l_arr(c.ty, c.t), T.l_len(c.ty, c.t))
    elif ety == T.REAL:
        f = theory.FNS['sumR'].z3decl()
        t = f(T.l_arr(c.ty, c.t), T.l_len(c.ty, c.t))
    else:
        raise Unsupported('sum of %s' % (ety,))
    if len(pos) > 1:
        st, s0 = E.numv(pos[1], st, node)
        t = t + to_num(s0, ety)
    return [(st, V(ety, t))]


def b_range(E, st, pos, kw, node):
    ts = []
    for p in pos:
        st, v = E.numv(p, st, node)
        ts.append(to_num(v, T.INT))
    if len(ts) == 1:
        return [(st, RangeV(z3.IntVal(0), ts[0], z3.IntVal(1)))]
    if len(ts) == 2:
        return [(st, RangeV(ts[0], ts[1], z3.IntVal(1)))]
    return [(st, RangeV(*ts))]


b_xrange = b_range


def b_enumerate(E, st, pos, kw, node):
    st, it = iter_of(E, st, pos[0], node)[0]
    start = z3.IntVal(0)
    if len(pos) > 1:
        start = pos[1].t
    if 'start' in kw:
        start = kw['start'].t
    r = IterV(it.n, lambda s, i: TupV([iv(simp(start + i)), it.at(s, i)]), 'mapped', it.src, it.facts)
    return [(st, r)]


def b_zip(E, st, pos, kw, node):
    its = []
    facts = []
    for p in pos:
        if isinstance(p, tuple):
            raise Unsupported('zip(*x)')
        st, it = iter_of(E, st, p, node)[0]
        its.append(it)
        facts += it.facts

    def n(s):
        m = None
        for it in its:
            if it.n is None:
                continue
            k = iter_n(E, it, s)
            m = k if m is None else If(k < m, k, m)
        return m
    r = IterV(n, lambda s, i: TupV([it.at(s, i) for it in its]), 'mapped', None, facts)
    return [(st, r)]


def b_itertools_zip_longest(E, st, pos, kw, node):
    fill = kw.get('fillvalue')
    its, facts = [], []
    for p in pos:
        if isinstance(p, tuple):
            raise Unsupported('zip_longest(*x)')
        st, it = iter_of(E, st, p, node)[0]
        if it.n is None:
            raise Unsupported('zip_longest over an infinite iterator')
        its.append(it)
        facts += it.facts
    if fill is None or not isinstance(fill, V) or fill.ty != T.INT:
        raise Unsupported('zip_longest without an integer fillvalue')

    def n(s):
        m = None
        for it in its:
            k = iter_n(E, it, s)
            m = k if m is None else If(k > m, k, m)
        return m

    def at(s, i):
        out = []
        for it in its:
            x = it.at(s, i)
            if not isinstance(x, V) or x.ty != T.INT:
                raise Unsupported('zip_longest over other than integers')
            out.append(V(T.INT, If(i < iter_n(E, it, s), x.t, fill.t)))
        return TupV(out)
    return [(st, IterV(n, at, 'mapped', None, facts))]


def b_reversed(E, st, pos, kw, node):
    st, it = iter_of(E, st, pos[0], node)[0]
    n = iter_n(E, it, st)
    r = IterV(n, lambda s, i: it.at(s, simp(n - 1 - i)), 'mapped', None, it.facts)
    return [(st, r)]


def b_list(E, st, pos, kw, node):
    if not pos:
        return [E.alloc(st, EmptyCell('list'), 'list')]
    v = pos[0]
    if E.is_empty(v, st):
        return [E.alloc(st, EmptyCell('list'), 'list')]
    ty = E.type_of(v, st)
    if ty[0] == 'list' and not isinstance(v, TupV):
        c = E.content(v, st)
        st = shallow(st, c.ty[1])
        return [E.alloc(st, c, 'copy')]
    if isinstance(v, TupV):
        return [E.mk_list(st, v.items)]
    st, it = iter_of(E, st, v, node)[0]
    return [list_from_iter(E, st, it)]


def b_tuple(E, st, pos, kw, node):
    # tuples of unknown length are immutable lists
    if not pos:
        return [(st, TupV([]))]
    r = b_list(E, st, pos, kw, node)
    return [(s.freeze(v.loc), v) for s, v in r]


def b_set(E, st, pos, kw, node):
    if not pos:
        return [E.alloc(st, EmptyCell('set'), 'set')]
    v = pos[0]
    if E.is_empty(v, st):
        return [E.alloc(st, EmptyCell('set'), 'set')]
    if isinstance(v, TupV):
        return E.e_Set_vals(st, v.items) if hasattr(E, 'e_Set_vals') else set_of_items(E, st, v.items)
    ty = E.type_of(v, st)
    if ty[0] == 'set':
        return [E.alloc(st, E.content(v, st), 'set')]
    if ty[0] == 'dict':
        c = E.content(v, st)
        t = ('set', c.ty[1])
        return [E.alloc(st, V(t, T.mk(t, T.sel(c.ty, 0, c.t), T.sel(c.ty, 2, c.t))), 'set')]
    st, it = iter_of(E, st, v, node)[0]
    st = st.assume(*it.facts)
    n = iter_n(E, it, st)
    i = z3.Int(fresh_name('i'))
    e = E.snapv(it.at(st, i), st)
    from .engine import card_facts
    m = fresh('sset', ('fn', e.ty, T.BOOL))
    k = fresh('scard', T.INT)
    x = z3.Const(fresh_name('x'), T.sort(e.ty))
    wit = z3.Function(fresh_name('wit'), T.sort(e.ty), z3.IntSort())
    st = st.assume(*card_facts(m, k, e.ty))
    pats = src_patterns(TRUE, e.t, [i])
    st = st.assume(z3.ForAll([i], Imp(And(0 <= i, i < n), z3.Select(m, e.t)), patterns=pats),
                   z3.ForAll([x], Imp(z3.Select(m, x), And(0 <= wit(x), wit(x) < n, z3.substitute(e.t, (i, wit(x))) == x)), patterns=[z3.Select(m, x)]),
                   k <= If(n > 0, n, z3.IntVal(0)))
    t = ('set', e.ty)
    return [E.alloc(st, V(t, T.mk(t, m, k)), 'set')]


b_frozenset = b_set


def set_of_items(E, st, items):
    ty = None
    for v in items:
        t = E.flat(E.shape(v, st))
        ty = t if ty is None else E.join(ty, t)
    if ty is None:
        return [E.alloc(st, EmptyCell('set'), 'set')]
    t = ('set', ty)
    c = V(t, empty_term(t))
    for v in items:
        c = set_add(c, E.coerce(v, ty, st).t)
    return [E.alloc(st, c, 'set')]


def b_dict(E, st, pos, kw, node):
    if not pos and not kw:
        return [E.alloc(st, EmptyCell('dict'), 'dict')]
    if len(pos) == 1 and E.type_of(pos[0], st)[0] == 'dict':
        if isinstance(E.content(pos[0], st), V):
            st = shallow(st, E.content(pos[0], st).ty[2])
        return [E.alloc(st, E.content(pos[0], st), 'dict')]
    raise Unsupported('dict(...)')


def b_collections_deque(E, st, pos, kw, node):
    E.assumed('collections.deque without maxlen: a list with popleft')
    return b_list(E, st, pos, kw, node)


def b_collections_defaultdict(E, st, pos, kw, node):
    d = 'none'
    f = pos[0] if pos else NoneV()
    if isinstance(f, BuiltinV) and f.name in ('int', 'list', 'dict', 'set', 'bool'):
        d = f.name
    elif isinstance(f, LambdaV) and isinstance(f.node.body, ast.Constant) and isinstance(f.node.body.value, int):
        d = I(f.node.body.value)
    elif isinstance(f, LambdaV):
        r = E.call(f, [], {}, st, node)
        if len(r) == 1 and isinstance(r[0][1], (V, PartialInf)):
            d = r[0][1]
        else:
            raise Unsupported('defaultdict factory')
    else:
        raise Unsupported('defaultdict factory')
    ty = E.contract.types.get('defaultdict')
    if ty is None:
        raise Unsupported('defaultdict needs a type in the contract')
    ty = T.parse(ty)
    st, r = E.alloc(st, V(ty, empty_term(ty)), 'dd', d)
    return [(st, r)]


def b_int(E, st, pos, kw, node):
    v = pos[0]
    if isinstance(v, FloatPow):
        if (v.c, v.d) != (0, 1):
            # int((c + n ** 0.5) / d): a non-integral root stays at least 2^-26 away from every integer while n <= 2^48, far above the rounding errors
            st = E.oblige(st, And(v.t >= v.c * v.c if v.c < 0 else v.t >= 0, v.t <= 2 ** 48), 'float-sqrt-exact[%s]' % unparse(node))
            E.assumed('int((c + n**0.5) / d) == floor of the real value for 0 <= n <= 2**48 and small integers c, d (IEEE-754 double, correctly rounded)')
            r = fresh('fsq', T.INT)
            lo, hi = r * v.d - v.c, (r + 1) * v.d - v.c
            return [(st.assume(r >= 0, Or(lo <= 0, lo * lo <= v.t), hi > 0, hi * hi > v.t), iv(r))]
        # int(n ** 0.5): exact floor square root while n and its root are exactly representable
        st = E.oblige(st, And(v.t >= 0, v.t <= 2 ** 50), 'float-sqrt-exact[%s]' % unparse(node))
        E.assumed('int(n**0.5) == isqrt(n) for 0 <= n <= 2**50 (IEEE-754 double, correctly rounded pow/sqrt)')
        r = fresh('isqrt', T.INT)
        return [(st.assume(r >= 0, r * r <= v.t, v.t < (r + 1) * (r + 1)), iv(r))]
    if isinstance(v, V) and v.ty in (T.INT, T.BOOL):
        return [(st, iv(to_num(v, T.INT)))]
    if isinstance(v, V) and v.ty == T.REAL:
        t = v.t
        return [(st, iv(If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))))]
    raise Unsupported('int(...)')


def b_bool(E, st, pos, kw, node):
    return [(st, bv(E.truthv(pos[0], st)))]


def b_float(E, st, pos, kw, node):
    if isinstance(pos[0], StrV) and pos[0].s == 'inf':
        return [(st, PartialInf())]
    st, v = E.numv(pos[0], st, node)
    return [(st, V(T.REAL, to_num(v, T.REAL)))]


def b_str(E, st, pos, kw, node):
    return [(st, StrV('?'))]


b_repr = b_str


def b_print(E, st, pos, kw, node):
    return [(st, NoneV())]


def b_isinstance(E, st, pos, kw, node):
    ty = E.type_of(pos[0], st)
    cls = pos[1].items if isinstance(pos[1], TupV) else [pos[1]]
    r = False
    for c in cls:
        if isinstance(c, BuiltinV):
            n = c.name
            if n == {'int': 'int', 'bool': 'bool', 'list': 'list', 'set': 'set', 'dict': 'dict', 'tuple': 'tuple', 'real': 'float', 'str': 'str'}.get(ty[0]):
                r = True
            if n == 'int' and ty[0] == 'bool':
                r = True
        elif isinstance(c, ClassV):
            if ty[0] == 'obj' and ty[1] == c.node.name:
                r = True
        else:
            raise Unsupported('isinstance')
    if ty[0] in ('opt', 'unk', 'elem'):
        raise Unsupported('isinstance of %s' % (ty,))
    return [(st, B(r))]


def b_divmod(E, st, pos, kw, node):
    st, a = E.numv(pos[0], st, node)
    st, b = E.numv(pos[1], st, node)
    x, y = to_num(a, T.INT), to_num(b, T.INT)
    st = E.oblige(st, y != 0, 'nonzero-divisor[%s]' % unparse(node))
    return [(st, TupV([iv(E.pydiv('FloorDiv', x, y, st)), iv(E.pydiv('Mod', x, y, st))]))]


def b_pow(E, st, pos, kw, node):
    st, a = E.numv(pos[0], st, node)
    st, b = E.numv(pos[1], st, node)
    x, y = to_num(a, T.INT), to_num(b, T.INT)
    st = E.oblige(st, y >= 0, 'nonneg-exponent[%s]' % unparse(node))
    p = theory.FNS['powZ'].z3decl()(x, y)
    if len(pos) == 2:
        return [(st, iv(p))]
    st, m = E.numv(pos[2], st, node)
    z = to_num(m, T.INT)
    st = E.oblige(st, z != 0, 'nonzero-divisor[%s]' % unparse(node))
    return [(st, iv(E.pydiv('Mod', p, z, st)))]


def b_all(E, st, pos, kw, node):
    return allany(E, st, pos, 'all', node)


def b_any(E, st, pos, kw, node):
    return allany(E, st, pos, 'any', node)


def allany(E, st, pos, which, node):
    st, it = iter_of(E, st, pos[0], node)[0]
    st = st.assume(*it.facts)
    n = iter_n(E, it, st)
    i = z3.Int(fresh_name('i'))
    t = E.truthv(it.at(st, i), st)
    g = And(0 <= i, i < n)
    q = z3.ForAll([i], Imp(g, t), patterns=src_patterns(TRUE, t, [i])) if which == 'all' else z3.Exists([i], And(g, t))
    return [(st, bv(q))]


def b_sorted(E, st, pos, kw, node):
    st, l = to_list_val(E, st, pos[0])
    if E.is_empty(l, st):
        return [E.alloc(st, EmptyCell('list'), 'sorted')]
    c = E.content(l, st)
    return [sort_cell(E, st, c, kw, node)]


class OpaqueKey(Exception):
    pass


def sort_cell(E, st, c, kw, node):
    """a sorted permutation of list cell c (fresh list)"""
    ety = c.ty[1]
    n, a = T.l_len(c.ty, c.t), T.l_arr(c.ty, c.t)
    st, r, n, b = mk_fresh_list(E, st, ety, 'sorted', n)
    to = z3.Function(fresh_name('perm'), z3.IntSort(), z3.IntSort())
    fr = z3.Function(fresh_name('pinv'), z3.IntSort(), z3.IntSort())
    i, j = z3.Int(fresh_name('i')), z3.Int(fresh_name('j'))
    inr = And(0 <= i, i < n)
    st = st.assume(
        z3.ForAll([i], Imp(inr, And(0 <= to(i), to(i) < n, fr(to(i)) == i, z3.Select(b, i) == sel_arr(a, to(i)))),
                  patterns=[z3.Select(b, i), to(i)]),
        z3.ForAll([i], Imp(inr, And(0 <= fr(i), fr(i) < n, to(fr(i)) == i, z3.Select(b, fr(i)) == sel_arr(a, i))),
                  patterns=[fr(i)] + ([z3.Select(a, i)] if not is_store(a) else [])))
    if z3.is_int_value(n) and n.as_long() <= 6:
        for k in range(n.as_long()):
            kk = z3.IntVal(k)
            st = st.assume(0 <= fr(kk), fr(kk) < n, to(fr(kk)) == kk, z3.Select(b, fr(kk)) == sel_arr(a, kk))
    key = kw.get('key')
    rev = kw.get('reverse')
    isrev = False
    if rev is not None:
        if not (isinstance(rev, V) and (z3.is_true(rev.t) or z3.is_false(rev.t))):
            raise Unsupported('reverse=')
        isrev = z3.is_true(rev.t)

    def keyof(idx, s):
        v = E.unpackv(V(ety, z3.Select(b, idx)))
        if key is None or isinstance(key, NoneV):
            return V(ety, z3.Select(b, idx))
        rr = E.call(key, [v], {}, s, node)
        if len(rr) != 1 or len(rr[0][0].pc) != len(s.pc):
            raise OpaqueKey
        return E.snapv(rr[0][1], rr[0][0])
    if T.is_mut(ety):
        raise Unsupported('sorting mutable elements')
    E.dry += 1
    try:
        ki, kj = keyof(i, st), keyof(j, st)
        opaque = False
    except OpaqueKey:
        opaque = True
    finally:
        E.dry -= 1
    if opaque:
        # a key with a contract: its preconditions are obligations for every element, the order itself is not modelled
        ik = fresh('ik', T.INT)
        for s2, _ in E.call(key, [E.unpackv(V(ety, z3.Select(b, ik)))], {}, st.assume(0 <= ik, ik < n), node):
            if s2.store != st.store:
                raise Unsupported('sort key with side effects')
    else:
        o = compare('>=' if isrev else '<=', ki, kj)
        st = st.assume(z3.ForAll([i, j], Imp(And(0 <= i, i <= j, j < n), o), patterns=[z3.MultiPattern(z3.Select(b, i), z3.Select(b, j))]))
    if 'permI' in theory.FNS and ety == T.INT:
        st = st.assume(theory.FNS['permI'].z3decl()(b, a, n))
    f = theory.FNS.get('perm_' + T.name(ety))
    if f is not None:
        st = st.assume(f.z3decl()(b, a, n))
    return st, r


def b_bytearray(E, st, pos, kw, node):
    # bytearray([x]) * n is handled as a list of ints
    return b_list(E, st, pos, kw, node)


def b_map(E, st, pos, kw, node):
    f = pos[0]
    st, it = iter_of(E, st, pos[1], node)[0]

    def at(s, i):
        r = E.call(f, [it.at(s, i)], {}, s, node)
        if len(r) != 1 or r[0][0].store is not s.store or len(r[0][0].pc) != len(s.pc):
            raise Unsupported('map function')
        return r[0][1]
    return [(st, IterV(it.n, at, 'mapped', None, it.facts))]


def b_math_log(E, st, pos, kw, node):
    st, v = E.numv(pos[0], st, node)
    if len(pos) > 1:
        raise Unsupported('log base')
    f = z3.Function('log_float', z3.RealSort(), z3.RealSort())
    t = to_num(v, T.REAL)
    st = E.oblige(st, t > 0, 'log-domain[%s]' % unparse(node))
    return [(st, V(T.REAL, f(t)))]


def b_math_sqrt(E, st, pos, kw, node):
    f = z3.Function('sqrt_float', z3.RealSort(), z3.RealSort())
    st, v = E.numv(pos[0], st, node)
    st = E.oblige(st, to_num(v, T.REAL) >= 0, 'sqrt-domain[%s]' % unparse(node))
    return [(st, V(T.REAL, f(to_num(v, T.REAL))))]


def b_math_exp(E, st, pos, kw, node):
    f = z3.Function('exp_float', z3.RealSort(), z3.RealSort())
    st, v = E.numv(pos[0], st, node)
    return [(st, V(T.REAL, f(to_num(v, T.REAL))))]


def b_random_randint(E, st, pos, kw, node):
    st, a = E.numv(pos[0], st, node)
    st, b = E.numv(pos[1], st, node)
    if E.contract.types.get('randint') == 'raises':
        pass
    st = E.oblige(st, a.t <= b.t, 'randint-nonempty[%s]' % unparse(node))
    r = fresh('rand', T.INT)
    return [(st.assume(a.t <= r, r <= b.t), iv(r))]


def b_random_choice(E, st, pos, kw, node):
    """any element of a non-empty sequence"""
    if isinstance(pos[0], TupV) or E.is_empty(pos[0], st):
        raise Unsupported('random.choice of a tuple')
    c = E.content(pos[0], st)
    if c.ty[0] != 'list' or T.is_mut(c.ty[1]):
        raise Unsupported('random.choice of %s' % (c.ty,))
    n, a = T.l_len(c.ty, c.t), T.l_arr(c.ty, c.t)
    st = E.oblige(st, n > 0, 'nonempty[%s]' % unparse(node))
    i = fresh('rand', T.INT)
    return [(st.assume(0 <= i, i < n), E.unpackv(V(c.ty[1], sel_arr(a, i))))]


def b_inspect_stack(E, st, pos, kw, node):
    """frames as opaque strings; a called function has a caller, so there are at least two"""
    ety = ('tuple', (T.STR,) * 6)
    st, r, n, a = mk_fresh_list(E, st, ety, 'stack')
    return [(st.assume(n >= 2), r)]


def b_itertools_count(E, st, pos, kw, node):
    lo = pos[0].t if pos else z3.IntVal(0)
    step = pos[1].t if len(pos) > 1 else z3.IntVal(1)
    return [(st, RangeV(lo, None, step))]


def b_itertools_cycle(E, st, pos, kw, node):
    """an arbitrary finite prefix of the infinite repetition (marked as a stream: never exhausted)"""
    if E.is_empty(pos[0], st):
        return []
    c = E.content(pos[0], st)
    m, A = T.l_len(c.ty, c.t), T.l_arr(c.ty, c.t)
    st = E.oblige(st, m > 0, 'cycle-of-nonempty[%s]' % unparse(node))
    st, r, n, a = mk_fresh_list(E, st, c.ty[1], 'cyc')
    i = z3.Int(fresh_name('i'))
    st = st.assume(z3.ForAll([i], Imp(And(0 <= i, i < n), z3.Select(a, i) == sel_arr(A, i % m)), patterns=[z3.Select(a, i)]))
    E.streams.add(r.loc)
    return [(st, r)]


def b_itertools_chain(E, st, pos, kw, node):
    st, cur = to_list_val(E, st, pos[0])
    for p in pos[1:]:
        if isinstance(cur, Ref) and cur.loc in E.streams:
            break
        st, q = to_list_val(E, st, p)
        strm = isinstance(p, Ref) and p.loc in E.streams
        if E.is_empty(cur, st):
            cur = q
        elif not E.is_empty(q, st):
            st, cell = E.concat(st, E.content(cur, st), E.content(q, st))
            if strm:
                # a prefix of the chain need not reach the infinite part
                k = fresh('pre', T.INT)
                st = st.assume(0 <= k, k <= T.l_len(cell.ty, cell.t))
                cell = V(cell.ty, T.mk(cell.ty, k, T.l_arr(cell.ty, cell.t)))
            st, cur = E.alloc(st, cell, 'chain')
        if strm:
            E.streams.add(cur.loc)
    return [(st, cur)]


def bisect_model(E, st, pos, side, node):
    l, x = pos[0], pos[1]
    if len(pos) > 2:
        raise Unsupported('bisect bounds')
    if E.is_empty(l, st):
        return [(st, I(0))]
    c = E.content(l, st)
    n, a = T.l_len(c.ty, c.t), T.l_arr(c.ty, c.t)
    i, j = z3.Int(fresh_name('i')), z3.Int(fresh_name('j'))
    # requires sortedness (ints)
    srt = z3.ForAll([i, j], Imp(And(0 <= i, i <= j, j < n), compare('<=', V(c.ty[1], z3.Select(a, i)), V(c.ty[1], z3.Select(a, j)))),
                    patterns=[z3.MultiPattern(z3.Select(a, i), z3.Select(a, j))])
    st = E.oblige(st, srt, 'bisect-sorted[%s]' % unparse(node))
    r = fresh('bis', T.INT)
    xv = E.snapv(x, st)
    lo, hi = ('<', '>=') if side == 'left' else ('<=', '>')
    return [(st.assume(0 <= r, r <= n,
                       z3.ForAll([i], Imp(And(0 <= i, i < r), compare(lo, V(c.ty[1], z3.Select(a, i)), xv)), patterns=[z3.Select(a, i)]),
                       z3.ForAll([i], Imp(And(r <= i, i < n), compare(hi, V(c.ty[1], z3.Select(a, i)), xv)), patterns=[z3.Select(a, i)])), iv(r))]


def b_bisect_bisect(E, st, pos, kw, node):
    return bisect_model(E, st, pos, 'right', node)


b_bisect_bisect_right = b_bisect_bisect


def b_bisect_bisect_left(E, st, pos, kw, node):
    return bisect_model(E, st, pos, 'left', node)


# heapq on a list of priorities: abstracted as multiset operations on an (unordered) list
def b_heapq_heappush(E, st, pos, kw, node):
    E.assumed('heapq: heappush adds the item, heappop removes a smallest item (list order unspecified)')
    return heap_push(E, st, pos[0], pos[1], node)


def heap_push(E, st, h, x, node):
    if E.is_empty(h, st):
        ty = ('list', E.flat(E.shape(x, st)))
        st = st.put(h.loc, V(ty, empty_term(ty)))
    c = E.content(h, st)
    nv = E.coerce(x, c.ty[1], st)
    n = T.l_len(c.ty, c.t)
    # the representation order is unspecified: the new list is some permutation of old + [x]
    st, r, m, b = mk_fresh_list(E, st, c.ty[1], 'heap', simp(n + 1))
    a2 = z3.Store(T.l_arr(c.ty, c.t), n, nv.t)
    st = perm_facts(E, st, b, a2, simp(n + 1))
    p = fresh('hpos', T.INT)      # where the item went (an instance of the permutation facts)
    st = st.assume(0 <= p, p <= n, z3.Select(b, p) == nv.t)
    st = E.write(h, V(c.ty, T.mk(c.ty, simp(n + 1), b)), st)
    return [(st, NoneV())]


def perm_facts(E, st, b, a, n):
    to = z3.Function(fresh_name('perm'), z3.IntSort(), z3.IntSort())
    fr = z3.Function(fresh_name('pinv'), z3.IntSort(), z3.IntSort())
    i = z3.Int(fresh_name('i'))
    inr = And(0 <= i, i < n)
    return st.assume(
        z3.ForAll([i], Imp(inr, And(0 <= to(i), to(i) < n, fr(to(i)) == i, z3.Select(b, i) == z3.Select(a, to(i)))),
                  patterns=[z3.Select(b, i), to(i)]),
        z3.ForAll([i], Imp(inr, And(0 <= fr(i), fr(i) < n, to(fr(i)) == i, z3.Select(b, fr(i)) == z3.Select(a, i))),
                  patterns=[fr(i)] + ([z3.Select(a, i)] if not is_store(a) else [z3.Select(arr_base(a), i)])))


def arr_base(a):
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        a = a.arg(0)
    return a


def b_heapq_heappop(E, st, pos, kw, node):
    h = pos[0]
    if E.is_empty(h, st):
        E.oblige(st, FALSE, 'nonempty[%s]' % unparse(node))
        return []
    c = E.content(h, st)
    n, a = T.l_len(c.ty, c.t), T.l_arr(c.ty, c.t)
    st = E.oblige(st, n > 0, 'nonempty[%s]' % unparse(node))
    E.assumed('heapq: heappush adds the item, heappop removes a smallest item (list order unspecified)')
    w = z3.Int(fresh_name('w'))
    m = V(c.ty[1], fresh('top', c.ty[1]))
    i = z3.Int(fresh_name('i'))
    st = st.assume(0 <= w, w < n, m.t == z3.Select(a, w),
                   z3.ForAll([i], Imp(And(0 <= i, i < n), compare('<=', m, V(c.ty[1], z3.Select(a, i)))), patterns=[z3.Select(a, i)]))
    # remaining: permutation of a without position w
    st, r, k, b = mk_fresh_list(E, st, c.ty[1], 'heap', simp(n - 1))
    to = z3.Function(fresh_name('perm'), z3.IntSort(), z3.IntSort())
    fr = z3.Function(fresh_name('pinv'), z3.IntSort(), z3.IntSort())
    st = st.assume(
        z3.ForAll([i], Imp(And(0 <= i, i < n - 1), And(0 <= to(i), to(i) < n, to(i) != w, fr(to(i)) == i, z3.Select(b, i) == z3.Select(a, to(i)))),
                  patterns=[z3.Select(b, i), to(i)]),
        z3.ForAll([i], Imp(And(0 <= i, i < n, i != w), And(0 <= fr(i), fr(i) < n - 1, to(fr(i)) == i, z3.Select(b, fr(i)) == z3.Select(a, i))),
                  patterns=[fr(i)] + ([z3.Select(a, i)] if not is_store(a) else [])))
    st = E.write(h, V(c.ty, T.mk(c.ty, simp(n - 1), b)), st)
    return [(st, E.unpackv(m))]


def b_heapq_heapify(E, st, pos, kw, node):
    h = pos[0]
    if E.is_empty(h, st):
        return [(st, NoneV())]
    c = E.content(h, st)
    n, a = T.l_len(c.ty, c.t), T.l_arr(c.ty, c.t)
    st, r, k, b = mk_fresh_list(E, st, c.ty[1], 'heap', n)
    st = perm_facts(E, st, b, a, n)
    return [(E.write(h, V(c.ty, T.mk(c.ty, n, b)), st), NoneV())]


# ---------------------------------------------------------------- methods

def call_container_method(E, st, o, name, pos, kw, node):
    if isinstance(o, V) and o.ty == T.INT and name == 'bit_length':
        return [(st, iv(theory.FNS['bitlen'].z3decl()(o.t)))]
    if isinstance(o, KwV):
        if name == 'get' and isinstance(pos[0], StrV):
            return [(st, o.d[pos[0].s] if pos[0].s in o.d else pos[1] if len(pos) > 1 else NoneV())]
        raise Unsupported('keyword dictionary')
    if isinstance(o, StrV):
        return [(st, StrV('?'))]
    if isinstance(o, V) and o.ty[0] == 'opt':
        st = E.oblige(st, Not(T.is_none(o.ty, o.t)), 'not-None[%s]' % unparse(node))
        o = E.unpackv(V(o.ty[1], T.opt_val(o.ty, o.t)))
    ty = E.type_of(o, st)
    f = globals().get('m_%s_%s' % (ty[0], name))
    if f is None:
        raise Unsupported('method %s of %s' % (name, ty))
    return f(E, st, o, pos, kw, node)


def obj_binop(E, st, o, a, b, node):
    m = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'FloorDiv': '__floordiv__', 'Mod': '__mod__', 'Pow': '__pow__'}[o]
    return E.call_method(a, m, [b], {}, st, node)


def m_list_append(E, st, o, pos, kw, node):
    x = pos[0]
    if E.is_empty(o, st):
        et = E.flat(E.shape(x, st))
        if E.has_unk(et):
            h = E.contract.types.get('nested')
            if h is None:
                raise Unsupported('element type of nested empty list')
            et = T.parse(h)
        ty = ('list', et)
        st = st.put(o.loc, V(ty, empty_term(ty)))
    c = E.content(o, st)
    st = E.share(x, st)
    c, et = E.widen(c, x, st)
    nv = E.coerce(x, et, st)
    n = T.l_len(c.ty, c.t)
    return [(E.write(o, V(c.ty, T.mk(c.ty, simp(n + 1), z3.Store(T.l_arr(c.ty, c.t), n, nv.t))), st, False), NoneV())]


def m_list_extend(E, st, o, pos, kw, node):
    st, l = to_list_val(E, st, pos[0])
    if E.is_empty(l, st):
        return [(st, NoneV())]
    b = E.content(l, st)
    if T.is_mut(b.ty[1]):
        st = shallow(E.share(l, st), b.ty[1])
    if E.is_empty(o, st):
        return [(E.write(o, b, st, False), NoneV())]
    a = E.content(o, st)
    if a.ty != b.ty:
        b = V(a.ty, T.mk(a.ty, T.l_len(b.ty, b.t), E.map_arr(T.l_arr(b.ty, b.t), b.ty[1], a.ty[1], st)))
    st, c = E.concat(st, a, b)
    return [(E.write(o, c, st, False), NoneV())]


def m_list_pop(E, st, o, pos, kw, node):
    if E.is_empty(o, st):
        E.oblige(st, FALSE, 'nonempty[%s]' % unparse(node))
        return []
    c = E.content(o, st)
    n, a = T.l_len(c.ty, c.t), T.l_arr(c.ty, c.t)
    st = E.oblige(st, n > 0, 'nonempty[%s]' % unparse(node))
    if pos and const_int(pos[0]) not in (-1,):
        if const_int(pos[0]) != 0:
            st, i = E.list_index(c, pos[0], st, node)
        else:
            i = z3.IntVal(0)
        v = E.unpackv(V(c.ty[1], sel_arr(a, i)))
        if T.is_mut(c.ty[1]):
            raise Unsupported('pop of mutable')
        na = fresh('pop', ('arr', c.ty[1]))
        j = z3.Int(fresh_name('j'))
        st = st.assume(z3.ForAll([j], z3.Select(na, j) == If(j < i, sel_arr(a, j), sel_arr(a, j + 1)), patterns=[z3.Select(na, j)]))
        return [(E.write(o, V(c.ty, T.mk(c.ty, simp(n - 1), na)), st), v)]
    v = V(c.ty[1], sel_arr(a, simp(n - 1)))
    st = E.write(o, V(c.ty, T.mk(c.ty, simp(n - 1), a)), st)
    if T.is_mut(c.ty[1]):
        st = st.assume(*([T.l_len(v.ty, v.t) >= 0] if v.ty[0] == 'list' else []))
        st, r = E.alloc(st, v, 'popped')
        return [(st.freeze(r.loc), r)]
    return [(st, E.unpackv(v))]


def m_list_popleft(E, st, o, pos, kw, node):
    return m_list_pop(E, st, o, [I(0)], kw, node)


def m_list_sort(E, st, o, pos, kw, node):
    if E.is_empty(o, st):
        return [(st, NoneV())]
    c = E.content(o, st)
    st, r = sort_cell(E, st, c, kw, node)
    return [(E.write(o, st.store[r.loc], st), NoneV())]


def m_list_copy(E, st, o, pos, kw, node):
    return b_list(E, st, [o], {}, node)


def m_list_reverse(E, st, o, pos, kw, node):
    if E.is_empty(o, st):
        return [(st, NoneV())]
    c = E.content(o, st)
    n, a = T.l_len(c.ty, c.t), T.l_arr(c.ty, c.t)
    b = fresh('rev', ('arr', c.ty[1]))
    i = z3.Int(fresh_name('i'))
    st = st.assume(z3.ForAll([i], Imp(And(0 <= i, i < n), z3.Select(b, i) == sel_arr(a, n - 1 - i)), patterns=[z3.Select(b, i)]))
    return [(E.write(o, V(c.ty, T.mk(c.ty, n, b)), st), NoneV())]


def m_list_index(E, st, o, pos, kw, node):
    c = E.content(o, st)
    n, a = T.l_len(c.ty, c.t), T.l_arr(c.ty, c.t)
    x = E.coerce(pos[0], c.ty[1], st).t
    st = E.oblige(st, SpecEval({}, st.store).member(pos[0], c), 'present[%s]' % unparse(node))
    r = fresh('idx', T.INT)
    i = z3.Int(fresh_name('i'))
    return [(st.assume(0 <= r, r < n, z3.Select(a, r) == x,
                       z3.ForAll([i], Imp(And(0 <= i, i < r), z3.Select(a, i) != x), patterns=[z3.Select(a, i)])), iv(r))]


def ensure_set(E, st, o, x):
    if E.is_empty(o, st):
        ty = ('set', E.flat(E.shape(x, st)))
        st = st.put(o.loc, V(ty, empty_term(ty)))
    return st


def m_set_add(E, st, o, pos, kw, node):
    st = ensure_set(E, st, o, pos[0])
    c = E.content(o, st)
    return [(E.write(o, set_add(c, E.coerce(pos[0], c.ty[1], st).t), st), NoneV())]


def m_set_discard(E, st, o, pos, kw, node):
    if E.is_empty(o, st):
        return [(st, NoneV())]
    c = E.content(o, st)
    return [(E.write(o, set_remove(c, E.coerce(pos[0], c.ty[1], st).t), st), NoneV())]


def m_set_remove(E, st, o, pos, kw, node):
    if E.is_empty(o, st):
        E.oblige(st, FALSE, 'key[%s]' % unparse(node))
        return []
    c = E.content(o, st)
    k = E.coerce(pos[0], c.ty[1], st).t
    st = E.oblige(st, sel_arr(T.sel(c.ty, 0, c.t), k), 'key[%s]' % unparse(node))
    return [(E.write(o, set_remove(c, k), st), NoneV())]


def m_set_pop(E, st, o, pos, kw, node):
    if E.is_empty(o, st):
        E.oblige(st, FALSE, 'nonempty[%s]' % unparse(node))
        return []
    c = E.content(o, st)
    st = E.oblige(st, T.sel(c.ty, 1, c.t) > 0, 'nonempty[%s]' % unparse(node))
    x = fresh('popped', c.ty[1])
    st = st.assume(sel_arr(T.sel(c.ty, 0, c.t), x))
    return [(E.write(o, set_remove(c, x), st), E.unpackv(V(c.ty[1], x)))]


def m_set_copy(E, st, o, pos, kw, node):
    return b_set(E, st, [o], {}, node)


def _set2(E, st, o, pos, op, node):
    if E.is_empty(o, st):
        if op == 'BitOr':
            return b_set(E, st, [pos[0]], {}, node)
        return [E.alloc(st, EmptyCell('set'), 'set')]
    c = E.content(o, st)
    if E.is_empty(pos[0], st):
        if op == 'BitAnd':
            return [E.alloc(st, V(c.ty, empty_term(c.ty)), 'set')]
        return [E.alloc(st, c, 'set')]
    st, r = b_set(E, st, [pos[0]], {}, node)[0]
    d = E.content(r, st)
    x = set_op(op, c, d)
    from .engine import card_facts
    st = st.assume(*card_facts(T.sel(x.ty, 0, x.t), T.sel(x.ty, 1, x.t), x.ty[1]))
    return [E.alloc(st, x, 'set')]


def m_set_union(E, st, o, pos, kw, node):
    return _set2(E, st, o, pos, 'BitOr', node)


def m_set_intersection(E, st, o, pos, kw, node):
    return _set2(E, st, o, pos, 'BitAnd', node)


def m_set_difference(E, st, o, pos, kw, node):
    return _set2(E, st, o, pos, 'Sub', node)


def _set_inplace(E, st, o, pos, op, node):
    st, r = _set2(E, st, o, pos, op, node)[0]
    if E.is_empty(r, st):
        return [(st, NoneV())]
    return [(E.write(o, st.store[r.loc], st), NoneV())]


def m_set_update(E, st, o, pos, kw, node):
    return _set_inplace(E, st, o, pos, 'BitOr', node)


def m_set_difference_update(E, st, o, pos, kw, node):
    return _set_inplace(E, st, o, pos, 'Sub', node)


def m_set_intersection_update(E, st, o, pos, kw, node):
    return _set_inplace(E, st, o, pos, 'BitAnd', node)


def m_set_issubset(E, st, o, pos, kw, node):
    c, d = E.content(o, st), E.content(pos[0], st)
    x = z3.Const(fresh_name('x'), T.sort(c.ty[1]))
    A, B_ = T.sel(c.ty, 0, c.t), T.sel(d.ty, 0, d.t)
    return [(st, bv(z3.ForAll([x], Imp(z3.Select(A, x), z3.Select(B_, x)), patterns=[z3.Select(A, x)])))]


def m_dict_keys(E, st, o, pos, kw, node):
    return [(st, o)]


def m_dict_items(E, st, o, pos, kw, node):
    if E.is_empty(o, st):
        return [(st, IterV(z3.IntVal(0), lambda s, i: NoneV()))]
    st, it = iter_of(E, st, o, node)[0]
    c = E.content(o, st)
    kt, vt = c.ty[1], c.ty[2]
    seq = T.l_arr(it.src.ty, it.src.t)

    def at(s, i):
        k = z3.Select(seq, i)
        return TupV([E.unpackv(V(kt, k)), E.elem_val(o, k, vt, s)])
    r = IterV(it.n, at, 'dict', it.src, it.facts)
    r.srcloc = it.srcloc
    r.rank = getattr(it, 'rank', None)
    r.kind = 'mapped'
    return [(st, r)]


def m_dict_values(E, st, o, pos, kw, node):
    if E.is_empty(o, st):
        return [(st, IterV(z3.IntVal(0), lambda s, i: NoneV()))]
    st, it = m_dict_items(E, st, o, pos, kw, node)[0]
    r = IterV(it.n, lambda s, i: it.at(s, i).items[1], 'mapped', it.src, it.facts)
    return [(st, r)]


def m_dict_get(E, st, o, pos, kw, node):
    d = pos[1] if len(pos) > 1 else NoneV()
    if E.is_empty(o, st):
        return [(st, d)]
    c = E.content(o, st)
    k = E.coerce(pos[0], c.ty[1], st).t
    have = sel_arr(T.sel(c.ty, 0, c.t), k)
    if T.is_mut(c.ty[2]):
        out = []
        a, b = E.fork(st, have)
        if a is not None:
            out.append((a, E.elem_val(o, k, c.ty[2], a)))
        if b is not None:
            out.append((b, d))
        return out
    v = V(c.ty[2], sel_arr(T.sel(c.ty, 1, c.t), k))
    if isinstance(d, NoneV):
        t = v.ty if v.ty[0] == 'opt' else ('opt', v.ty)
        return [(st, V(t, If(have, E.coerce(v, t, st).t, T.none(t))))]
    return [(st, E.unpackv(SpecEval({}, st.store).ite(have, v, E.coerce(d, v.ty, st) if v.ty[0] not in NUM else d)))]


def m_dict_pop(E, st, o, pos, kw, node):
    c = E.content(o, st)
    if isinstance(c, EmptyCell):
        E.oblige(st, FALSE, 'key[%s]' % unparse(node))
        return []
    k = E.coerce(pos[0], c.ty[1], st).t
    have = sel_arr(T.sel(c.ty, 0, c.t), k)
    if len(pos) > 1:
        raise Unsupported('pop default')
    st = E.oblige(st, have, 'key[%s]' % unparse(node))
    v = V(c.ty[2], sel_arr(T.sel(c.ty, 1, c.t), k))
    st = E.write(o, dict_del(c, k), st)
    if T.is_mut(c.ty[2]):
        st, r = E.alloc(st, v, 'popped')
        return [(st, r)]
    return [(st, E.unpackv(v))]


def shallow(st, ety):
    """a shallow copy has been made: elements are shared from now on, so none is written to"""
    return st.freeze(('nw', ety)) if T.is_mut(ety) else st


def b_copy_deepcopy(E, st, pos, kw, node):
    c = E.content(pos[0], st)
    if len(pos) != 1 or kw or not isinstance(c, V):
        raise Unsupported('deepcopy')
    return [E.alloc(st, c, 'copy')]


def m_dict_copy(E, st, o, pos, kw, node):
    c = E.content(o, st)
    if isinstance(c, V):
        st = shallow(st, c.ty[2])
    return [E.alloc(st, E.content(o, st), 'dict')]
