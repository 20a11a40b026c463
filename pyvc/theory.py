"""Theory registry: spec functions and lemmas, written once.

Every lemma is one formula in the DSL (Python expression syntax).  It is mechanically translated
 * to an SMT formula, which is what hints/axioms give to the solvers, and
 * to a Lean 4 theorem statement, whose proof (committed next to it) is checked by `lean` on each run.
"""
import ast
import z3
from . import types as T
from .values import *


class Fn:
    def __init__(self, name, args, ret, lean, doc=''):
        self.name, self.args, self.ret, self.lean, self.doc = name, args, ret, lean, doc
        self.decl = None

    def z3decl(self):
        if self.decl is None:
            self.decl = z3.Function(self.name, *[T.sort(a) for a in self.args], T.sort(self.ret))
        return self.decl


class Lemma:
    def __init__(self, name, vars, stmt, pats, proof, module, builtin=None):
        self.name, self.vars, self.stmt, self.pats, self.proof, self.module = name, vars, stmt, pats, proof, module
        self.ast = ast.parse(stmt.strip().replace('\n', ' '), mode='eval').body
        self.builtin = builtin


FNS = {}
LEMMAS = {}
MODULES = {}      # module name -> ordered list of items (fn/lemma/raw lean)
_cur = [None]


def begin(name, requires=()):
    _cur[0] = name
    MODULES.setdefault(name, {'items': [], 'requires': list(requires)})


def _split_sig(s):
    """'a:int, b:list[int]' -> [(name, ty)]"""
    out = []
    depth = 0
    cur = ''
    for ch in s:
        if ch == '[':
            depth += 1
        if ch == ']':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return [(p.split(':')[0].strip(), T.parse(p.split(':', 1)[1])) for p in out]


def fn(name, sig, lean=None, raw=None, smt=None):
    """fn('gcdZ', 'int, int -> int', lean='fun a b => (Int.gcd a b : ℤ)')"""
    a, r = sig.split('->')
    args = [t for _, t in _split_sig(','.join('x:%s' % p for p in _split_types(a)))]
    f = Fn(name, args, T.parse(r), lean)
    f.raw = raw
    f.smt = smt
    f.module = _cur[0]
    FNS[name] = f
    MODULES[_cur[0]]['items'].append(('fn', f))
    return f


def _split_types(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch == '[':
            depth += 1
        if ch == ']':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return [x.strip() for x in out]


def lemma(name, vars, stmt, proof, pats=None, trusted=None):
    """proof: Lean tactic block (after `by`) or term starting with ':='; trusted: an unproved, published fact (reported)"""
    l = Lemma(name, _split_sig(vars), stmt, pats, proof, _cur[0])
    l.trusted = trusted
    assert name not in LEMMAS, name
    LEMMAS[name] = l
    MODULES[_cur[0]]['items'].append(('lemma', l))
    return l


def raw(text):
    """Raw Lean helper text (auxiliary lemmas; not visible to SMT)."""
    MODULES[_cur[0]]['items'].append(('raw', text))


# ---------------------------------------------------------------- Lean

def lean_ty(t):
    k = t[0]
    if k == 'int':
        return 'ℤ'
    if k == 'bool':
        return 'Prop'
    if k == 'real':
        return 'ℝ'
    if k == 'arr':
        return '(ℤ → %s)' % lean_ty(t[1])
    if k == 'fn':
        return '(%s → %s)' % (lean_ty(t[1]), lean_ty(t[2]))
    if k == 'tuple':
        return '(' + ' × '.join(lean_ty(x) for x in t[1]) + ')'
    if k == 'elem':
        return t[1]
    if k == 'opt':
        return '(Option %s)' % lean_ty(t[1])
    raise ValueError('lean type %r' % (t,))


class LeanTr:
    def __init__(self, env):
        self.env = dict(env)

    def e(self, n):
        m = getattr(self, 'x_' + type(n).__name__)
        return m(n)

    def s(self, n):
        return self.e(n)[0]

    def x_Constant(self, n):
        if n.value is True:
            return 'True', T.BOOL
        if n.value is False:
            return 'False', T.BOOL
        return ('(%d : ℤ)' % n.value), T.INT

    def x_Name(self, n):
        return n.id, self.env[n.id]

    def x_BinOp(self, n):
        a, ta = self.e(n.left)
        b, tb = self.e(n.right)
        if isinstance(n.op, ast.Pow):
            assert isinstance(n.right, ast.Constant)
            return '(%s ^ (%d : ℕ))' % (a, n.right.value), ta
        if ta != tb:
            assert T.REAL in (ta, tb)
            if ta == T.INT:
                a = '(%s : ℝ)' % a
            else:
                b = '(%s : ℝ)' % b
            ta = T.REAL
        op = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.FloorDiv: '/', ast.Mod: '%'}[type(n.op)]
        return '(%s %s %s)' % (a, op, b), ta

    def x_UnaryOp(self, n):
        a, t = self.e(n.operand)
        if isinstance(n.op, ast.USub):
            return '(-%s)' % a, t
        return '(¬ %s)' % a, T.BOOL

    def x_BoolOp(self, n):
        op = ' ∧ ' if isinstance(n.op, ast.And) else ' ∨ '
        return '(' + op.join(self.s(v) for v in n.values) + ')', T.BOOL

    def x_Compare(self, n):
        parts = []
        l = n.left
        for op, r in zip(n.ops, n.comparators):
            a, ta = self.e(l)
            if isinstance(op, (ast.Is, ast.IsNot)):
                assert isinstance(r, ast.Constant) and r.value is None and ta[0] == 'opt'
                parts.append('(%s %s none)' % (a, '=' if isinstance(op, ast.Is) else '≠'))
                l = r
                continue
            b, tb = self.e(r)
            o = {ast.Eq: '=', ast.NotEq: '≠', ast.Lt: '<', ast.LtE: '≤', ast.Gt: '>', ast.GtE: '≥'}[type(op)]
            if ta == T.BOOL and o == '=':
                o = '↔'
            if ta != tb and T.REAL in (ta, tb):
                if ta == T.INT:
                    a = '(%s : ℝ)' % a
                else:
                    b = '(%s : ℝ)' % b
            parts.append('(%s %s %s)' % (a, o, b))
            l = r
        return parts[0] if len(parts) == 1 else '(' + ' ∧ '.join(parts) + ')', T.BOOL

    def x_IfExp(self, n):
        a, t = self.e(n.body)
        return '(if %s then %s else %s)' % (self.s(n.test), a, self.s(n.orelse)), t

    def x_Subscript(self, n):
        a, t = self.e(n.value)
        if t[0] == 'tuple':
            i = n.slice.value
            k = len(t[1])
            s = a + '.2' * i + ('.1' if i < k - 1 else '')
            return s, t[1][i]
        b = self.s(n.slice)
        if t[0] == 'arr':
            return '(%s %s)' % (a, b), t[1]
        if t[0] == 'fn':
            return '(%s %s)' % (a, b), t[2]
        raise ValueError('lean subscript %r' % (t,))

    def x_Tuple(self, n):
        r = [self.e(x) for x in n.elts]
        return '(' + ', '.join(x for x, _ in r) + ')', ('tuple', tuple(t for _, t in r))

    def x_Call(self, n):
        f = n.func.id
        if f in ('forall', 'exists'):
            i = n.args[0].id
            lo, hi = self.s(n.args[1]), self.s(n.args[2])
            tr = LeanTr({**self.env, i: T.INT})
            p = tr.s(n.args[3])
            if f == 'forall':
                return '(∀ %s : ℤ, %s ≤ %s → %s < %s → %s)' % (i, lo, i, i, hi, p), T.BOOL
            return '(∃ %s : ℤ, %s ≤ %s ∧ %s < %s ∧ %s)' % (i, lo, i, i, hi, p), T.BOOL
        if f == 'forall2':
            i, j = n.args[0].id, n.args[1].id
            tr = LeanTr({**self.env, i: T.INT, j: T.INT})
            return '(∀ %s %s : ℤ, %s → %s)' % (i, j, tr.s(n.args[2]), tr.s(n.args[3])), T.BOOL
        if f in ('forallT', 'existsT'):
            i = n.args[1].id
            ty = T._parse(n.args[0])
            tr = LeanTr({**self.env, i: ty})
            return '(%s %s : %s, %s)' % ('∀' if f == 'forallT' else '∃', i, lean_ty(ty), tr.s(n.args[2])), T.BOOL
        if f == 'implies':
            return '(%s → %s)' % (self.s(n.args[0]), self.s(n.args[1])), T.BOOL
        if f == 'iff':
            return '(%s ↔ %s)' % (self.s(n.args[0]), self.s(n.args[1])), T.BOOL
        if f == 'ite':
            a, t = self.e(n.args[1])
            return '(if %s then %s else %s)' % (self.s(n.args[0]), a, self.s(n.args[2])), t
        if f == 'some':
            a, t = self.e(n.args[0])
            return '(some %s)' % a, ('opt', t)
        if f == 'abs':
            return '|%s|' % self.s(n.args[0]), T.INT
        if f in ('min', 'max'):
            return '(%s %s %s)' % (f, self.s(n.args[0]), self.s(n.args[1])), T.INT
        if f == 'upd':   # array update
            a, t = self.e(n.args[0])
            return '(Function.update %s %s %s)' % (a, self.s(n.args[1]), self.s(n.args[2])), t
        fn_ = FNS[f]
        return '(%s %s)' % (lean_fn_name(f), ' '.join(self.s(a) for a in n.args)), fn_.ret


def lean_fn_name(f):
    return 'S.' + f


def lean_lemma(l):
    tr = LeanTr(dict(l.vars))
    binders = ' '.join('(%s : %s)' % (v, lean_ty(t)) for v, t in l.vars)
    proof = l.proof
    if proof.lstrip().startswith(':='):
        body = proof
    else:
        lines = [x for x in proof.strip('\n').split('\n')]
        ind = min((len(x) - len(x.lstrip()) for x in lines if x.strip()), default=0)
        body = ':= by\n' + '\n'.join('  ' + x[ind:] for x in lines)
    return 'theorem %s %s : %s %s\n' % (l.name, binders, tr.s(l.ast), body)


def lean_fn(f):
    if f.raw:
        return f.raw + '\n'
    sig = ' → '.join(lean_ty(t) for t in f.args + [f.ret])
    return 'noncomputable def %s : %s := %s\n' % (lean_fn_name(f.name), sig, f.lean)


def module_closure(mods):
    out = []

    def go(m):
        if m in out:
            return
        for r in MODULES[m]['requires']:
            go(r)
        out.append(m)
    for m in mods:
        go(m)
    return out


def lean_file(lemma_names):
    """One Lean source with everything needed for the named lemmas (whole theory modules, in order)."""
    mods = module_closure(sorted({LEMMAS[l].module for l in lemma_names}, key=list(MODULES).index))
    out = ['import Mathlib', 'set_option maxHeartbeats 400000', 'set_option linter.all false',
           'namespace L', 'open Classical', '']
    names = []
    for m in mods:
        out.append('-- theory module ' + m)
        for kind, it in MODULES[m]['items']:
            if kind == 'fn':
                out.append(lean_fn(it))
            elif kind == 'raw':
                out.append(it + '\n')
            elif not it.trusted:
                out.append(lean_lemma(it))
                names.append(it.name)
    out.append('end L')
    for nme in names:
        out.append('#print axioms L.%s' % nme)
    return '\n'.join(out), names


# ---------------------------------------------------------------- SMT

def smt_lemma(l):
    """Quantified axiom for lemma l (with its trigger)."""
    from .spec import SpecEval
    env = {}
    bs = []
    for v, t in l.vars:
        c = z3.Const('v_' + l.name + '.' + v, T.sort(t))
        bs.append(c)
        env[v] = V(t, c)
    se = SpecEval(env)
    body = se.truth(l.ast)
    if not bs:
        return body
    pats = []
    if l.pats:
        for p in l.pats:
            if isinstance(p, str):
                p = [p]
            ts = [se.term_of(se.ev(ast.parse(x, mode='eval').body)) for x in p]
            pats.append(ts[0] if len(ts) == 1 else z3.MultiPattern(*ts))
    return z3.ForAll(bs, body, patterns=pats, qid=l.name) if pats else z3.ForAll(bs, body, qid=l.name)


def instantiate(l, vals, se0):
    """Lemma instance as SMT formula; vals are Vals."""
    from .spec import SpecEval
    env = {}
    for (v, t), x in zip(l.vars, vals):
        env[v] = se0.coerce(x, t)
    assert len(vals) == len(l.vars), 'lemma %s: arity' % l.name
    return SpecEval(env).truth(l.ast)
