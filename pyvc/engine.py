"""Verification-condition generator: symbolic execution of the real Python AST against contracts.

Paths split at branches; loops are cut at their invariants; calls to functions with a contract use
the contract only, calls to helpers without one are inlined.  Ints are mathematical integers (as in Python).
"""
import ast
import re
import z3
from . import types as T
from . import source, theory
from .values import *
from .spec import (SpecEval, quant, SpecError, fresh, fresh_name, _fresh, compare, to_num, num_join, NUM, sel_arr,
                   default_term, empty_term, spec_arith, ext_isinf, ext_val, set_op)
from .contract import CONTRACTS, CLASSES, GLOBALS, Loop


class State:
    __slots__ = ('env', 'store', 'pc', 'epoch', 'frozen')

    def __init__(self, env, store, pc, epoch, frozen):
        self.env, self.store, self.pc, self.epoch, self.frozen = env, store, pc, epoch, frozen

    def assume(self, *cs):
        cs = [c for c in cs if not z3.is_true(c)]
        if not cs:
            return self
        return State(self.env, self.store, self.pc + tuple(cs), self.epoch, self.frozen)

    def set(self, name, val):
        e = dict(self.env)
        e[name] = val
        return State(e, self.store, self.pc, self.epoch, self.frozen)

    def with_env(self, env):
        return State(env, self.store, self.pc, self.epoch, self.frozen)

    def put(self, loc, cell):
        s = dict(self.store)
        s[loc] = cell
        return State(self.env, s, self.pc, self.epoch, self.frozen)

    def bump(self, loc):
        e = dict(self.epoch)
        e[loc] = e.get(loc, 0) + 1
        return State(self.env, self.store, self.pc, e, self.frozen)

    def freeze(self, loc):
        return State(self.env, self.store, self.pc, self.epoch, self.frozen | {loc})


class Obligation:
    def __init__(self, name, hyps, goal, kind, ctx, uses):
        self.name, self.hyps, self.goal, self.kind, self.ctx, self.uses = name, hyps, goal, kind, ctx, uses


class Out:
    __slots__ = ('k', 'st', 'v')

    def __init__(self, k, st, v=None):
        self.k, self.st, self.v = k, st, v


def has_nonlinear(e, cache=None):
    cache = {} if cache is None else cache
    todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in cache:
            continue
        cache[x.get_id()] = 1
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_MUL and sum(not z3.is_int_value(c) for c in x.children()) > 1:
                return True
            if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM) and not z3.is_int_value(x.arg(1)):
                return True
            todo += x.children()
    return False


def unparse(n):
    s = ast.unparse(n)
    return s if len(s) < 60 else s[:57] + '...'


class Frame:
    def __init__(self, fn, module, owner=None):
        self.fn, self.module, self.owner = fn, module, owner


MAXPATHS = 4000


class Engine:
    force_inline = False
    want = (None, None)
    def __init__(self):
        self.obls = []
        self.covers = []
        self.called = set()
        self.inlined = set()
        self.notes = set()
        self.nloc = 0
        self.assumptions = set()
        self.lemmas_used = set()
        self.globals_used = set()
        self.falsy = []
        self.streams = set()

    def assumed(self, s):
        self.assumptions.add(s)

    # ------------------------------------------------------------------ utils
    def newloc(self, hint='o'):
        self.nloc += 1
        return '%s@%d' % (hint, self.nloc)

    def alloc(self, st, cell, hint='o', default=None):
        loc = self.newloc(hint)
        r = Ref(loc)
        r.default = default
        return st.put(loc, cell), r

    def se(self, st, env=None):
        env = st.env if env is None else env
        return SpecEval(env, st.store, self.old_se, self)

    def spec_global(self, name):
        # module-level constants, dynamic lookup through the current frames
        for fr in reversed(self.frames):
            v = self.module_const(fr.module, name)
            if v is not None:
                return v
        if name == 'PRIMES':
            return self.global_val('rosemary.number_theory.prime_list:_PRIME_LIST')
        return None

    def oblige(self, st, goal, name, kind='safety'):
        """record proof obligation and return st with goal assumed"""
        if z3.is_true(goal):
            if not self.dry:
                self.trivial += 1
            return st
        if not self.dry:
            g = z3.simplify(goal) if kind == 'safety' else goal
            if z3.is_true(g):
                self.trivial += 1
                return st.assume(goal)
            self.obls.append(Obligation(self.cname + '/' + name, st.pc, goal, kind, self.cname, self.contract.uses))
        return st.assume(goal)

    def qf(self, pc):
        r = getattr(self, '_qfcache', None)
        if r is None:
            r = self._qfcache = {}
        out = []
        for c in pc:
            k = c.get_id()
            if k not in r:
                r[k] = (not has_quant(c), c)
            if r[k][0]:
                out.append(c)
        return out

    def proves(self, st, cond, ms=150):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = (tuple(c.get_id() for c in st.pc), cond.get_id())
        if key in self.pcache:
            return self.pcache[key][0]
        s = z3.Solver()
        s.set('timeout', ms)
        s.set('random_seed', 0)
        s.add(*self.qf(st.pc))
        s.add(Not(cond))
        r = s.check() == z3.unsat
        self.pcache[key] = (r, st.pc, cond)
        return r

    def feasible(self, st):
        if self.dry:
            return True
        key = (tuple(c.get_id() for c in st.pc), 'feas')
        if key in self.pcache:
            return self.pcache[key][0]
        s = z3.Solver()
        s.set('timeout', 100)
        s.add(*self.qf(st.pc))
        r = s.check() != z3.unsat
        self.pcache[key] = (r, st.pc, None)
        return r

    # ------------------------------------------------------------------ verification of one contract
    def verify(self, con, rename=None):
        self.contract = con
        self.cname = con.name
        self.rename = rename or {}
        self.dry = 0
        self.trivial = 0
        self.pcache = {}
        self.exc = [[]]
        self.old_se = None
        self.depth = 0
        mod, fn, owner = source.find(con.qual)
        if not isinstance(fn, ast.FunctionDef):
            raise Unsupported('%s is not a function' % con.qual)
        self.frames = [Frame(fn, mod, owner)]
        self.loop_ids = {}
        self.callpath = ()
        self.number_loops(fn, mod, owner, (), [0], 0)
        st = State({}, {}, (), {}, frozenset())
        for f in ('_G',):
            pass
        # parameters
        args = fn.args
        pnames = [a.arg for a in args.posonlyargs + args.args + args.kwonlyargs]
        if owner is not None and pnames and con.params and con.params[0][0] == 'self':
            pass
        cp = [p for p, _, _ in con.params if not p.startswith('_')]
        if owner is not None and any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in fn.decorator_list):
            cp = pnames[:1] + cp
        if len(pnames) != len(cp):
            # defaults not mentioned in the contract take their default value
            pass
        nd = len(args.defaults)
        defaults = {}
        for a, d in zip((args.posonlyargs + args.args)[-nd:] if nd else [], args.defaults):
            defaults[a.arg] = d
        for a, d in zip(args.kwonlyargs, args.kw_defaults):
            if d is not None:
                defaults[a.arg] = d
        env = {}
        pmap = {}
        for k, (p, ty, d) in enumerate(con.params):
            # positional matching makes parameter renames harmless
            tgt = p
            if not p.startswith('_') and p not in pnames and args.kwarg is not None and d is not None:
                tgt = p
            elif not p.startswith('_'):
                tgt = pnames[cp.index(p)] if cp.index(p) < len(pnames) else None
                if p in pnames:
                    tgt = p
            if tgt is None:
                raise Unsupported('parameter %s of %s is gone' % (p, con.qual))
            if tgt != p:
                pmap[p] = tgt
            if d == 'None' or ty == T.NONE:
                v = NoneV()
            elif ty[0] == 'str' and d is not None:
                v = StrV(ast.literal_eval(d))
            elif d is not None and ty in (T.INT, T.BOOL):
                v = B(d == 'True') if ty == T.BOOL else I(int(d))
            else:
                st, v = self.fresh_val(st, ty, p)
            env[tgt] = v
        if owner is not None and pnames and any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in fn.decorator_list):
            env[pnames[0]] = ClassV(owner, mod, con.qual.rsplit('.', 1)[0])
        for p in pnames:
            if p not in env:
                if p in defaults:
                    for st2, v in self.ev(defaults[p], st):
                        env[p] = v
                        st = st2
                else:
                    raise Unsupported('parameter %s of %s has no contract type' % (p, con.qual))
        if args.kwarg is not None:
            env[args.kwarg.arg] = KwV({p: v for p, v in env.items() if p not in pnames})
            env = {p: v for p, v in env.items() if p in pnames or p == args.kwarg.arg or p.startswith('_')}
        for p, tgt in pmap.items():
            self.rename.setdefault(p, tgt)
        st = st.with_env(env)
        self.entry_env = dict(env)
        self.specenv_extra = {}
        st = self.typefacts_env(st)
        self.old_se = SpecEval(self.spec_names(env), st.store, None, self)
        for p, _, _ in con.params:
            if p.startswith('_'):
                self.specenv_extra[p] = env[p]
        for r in con.requires:
            st = st.assume(self.truth(r, st))
        self.entry_state = st
        self.covers.append((con.name + '/entry', st.pc, 'must', con.uses))
        self.genout = None
        if source.is_generator(fn):
            ty = ('list', con.ret[1]) if con.ret[0] == 'list' else None
            st, ref = self.alloc(st, V(ty, empty_term(ty)), '_out')
            env = dict(st.env)
            env['_out'] = ref
            st = st.with_env(env)
            self.genout = ref.loc
        st = self.apply_ghost_decl(con, st)
        st = self.hints(con.entry, st, 'entry')
        outs = self.block(fn.body, st)
        nret = 0
        for o in outs:
            if o.k in ('next', 'ret'):
                v = o.v if o.k == 'ret' else NoneV()
                if self.genout is not None:
                    v = Ref(self.genout)
                nret += 1
                self.finish(con, o.st, v, nret)
            elif o.k == 'exc':
                self.finish_exc(con, o.st, o.v)
            else:
                raise Unsupported('stray %s' % o.k)
        self.nret = nret
        if nret == 0 and con.ret != T.parse('none') and not con.note.startswith('noreturn'):
            raise Unsupported('no return path')

    def spec_names(self, env):
        """environment seen by the specification: renamed locals answer to their contract names"""
        e = dict(getattr(self, 'specenv_extra', {}))
        e.update(env)
        for a, b in self.rename.items():
            if b in env and a not in env:
                e[a] = env[b]
        return e

    def spec_at(self, st):
        env = {}
        for saved in getattr(self, 'outer_envs', []):
            env.update(saved)
        env.update(st.env)
        return SpecEval(self.spec_names(env), st.store, self.old_se, self)

    def truth(self, s, st):
        return self.spec_at(st).truth(s)

    def apply_ghost_decl(self, con, st):
        for g, init in con.ghosts.items():
            v = self.spec_at(st).val(init)
            sv = self.spec_at(st).snap(v)
            st = st.set(g, sv)
        return st

    def check_aliases(self, con, st, v):
        """callers take the result for a fresh value, which no argument shares, and the objects for owners of their fields"""
        roots = {}
        for p, ty, _ in con.params:
            x = self.entry_env.get(p)
            if isinstance(x, Ref):
                roots[x.loc] = p
                c = st.store[x.loc]
                if isinstance(c, ObjCell):
                    for fl, y in c.fields.items():
                        if isinstance(y, Ref):
                            if y.loc in roots and roots[y.loc] != p and not con.types.get('retains'):
                                raise Unsupported('field %s keeps the argument %s' % (fl, roots[y.loc]))
                            roots[y.loc] = p
        for l, p in roots.items():
            if ('st', l) in st.frozen:
                raise Unsupported('%s changes through an alias' % p)
            if ('sh', l) in st.frozen and not con.types.get('retains'):
                raise Unsupported('%s is stored in another container' % p)
        r = self.root(v)
        if isinstance(r, Ref) and r.loc in roots or isinstance(v, PathRef) and not isinstance(r, Ref):
            if not con.types.get('alias'):
                raise Unsupported('the result is not a fresh container: it has to be inlined (types alias)')

    def finish(self, con, st, v, k):
        # postconditions are over entry bindings, current contents
        if con.ret[0] in ('list', 'set', 'dict') and isinstance(v, Ref) and self.is_empty(v, st):
            st, v = self.alloc(st, V(con.ret, empty_term(con.ret)), 'ret')
        if con.types.get('false') == 'none':
            # False-or-value results: the contract writes none for False; a real None is refused
            if isinstance(v, NoneV):
                self.oblige(st, FALSE, 'return%d/returns-None' % k, 'post')
                return
            if isinstance(v, V) and v.ty == T.BOOL:
                self.oblige(st, Not(v.t), 'return%d/returns-True' % k, 'post')
                v = NoneV()
        env = dict(st.env)
        ee = dict(self.entry_env)
        gh = {x: y for x, y in st.env.items() if x.startswith('_')}
        now = {'now_' + x: env[x] for x in ee if x in env and env[x] is not ee[x]}
        env2 = {**env, **ee, **gh, **now, 'result': v}
        if isinstance(v, NoneV) and con.ret[0] in ('int', 'bool', 'list', 'dict', 'set', 'tuple'):
            del env2['result']
        st2 = st.with_env(env2)
        st2 = self.hints(con.exit, st2, 'return%d' % k)
        if isinstance(v, NoneV) and con.ret[0] in ('int', 'bool', 'list', 'dict', 'set', 'tuple'):
            # falling off the end where a value is specified: this path has to be unreachable
            self.oblige(st2, FALSE, 'return%d/returns-None' % k, 'post')
            return
        self.covers.append((con.name + '/return%d' % k, st2.pc, 'any', con.uses))
        for exc, cond in con.raises:
            if cond != '*':
                self.oblige(st2, Not(self.old_se.truth(cond)), 'return%d/raises-%s' % (k, exc), 'post')
        self.check_type(con, st2, v, k)
        self.check_aliases(con, st2, v)
        for i, e in enumerate(con.ensures):
            try:
                g = self.truth(e, st2)
            except SpecError as x:
                raise Unsupported('postcondition %r: %s' % (e, x))
            for j, gg in enumerate(conjuncts(g)):
                self.oblige(st2, gg, 'return%d/ensures%d%s' % (k, i, '.%d' % j if j else ''), 'post')
        # frame
        for p, ty, _ in con.params:
            q = p if p in ee else self.rename.get(p, p)
            if q in ee and p not in con.modifies and isinstance(ee[q], Ref):
                self.frame_check(st2, ee[q], p, k, con)

    def frame_check(self, st, ref, p, k, con):
        a = self.old_se.store[ref.loc]
        b = st.store[ref.loc]
        if isinstance(a, ObjCell):
            for f, fv in a.fields.items():
                if p + '.' + f in con.modifies:
                    continue
                bv_ = b.fields[f]
                if isinstance(fv, Ref):
                    if not isinstance(bv_, Ref) or bv_.loc != fv.loc:
                        ga, gb = self.old_se.snap(fv), self.spec_at(st).snap(bv_)
                        self.oblige(st, ga.t == gb.t, 'return%d/frame-%s.%s' % (k, p, f), 'frame')
                    else:
                        self.frame_check(st, fv, p + '.' + f, k, con)
                elif isinstance(fv, V):
                    if not (isinstance(bv_, V) and bv_.t.eq(fv.t)):
                        self.oblige(st, self.spec_at(st).cmp_vals('==', fv, bv_), 'return%d/frame-%s.%s' % (k, p, f), 'frame')
            return
        if a is b or isinstance(a, EmptyCell):
            if a is not b:
                raise Unsupported('frame of empty cell')
            return
        if a.t.eq(b.t):
            return
        self.oblige(st, compare('==', a, b), 'return%d/frame-%s' % (k, p), 'frame')

    def check_type(self, con, st, v, k):
        ty = con.ret
        if ty == T.NONE:
            if not isinstance(v, NoneV):
                raise Unsupported('returns a value where None is specified')
            return
        if ty[0] == 'obj':
            return
        if ty[0] == 'tuple' and any(t[0] == 'obj' for t in ty[1]):
            # a tuple of objects: callers inline the function
            if not isinstance(v, TupV) or len(v.items) != len(ty[1]):
                raise Unsupported('return type')
            for x, t in zip(v.items, ty[1]):
                if t[0] == 'obj':
                    if not isinstance(x, Ref) or not isinstance(st.store[x.loc], ObjCell) or st.store[x.loc].cls != CLASSES[t[1]].name:
                        raise Unsupported('return type')
                else:
                    self.spec_at(st).coerce(x, t)
            return
        try:
            self.spec_at(st).coerce(v, ty)
        except SpecError as x:
            raise Unsupported('return type: %s' % x)

    def finish_exc(self, con, st, exc):
        conds = [c for e, c in con.raises if e == exc or exc in SUBEXC.get(e, ())]
        if any(c == '*' for c in conds):
            return
        if con.exc_exit:
            ee = dict(self.entry_env)
            now = {'now_' + x: st.env[x] for x in ee if x in st.env and st.env[x] is not ee[x]}
            st = st.with_env({**st.env, **ee, **now})
            st = self.hints(con.exc_exit, st, 'raises-%s' % exc)
        g = Or(*[self.old_se.truth(c) for c in conds]) if conds else FALSE
        self.oblige(st, g, 'raises-%s' % exc, 'post')

    # ------------------------------------------------------------------ hints
    def hints(self, hs, st, where, skipped=None):
        for h in hs:
            try:
                st = self.hint(h, st, where)
            except SpecError as x:
                # hints that mention names not in scope at this point are skipped (sound: hints only add
                # instances of proved lemmas or checked assertions)
                if 'unknown name' in str(x) or 'no term' in str(x):
                    if skipped is not None:
                        skipped.append(h)
                    continue
                raise
        return st

    def hint(self, h, st, where):
        se = self.spec_at(st)
        if h.startswith('use '):
            call = ast.parse(h[4:].strip(), mode='eval').body
            l = theory.LEMMAS[call.func.id]
            self.lemmas_used.add(l.name)
            return st.assume(theory.instantiate(l, [se.ev(a) for a in call.args], se))
        m = re.match(r'useall ([\w:\[\], ]+?)\s*(\{.*\})?\s*=>\s*(.*)$', h, re.S)
        if m:
            # useall i:int {trigger} => lemma(args)
            vs = theory._split_sig(m.group(1))
            bs = []
            ext = {}
            for v, t in vs:
                c = z3.Const(fresh_name(v), T.sort(t))
                bs.append(c)
                ext[v] = V(t, c)
            se2 = se.bind([], ext)
            call = ast.parse(m.group(3).strip(), mode='eval').body
            l = theory.LEMMAS[call.func.id]
            self.lemmas_used.add(l.name)
            body = theory.instantiate(l, [se2.ev(a) for a in call.args], se2)
            pats = []
            if m.group(2):
                e = ast.parse('(' + m.group(2)[1:-1] + ',)', mode='eval').body
                ts = [se2.term_of(se2.ev(x)) for x in e.elts]
                pats = [ts[0]] if len(ts) == 1 else [z3.MultiPattern(*ts)]
            return st.assume(quant(True, bs, body, pats))
        m = re.match(r'card (?:([\w:]+)\s*(\{.*?\})?\s*=>\s*)?(.*)$', h, re.S)
        if m:
            # the length of a set or dictionary of the program is the number of its elements; v:T {pattern} => E quantifies over v
            bs, ext = [], {}
            if m.group(1):
                n, t = m.group(1).split(':')
                c = z3.Const(fresh_name(n), T.sort(T.parse(t)))
                bs.append(c)
                ext[n] = V(T.parse(t), c)
            se2 = se.bind([], ext)
            src, guards = m.group(3).strip(), []

            def real(e):
                if isinstance(e, ast.Name) and e.id in ext:
                    raise SpecError('card of a bound variable')
                if isinstance(e, ast.Attribute):
                    return real(e.value)
                if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Call) and getattr(e.value.func, 'id', '') == 'vals':
                    guards.append('dom(%s)[%s]' % (ast.unparse(e.value.args[0]), ast.unparse(e.slice)))
                    return real(e.value.args[0])
                if isinstance(e, ast.Subscript):
                    guards.append('0 <= %s and %s < len(%s)' % (ast.unparse(e.slice), ast.unparse(e.slice), ast.unparse(e.value)))
                    return real(e.value)
                if not isinstance(e, ast.Name):
                    raise SpecError('card of ' + ast.unparse(e))
            real(ast.parse(src, mode='eval').body)
            ty = se2.typed(se2.val(src))[0]
            fnm = 'mem' if ty[0] == 'set' else 'dom'
            if ty[0] not in ('set', 'dict') or ty[1] != T.INT:
                raise SpecError('card of %s' % (ty,))
            body = Imp(And(*[se2.truth(g) for g in guards]), se2.truth('len(%s) == ncard(%s(%s)) and finite(%s(%s))' % (src, fnm, src, fnm, src)))
            pats = []
            if m.group(2):
                e = ast.parse('(' + m.group(2)[1:-1] + ',)', mode='eval').body
                ts = [se2.term_of(se2.ev(x)) for x in e.elts]
                pats = [ts[0]] if len(ts) == 1 else [z3.MultiPattern(*ts)]
            return st.assume(quant(True, bs, body, pats) if bs else body)
        if h.startswith('assert '):
            g = se.truth(h[7:])
            return self.oblige(st, g, where + '/assert[%s]' % h[7:50], 'assert')
        m = re.match(r'name (\w+)$', h)
        if m:
            # abbreviates the value of a variable by a fresh constant equal to it
            x = m.group(1)
            y = self.rename.get(x, x) if x not in st.env else x
            if y not in st.env:
                raise SpecError('unknown name ' + x)
            v = st.env[y]
            if not isinstance(v, V):
                return st
            c = fresh(x, v.ty)
            return st.assume(c == v.t).set(y, V(v.ty, c))
        if h == 'mark':
            return st.set('mark__', I(len(st.pc)))
        if h.startswith('cut '):
            # proves the assertions, then drops every other fact gathered since the last mark (weakens the context: always sound)
            fs = []
            for a in h[4:].split(';;'):
                g = se.truth(a.strip())
                self.oblige(st, g, where + '/cut[%s]' % a.strip()[:50], 'assert')
                fs.append(g)
            if self.dry and 'mark__' not in st.env:
                return st
            k = const_int(st.env['mark__'])
            return State(st.env, st.store, st.pc[:k] + tuple(fs), st.epoch, st.frozen)
        if h == 'forget nonlinear':
            # drops facts (weakens the context: always sound) that contain products or divisions of non-constants
            return State(st.env, st.store, tuple(c for c in st.pc if not has_nonlinear(c)), st.epoch, st.frozen)
        if h.startswith('ghost '):
            n, e = h[6:].split('=', 1)
            v = se.snap(se.val(e))
            if isinstance(v, TupV):
                v = V(*se.typed(v))
            return st.set(n.strip(), v)
        if h.startswith('witness '):
            # witness x:int | P(x)   -- obliges exists, then names it
            m = re.match(r'witness (\w+):([\w\[\],]+)\s*\|\s*(.*)$', h, re.S)
            c = z3.Const(fresh_name(m.group(1)), T.sort(T.parse(m.group(2))))
            val = V(T.parse(m.group(2)), c)
            se2 = se.bind([], {m.group(1): val})
            body = se2.truth(m.group(3))
            ex = z3.Exists([c], body)
            st = self.oblige(st, ex, where + '/witness[%s]' % m.group(3)[:40], 'assert')
            return st.assume(body).set(m.group(1), val)
        raise ValueError('hint ' + h)

    # ------------------------------------------------------------------ values
    def fresh_val(self, st, ty, hint):
        k = ty[0]
        if k == 'none':
            return st, NoneV()
        if k == 'obj':
            spec = CLASSES[ty[1]]
            fields = {}
            for f, fty in spec.fields.items():
                st, fields[f] = self.fresh_val(st, fty, hint + '.' + f)
                if isinstance(fields[f], Ref):
                    fields[f].default = spec_default(fty)
            st, r = self.alloc(st, ObjCell(spec.name, fields), hint)
            return st, r
        if k == 'tuple':
            items = []
            for i, t in enumerate(ty[1]):
                st, v = self.fresh_val(st, t, '%s.%d' % (hint, i))
                items.append(v)
            return st, TupV(items)
        if k in ('list', 'set', 'dict'):
            if k == 'list' and ty[1] == T.UNK:
                st, r = self.alloc(st, EmptyCell('list'), hint)
                return st, r
            c = fresh(hint, ty)
            # name the components separately: smaller terms for the solvers
            s = T.sort(ty)
            if k == 'list':
                n, a = fresh(hint + '.len', T.INT), fresh(hint + '.arr', ('arr', ty[1]))
                st = st.assume(n >= 0)
                cell = V(ty, T.mk(ty, n, a))
                st = st.assume(*self.elemfacts(ty, cell.t))
            elif k == 'set':
                m, n = fresh(hint + '.mem', ('fn', ty[1], T.BOOL)), fresh(hint + '.card', T.INT)
                st = st.assume(*card_facts(m, n, ty[1]))
                cell = V(ty, T.mk(ty, m, n))
            else:
                m, vv, n = (fresh(hint + '.dom', ('fn', ty[1], T.BOOL)), fresh(hint + '.map', ('fn', ty[1], ty[2])),
                            fresh(hint + '.card', T.INT))
                st = st.assume(*card_facts(m, n, ty[1]))
                cell = V(ty, T.mk(ty, m, vv, n))
                st = st.assume(*self.elemfacts(ty, cell.t))
            st, r = self.alloc(st, cell, hint, spec_default(ty))
            return st, r
        return st, V(ty, fresh(hint, ty))

    def elemfacts(self, ty, t):
        """type-level facts of nested containers (inner lengths are non-negative)"""
        if ty[0] == 'list' and ty[1][0] == 'list':
            i = z3.Int(fresh_name('ef'))
            e = z3.Select(T.l_arr(ty, t), i)
            return [z3.ForAll([i], T.l_len(ty[1], e) >= 0, patterns=[e])]
        if ty[0] == 'dict' and ty[2][0] == 'list':
            i = z3.Const(fresh_name('ef'), T.sort(ty[1]))
            e = z3.Select(T.sel(ty, 1, t), i)
            return [z3.ForAll([i], T.l_len(ty[2], e) >= 0, patterns=[e])]
        return []

    def typefacts_env(self, st):
        return st

    def type_of(self, v, st):
        if isinstance(v, V):
            return v.ty
        if isinstance(v, NoneV):
            return T.NONE
        if isinstance(v, TupV):
            return ('tuple', tuple(self.type_of(x, st) for x in v.items))
        if isinstance(v, Ref):
            c = st.store[v.loc]
            if isinstance(c, ObjCell):
                return ('obj', c.cls)
            if isinstance(c, EmptyCell):
                return (c.kind, T.UNK) if c.kind != 'dict' else ('dict', T.UNK, T.UNK)
            return c.ty
        if isinstance(v, PathRef):
            return v.ty
        if isinstance(v, PartialInf):
            return T.EXT
        if isinstance(v, StrV):
            return T.STR
        if isinstance(v, MaybeUnbound):
            return self.type_of(v.val, st)
        return ('py', type(v).__name__)

    def snapv(self, v, st):
        """term-valued snapshot V for storing"""
        se = SpecEval({}, st.store)
        if isinstance(v, (PathRef,)):
            self.check_path(v, st)
        s = se.snap(v)
        if isinstance(s, V):
            return s
        if isinstance(s, TupV):
            return V(*se.typed(s))
        if isinstance(s, PartialInf):
            return V(T.EXT, T.sort(T.EXT).x_inf)
        return None

    def coerce(self, v, ty, st):
        try:
            return SpecEval({}, st.store).coerce(v, ty)
        except SpecError as x:
            raise Unsupported(str(x))

    def check_path(self, p, st):
        b = p
        while isinstance(b, PathRef):
            b = b.base
        if isinstance(b, Ref) and st.epoch.get(b.loc, 0) != p.epoch:
            raise Unsupported('interior reference may be stale')

    def root(self, p):
        while isinstance(p, PathRef):
            p = p.base
        return p

    # content read / write
    def content(self, v, st):
        """current content V of a container value"""
        if isinstance(v, Ref):
            if ('st', v.loc) in st.frozen:
                raise Unsupported('read of a container whose alias inside another container has changed')
            return st.store[v.loc]
        if isinstance(v, PathRef):
            self.check_path(v, st)
            from .spec import path_get
            return V(v.ty, path_get(SpecEval({}, st.store), v))
        if isinstance(v, V):
            return v
        raise Unsupported('container expected: %r' % v)

    def write(self, v, cell, st, structural=True):
        if isinstance(v, Ref):
            if v.loc in st.frozen:
                raise Unsupported('mutation of a container that is also stored elsewhere (aliasing)')
            st = st.put(v.loc, cell)
            return st.bump(v.loc) if structural else st
        if isinstance(v, PathRef):
            self.check_path(v, st)
            if ('nw', v.ty) in st.frozen:
                raise Unsupported('write to an element that another container shares (aliasing)')
            r = self.root(v)
            for f in st.frozen:
                if f[0] == 'sh' and f[1] in st.store and not (isinstance(r, Ref) and r.loc == f[1]):
                    c = st.store[f[1]]
                    if (c.kind == v.ty[0] if isinstance(c, EmptyCell) else c.ty == v.ty):
                        st = st.freeze(('st', f[1]))
            base = self.content(v.base, st)
            if base.ty[0] == 'list':
                nb = T.mk(base.ty, T.l_len(base.ty, base.t), z3.Store(T.l_arr(base.ty, base.t), v.idx, self.coerce(cell, v.ty, st).t))
            elif base.ty[0] == 'dict':
                nb = T.mk(base.ty, T.sel(base.ty, 0, base.t), z3.Store(T.sel(base.ty, 1, base.t), v.idx, self.coerce(cell, v.ty, st).t),
                          T.sel(base.ty, 2, base.t))
            else:
                raise Unsupported('path write')
            return self.write(v.base, V(base.ty, nb), st, False)
        raise Unsupported('mutation of a temporary')

    def share(self, v, st):
        """v is being stored inside another container: its own location may no longer be mutated through"""
        if isinstance(v, Ref):
            c = st.store[v.loc]
            if isinstance(c, ObjCell):
                raise Unsupported('object stored in a container')
            return st.freeze(v.loc).freeze(('sh', v.loc))
        if isinstance(v, PathRef):
            return st.freeze(('nw', v.ty))
        if isinstance(v, TupV):
            for x in v.items:
                st = self.share(x, st)
        return st

    def elem_val(self, base, idx, ety, st):
        """value read out of a container slot"""
        if T.is_mut(ety):
            p = PathRef(base, idx, ety)
            r = self.root(p)
            p.epoch = st.epoch.get(r.loc, 0) if isinstance(r, Ref) else 0
            return p
        c = self.content(base, st)
        if c.ty[0] == 'list':
            t = sel_arr(T.l_arr(c.ty, c.t), idx)
        else:
            t = sel_arr(T.sel(c.ty, 1, c.t), idx)
        return self.unpackv(V(ety, t))

    def unpackv(self, v):
        if isinstance(v, V) and v.ty[0] == 'tuple':
            return TupV([self.unpackv(V(t, T.sel(v.ty, i, v.t))) for i, t in enumerate(v.ty[1])])
        return v

    # ------------------------------------------------------------------ loops numbering
    def number_loops(self, fn, mod, owner, path, ctr, depth):
        def visit(n):
            if isinstance(n, (ast.While, ast.For)):
                self.loop_ids[path + (id(n),)] = ctr[0]
                ctr[0] += 1
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)) and n is not fn:
                return
            if isinstance(n, ast.Call):
                for c in ast.iter_child_nodes(n):
                    visit(c)
                t = self.static_callee(n, mod, fn, owner)
                if t is not None and depth < 4:
                    f2, m2, o2 = t
                    self.number_loops(f2, m2, o2, path + (id(n),), ctr, depth + 1)
                return
            for c in ast.iter_child_nodes(n):
                visit(c)
        for s in fn.body:
            visit(s)

    def static_callee(self, call, mod, fn, owner):
        """inlinable target of a call (syntactic resolution), or None"""
        f = call.func
        if isinstance(f, ast.Name):
            for c in ast.walk(fn):
                if isinstance(c, ast.FunctionDef) and c.name == f.id and c is not fn:
                    return c, mod, owner
            try:
                v = self.module_name(mod, f.id)
            except Unsupported:
                return None
            if isinstance(v, FuncV) and v.qual not in CONTRACTS and v.node is not fn:
                return v.node, v.module, v.owner
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id == 'self' and owner is not None:
                for c in owner.body:
                    if isinstance(c, ast.FunctionDef) and c.name == f.attr:
                        q = mod.name + ':' + owner.name + '.' + f.attr
                        if q not in CONTRACTS and c is not fn:
                            return c, mod, owner
            if isinstance(f.value, ast.Name) and f.value.id in mod.imports:
                try:
                    v = self.module_name(mod, f.value.id)
                    if isinstance(v, ModV):
                        w = self.mod_attr(v, f.attr)
                        if isinstance(w, FuncV) and w.qual not in CONTRACTS:
                            return w.node, w.module, w.owner
                except Unsupported:
                    pass
        return None

    # ------------------------------------------------------------------ name resolution
    def module_name(self, mod, name):
        if name in mod.defs:
            n = mod.defs[name]
            q = mod.name + ':' + name
            return FuncV(n, mod, q) if isinstance(n, ast.FunctionDef) else ClassV(n, mod, q)
        if name in mod.imports:
            i = mod.imports[name]
            if i[0] == 'mod':
                return ModV(i[1])
            if i[1].startswith('rosemary') and source.exists(i[1]):
                if source.exists(i[1] + '.' + i[2]) and i[2] not in source.module(i[1]).defs and i[2] not in source.module(i[1]).consts:
                    return ModV(i[1] + '.' + i[2])
                q = i[1] + ':' + i[2]
                if q in GLOBALS:
                    return self.global_val(q)
                return self.module_name(source.module(i[1]), i[2])
            return BuiltinV(i[1] + '.' + i[2])
        q = mod.name + ':' + name
        if q in GLOBALS:
            return self.global_val(q)
        v = self.module_const(mod, name)
        if v is not None:
            return v
        from .builtins import BUILTINS
        if name in BUILTINS or name in EXCEPTIONS:
            return BuiltinV(name)
        raise Unsupported('unknown name %s' % name)

    def module_const(self, mod, name):
        if name in mod.consts:
            try:
                return pyconst(ast.literal_eval(mod.consts[name]))
            except ValueError:
                e = mod.consts[name]
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'float':
                    return PartialInf()
                return None
        return None

    def global_val(self, q):
        g = GLOBALS[q]
        self.globals_used.add(q)
        n = 'G_' + q.split(':')[1]
        if g.ty[0] == 'list':
            t = T.mk(g.ty, z3.Int(n + '.len'), z3.Const(n + '.arr', T.sort(('arr', g.ty[1]))))
            return V(g.ty, t)
        return V(g.ty, z3.Const(n, T.sort(g.ty)))

    def mod_attr(self, m, attr):
        if m.name.startswith('rosemary'):
            if source.exists(m.name + '.' + attr):
                return ModV(m.name + '.' + attr)
            return self.module_name(source.module(m.name), attr)
        return BuiltinV(m.name + '.' + attr)

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st):
        outs = []
        cur = [st]
        for s in stmts:
            nxt = []
            for c in cur:
                for o in self.stmt(s, c):
                    if o.k == 'next':
                        nxt.append(o.st)
                    else:
                        outs.append(o)
            cur = nxt
            if len(cur) + len(outs) > MAXPATHS:
                raise Unsupported('too many paths')
            if not cur:
                break
        return outs + [Out('next', c) for c in cur]

    def stmt(self, s, st):
        self.exc.append([])
        try:
            r = getattr(self, 's_' + type(s).__name__, None)
            if r is None:
                raise Unsupported('statement %s' % type(s).__name__)
            outs = r(s, st)
        except SpecError as x:
            self.exc.pop()
            raise Unsupported('%s: %s' % (unparse(s), x))
        except BaseException:
            self.exc.pop()
            raise
        ex = self.exc.pop()
        return outs + [Out('exc', e[0], e[1]) for e in ex]

    def s_Pass(self, s, st):
        return [Out('next', st)]

    s_Import = s_ImportFrom = s_Pass

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [Out('next', st)]
        if isinstance(s.value, ast.Yield):
            return self.do_yield(s.value, st)
        if isinstance(s.value, ast.YieldFrom):
            return self.do_yield_from(s.value, st)
        return [Out('next', x) for x, _ in self.ev(s.value, st)]

    def do_yield(self, y, st):
        outs = []
        for st1, v in self.ev(y.value, st):
            st1 = self.yield_val(st1, v)
            outs.append(Out('next', st1))
        return outs

    def yield_val(self, st1, v):
        loc = self.genout
        con = self.contract
        env = dict(st1.env)
        env['item'] = v
        s2 = st1.with_env(env)
        if con.each:
            s2 = self.hints(con.after.get('yield', []), s2, 'yield')
        for i, e in enumerate(con.each):
            s2 = self.oblige(s2, self.truth(e, s2), 'yield/each%d' % i, 'post')
        st1 = State(st1.env, s2.store, s2.pc, s2.epoch, s2.frozen)
        c = st1.store[loc]
        nv = self.coerce(v, c.ty[1], st1)
        n = T.l_len(c.ty, c.t)
        return st1.put(loc, V(c.ty, T.mk(c.ty, simp(n + 1), z3.Store(T.l_arr(c.ty, c.t), n, nv.t))))

    def do_yield_from(self, y, st):
        # treat as: for _y in <iter>: yield _y  (needs no invariant when the source is a list-like sequence)
        outs = []
        for st1, v in self.ev(y.value, st):
            from .builtins import to_list_val
            st1, lv = to_list_val(self, st1, v)
            loc = self.genout
            c = st1.store[loc]
            l = self.content(lv, st1)
            st1, nc = self.concat(st1, c, l)
            outs.append(Out('next', st1.put(loc, nc)))
        return outs

    def s_Return(self, s, st):
        if s.value is None:
            return [Out('ret', st, NoneV())]
        return [Out('ret', x, v) for x, v in self.ev(s.value, st)]

    def s_Break(self, s, st):
        return [Out('brk', st)]

    def s_Continue(self, s, st):
        return [Out('cont', st)]

    def s_Assert(self, s, st):
        outs = []
        for x, v in self.ev(s.test, st):
            x = self.oblige(x, self.truthv(v, x), 'assert[%s]' % unparse(s.test))
            outs.append(Out('next', x))
        return outs

    def s_Raise(self, s, st):
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        return [Out('exc', st, e.id if e is not None else 'Exception')]

    def s_FunctionDef(self, s, st):
        q = '%s:%s.%s' % (self.frames[-1].module.name, self.frames[-1].fn.name, s.name)
        f = FuncV(s, self.frames[-1].module, q, closure=True)
        return [Out('next', st.set(s.name, f))]

    def s_Delete(self, s, st):
        cur = [st]
        for t in s.targets:
            nxt = []
            for c in cur:
                if isinstance(t, ast.Name):
                    e = dict(c.env)
                    e.pop(t.id, None)
                    nxt.append(c.with_env(e))
                elif isinstance(t, ast.Subscript):
                    for c1, b in self.ev(t.value, c):
                        for c2, i in self.ev(t.slice, c1):
                            from .builtins import del_item
                            nxt.append(del_item(self, c2, b, i, t))
                else:
                    raise Unsupported('del')
            cur = nxt
        return [Out('next', c) for c in cur]

    def s_Assign(self, s, st):
        if isinstance(s.value, ast.Yield):
            raise Unsupported('yield expression value')
        outs = []
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, (ast.List, ast.Dict, ast.DictComp, ast.ListComp, ast.SetComp)) and s.targets[0].id in self.contract.locals:
            self.want = (s.value, self.contract.locals[s.targets[0].id])
        for st1, v in self.ev(s.value, st):
            cur = [st1]
            for t in s.targets:
                nxt = []
                for c in cur:
                    nxt += self.assign(t, v, c)
                cur = nxt
            cur = [self.after_hints(s.targets, c) for c in cur]
            outs += [Out('next', c) for c in cur]
        return outs

    def after_hints(self, targets, st):
        con = self.contract
        if not con.after:
            return st
        for t in [e for t in targets for e in (t.elts if isinstance(t, ast.Tuple) else [t])]:
            if isinstance(t, ast.Name):
                names = [t.id] + [a for a, b in self.rename.items() if b == t.id]
                for nm in names:
                    if nm in con.after:
                        st = self.hints(con.after[nm], st, 'after-' + nm)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return [Out('next', st)]
        outs = []
        for st1, v in self.ev(s.value, st):
            outs += [Out('next', c) for c in self.assign(s.target, v, st1)]
        return outs

    def s_AugAssign(self, s, st):
        outs = []
        t = s.target
        if isinstance(t, ast.Name):
            for st1, a in self.ev(ast.Name(t.id, ast.Load()), st):
                for st2, b in self.ev(s.value, st1):
                    ty = self.type_of(a, st2)
                    if isinstance(a, (Ref, PathRef)) and ty[0] in ('list', 'set', 'dict'):
                        from .builtins import inplace
                        outs += [Out('next', x) for x in inplace(self, st2, a, s.op, b, s)]
                        continue
                    for st3, v in self.binop(s.op, a, b, st2, s):
                        outs += [Out('next', x) for x in self.assign(t, v, st3)]
            return outs
        if isinstance(t, ast.Subscript):
            for st1, base in self.ev(t.value, st):
                for st2, i in self.ev(t.slice, st1):
                    for st3, a in self.subscript(base, i, st2, t):
                        for st4, b in self.ev(s.value, st3):
                            ty = self.type_of(a, st4)
                            if isinstance(a, (Ref, PathRef)) and ty[0] in ('list', 'set', 'dict'):
                                from .builtins import inplace
                                outs += [Out('next', x) for x in inplace(self, st4, a, s.op, b, s)]
                                continue
                            for st5, v in self.binop(s.op, a, b, st4, s):
                                for x in self.store_sub(base, i, v, st5, t):
                                    outs.append(Out('next', x))
            return outs
        if isinstance(t, ast.Attribute):
            for st1, o in self.ev(t.value, st):
                for st2, a in self.attr(o, t.attr, st1, t):
                    for st3, b in self.ev(s.value, st2):
                        if isinstance(a, (Ref, PathRef)):
                            from .builtins import inplace
                            outs += [Out('next', x) for x in inplace(self, st3, a, s.op, b, s)]
                            continue
                        for st4, v in self.binop(s.op, a, b, st3, s):
                            outs += [Out('next', x) for x in self.assign_attr(o, t.attr, v, st4)]
            return outs
        raise Unsupported('augmented assignment target')

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            ty = self.contract.locals.get(t.id)
            if ty is not None and isinstance(v, Ref) and isinstance(st.store[v.loc], EmptyCell):
                st = st.put(v.loc, V(ty, empty_term(ty)))
            if ty is not None and isinstance(v, V) and v.ty == ('opt', ty):
                st = self.oblige(st, Not(T.is_none(v.ty, v.t)), 'not-None[%s]' % t.id)
                v = self.unpackv(V(ty, T.opt_val(v.ty, v.t)))
            return [st.set(t.id, v)]
        if isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported('starred target')
            st, items = self.unpack(v, len(t.elts), st, t)
            cur = [st]
            for x, y in zip(t.elts, items):
                nxt = []
                for c in cur:
                    nxt += self.assign(x, y, c)
                cur = nxt
            return cur
        if isinstance(t, ast.Subscript):
            out = []
            for st1, b in self.ev(t.value, st):
                if isinstance(t.slice, ast.Slice):
                    from .builtins import store_slice
                    out += store_slice(self, st1, b, t.slice, v, t)
                    continue
                for st2, i in self.ev(t.slice, st1):
                    out += self.store_sub(b, i, v, st2, t)
            return out
        if isinstance(t, ast.Attribute):
            out = []
            for st1, o in self.ev(t.value, st):
                out += self.assign_attr(o, t.attr, v, st1)
            return out
        raise Unsupported('assignment target')

    def assign_attr(self, o, attr, v, st):
        if isinstance(o, Ref) and isinstance(st.store[o.loc], ObjCell):
            c = st.store[o.loc]
            spec = CLASSES.get(c.cls)
            if isinstance(v, Ref):
                fty = spec.fields.get(attr) if spec is not None else None
                if fty is not None and fty[0] in ('list', 'set', 'dict') and isinstance(st.store[v.loc], EmptyCell):
                    st = st.put(v.loc, V(fty, empty_term(fty)))
            f = dict(c.fields)
            f[attr] = v
            return [st.put(o.loc, ObjCell(c.cls, f))]
        raise Unsupported('attribute assignment')

    def unpack(self, v, n, st, node):
        if isinstance(v, TupV):
            if len(v.items) != n:
                raise Unsupported('unpack arity')
            return st, v.items
        if isinstance(v, V) and v.ty[0] == 'opt':
            st = self.oblige(st, Not(T.is_none(v.ty, v.t)), 'unpack-not-None[%s]' % unparse(node))
            v = self.unpackv(V(v.ty[1], T.opt_val(v.ty, v.t)))
            return self.unpack(v, n, st, node)
        if isinstance(v, V) and v.ty[0] == 'tuple':
            return self.unpack(self.unpackv(v), n, st, node)
        ty = self.type_of(v, st)
        if ty[0] == 'list':
            c = self.content(v, st)
            st = self.oblige(st, T.l_len(c.ty, c.t) == n, 'unpack-length[%s]' % unparse(node))
            return st, [self.elem_val(v, z3.IntVal(i), ty[1], st) for i in range(n)]
        raise Unsupported('unpack of %s' % (ty,))

    def s_If(self, s, st):
        outs = []
        for st1, v in self.ev(s.test, st):
            c = self.truthv(v, st1)
            a, b = self.fork(st1, c)
            if a is not None:
                outs += self.block(s.body, self.narrow(s.test, a, True))
            if b is not None:
                outs += self.block(s.orelse, self.narrow(s.test, b, False)) if s.orelse else [Out('next', self.narrow(s.test, b, False))]
        return outs

    def narrow(self, test, st, pos):
        """x is None / x is not None / x narrowing of optionals"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.narrow(test.operand, st, not pos)
        n = None
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and \
                isinstance(test.comparators[0], ast.Constant) and (test.comparators[0].value is None or test.comparators[0].value is False and
                isinstance(test.ops[0], (ast.Is, ast.IsNot)) and getattr(st.env.get(test.left.id), 'ty', T.NONE)[0] == 'opt'):
            isnone = isinstance(test.ops[0], (ast.Is, ast.Eq))
            n = (test.left.id, isnone == pos)
        elif isinstance(test, ast.Name) and pos:
            n = (test.id, False)
        if n is None or n[0] not in st.env:
            return st
        v = st.env[n[0]]
        if isinstance(v, V) and v.ty[0] == 'opt':
            if n[1]:
                return st.set(n[0], NoneV())
            inner = v.ty[1]
            if T.is_mut(inner):
                return st
            return st.set(n[0], self.unpackv(V(inner, T.opt_val(v.ty, v.t))))
        return st

    def fork(self, st, c):
        c2 = z3.simplify(c)
        if z3.is_true(c2):
            return st, None
        if z3.is_false(c2):
            return None, st
        a, b = st.assume(c), st.assume(Not(c))
        if not self.feasible(a):
            a = None
        if not self.feasible(b):
            b = None
        return a, b

    def s_Try(self, s, st):
        outs = []
        for o in self.block(s.body, st):
            if o.k == 'exc':
                for h in s.handlers:
                    names = []
                    if h.type is None:
                        names = None
                    elif isinstance(h.type, ast.Tuple):
                        names = [e.id for e in h.type.elts]
                    else:
                        names = [h.type.id]
                    if names is None or o.v in names or 'Exception' in names:
                        outs += self.block(h.body, o.st)
                        break
                else:
                    outs.append(o)
            elif o.k == 'next' and s.orelse:
                outs += self.block(s.orelse, o.st)
            else:
                outs.append(o)
        if s.finalbody:
            raise Unsupported('finally')
        return outs

    # ------------------------------------------------------------------ loops
    def assigned(self, body):
        out = []

        def add(x):
            if x not in out:
                out.append(x)

        def walk(n):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                add(n.id)
            if isinstance(n, ast.FunctionDef):
                add(n.name)
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp, ast.Lambda)):
                # comprehension variables are local
                for g in n.generators if hasattr(n, 'generators') else []:
                    walk(g.iter)
                return
            for c in ast.iter_child_nodes(n):
                walk(c)
        for s in body:
            walk(s)
        return out

    def s_While(self, s, st):
        return self.loop(s, st, None)

    def s_For(self, s, st):
        outs = []
        for st1, it in self.ev(s.iter, st):
            from .builtins import iter_of
            for st2, itv in iter_of(self, st1, it, s.iter):
                itv.stream = isinstance(it, Ref) and it.loc in self.streams
                outs += self.loop(s, st2, itv)
        return outs

    def loop(self, s, st, it):
        lid = self.loop_ids.get(self.callpath + (id(s),))
        spec = self.contract.loops.get(lid) if lid is not None else None
        if spec is None and it is not None:
            n = self.unrollable(it)
            if n is not None:
                return self.unroll(s, st, it, n)
        if spec is None:
            spec = Loop()
        lname = 'loop%s' % lid
        isfor = it is not None
        tgt = s.target if isfor else None
        tnames = [n.id for n in ast.walk(tgt) if isinstance(n, ast.Name)] if isfor else []
        asg = self.assigned(s.body + ([ast.Expr(s.test)] if not isfor else []))
        ghosts = [g.split('=')[0].strip() for g in spec.ghost]
        asg = [a for a in asg if a not in tnames]
        ctr = '_i%s' % lid

        # ghosts initialised before the loop
        for g in spec.ghost:
            st = self.hint('ghost ' + g, st, lname)
        if isfor:
            st = self.seq_ghost(st, it, lid)
        st = self.hints(spec.pre, st, lname + '/pre')

        # ghosts reassigned anywhere in the loop (its own hints or those of loops nested in it) change with it
        inner = {id(x) for b in s.body for x in ast.walk(b)}
        d = len(self.callpath)
        specs = [spec] + [self.contract.loops[l] for k, l in self.loop_ids.items()
                          if len(k) > d and k[:d] == self.callpath and k[d] in inner and l in self.contract.loops]
        for q in specs:
            for h in list(q.head) + list(q.end) + list(q.brk) + ([] if q is spec else list(q.pre) + list(q.exit) + ['ghost ' + g for g in q.ghost]):
                if h.startswith('ghost '):
                    g = h[6:].split('=')[0].strip()
                    if g in st.env and g not in ghosts and g not in asg:
                        ghosts.append(g)
        havoc_vars = asg + ghosts
        written, types = self.discover(s, st, it, havoc_vars, tnames, ctr, spec, lname)
        # retype entry
        st = self.retype(st, types, written)
        # establish
        st0 = st
        if isfor:
            st0 = self.head_env(st0, it, z3.IntVal(0), tgt, ctr)
        for i, e in enumerate(spec.inv):
            for j, g in enumerate(conjuncts(self.truth(e, st0))):
                self.oblige(st0, g, '%s/inv%d%s/init' % (lname, i, '.%d' % j if j else ''), 'inv')
        # arbitrary iteration
        sth = self.havoc(st, havoc_vars, written, types)
        if isfor:
            k = z3.Int(fresh_name(ctr))
            sth = sth.assume(k >= 0)
            if it.n is not None:
                sth = sth.assume(k <= self.iter_len(it, sth))
            sth = self.head_env(sth, it, k, tgt, ctr)
        for e in spec.inv:
            sth = sth.assume(*conjuncts(self.truth(e, sth)))
        late = []       # hints naming a loop target that is only bound below
        stale = {t: sth.env[t] for t in tnames if isinstance(sth.env.get(t), MaybeUnbound)}
        if stale:
            sth = sth.with_env({x: v for x, v in sth.env.items() if x not in stale})
        sth = self.hints(spec.head, sth, lname + '/head', late)
        if stale:
            sth = sth.with_env({**sth.env, **stale})
        if not self.dry:
            self.covers.append((self.cname + '/' + lname + '/head', sth.pc, 'must', self.contract.uses))
        dec0 = self.dec_terms(spec.dec, sth) if spec.dec else None
        outs = []
        exits = []
        bodies = []
        if isfor:
            if it.n is not None:
                n = self.iter_len(it, sth)
                a, b = self.fork(sth, k < n)
                if getattr(it, 'stream', False) and not self.contract.types.get('stream'):
                    b = None        # an infinite generator is never exhausted
            else:
                a, b = sth, None
            if b is not None:
                exits.append(self.for_exit(b, it, k, tgt, tnames, st, types))
            if a is not None:
                for st1 in self.bind_iter(a, it, k, tgt):
                    bodies.append(self.hints(late, st1, lname + '/head'))
        else:
            for st1, v in self.ev(s.test, sth):
                c = self.truthv(v, st1)
                a, b = self.fork(st1, c)
                if a is not None:
                    bodies.append(self.narrow(s.test, a, True))
                if b is not None:
                    exits.append(self.narrow(s.test, b, False))
        brks = []
        for b in bodies:
            for o in self.block(s.body, b):
                if o.k in ('next', 'cont'):
                    e = o.st
                    if isfor:
                        self.check_iter_stable(e, b, it)
                        e = self.head_env(e, it, simp(k + 1), tgt, ctr)
                    e = self.hints(spec.end, e, lname + '/end')
                    for i, iv_ in enumerate(spec.inv):
                        for j, g in enumerate(conjuncts(self.truth(iv_, e))):
                            self.oblige(e, g, '%s/inv%d%s/preserved' % (lname, i, '.%d' % j if j else ''), 'inv')
                    if dec0 is not None:
                        self.check_dec(dec0, self.dec_terms(spec.dec, e), e, lname)
                elif o.k == 'brk':
                    x = o.st
                    x = self.hints(spec.brk, x, lname + '/brk')
                    brks.append(x)
                else:
                    outs.append(o)
        if not isfor and spec.dec is None and not self.dry:
            self.notes.add('%s/%s: termination not proved' % (self.cname, lname))
        res = []
        for e in exits:
            e = self.hints(spec.exit, e, lname + '/exit')
            if s.orelse:
                res += self.block(s.orelse, e)
            else:
                res.append(Out('next', e))
        res += [Out('next', b) for b in brks]
        return outs + res

    def dec_terms(self, dec, st):
        se = self.spec_at(st)
        v = se.val(dec)
        if isinstance(v, TupV):
            return [se.num(x).t for x in v.items]
        return [se.num(v).t]

    def check_dec(self, d0, d1, st, lname):
        # lexicographic, components bounded below by 0
        g = FALSE
        for i in range(len(d0)):
            g = Or(g, And(*([d0[j] == d1[j] for j in range(i)] + [d0[i] >= 0, d1[i] < d0[i]])))
        self.oblige(st, g, lname + '/decreases', 'dec')

    def unrollable(self, it):
        if it.n is None:
            return None
        n = z3.simplify(it.n) if not callable(it.n) else None
        if n is not None and z3.is_int_value(n) and n.as_long() <= 64:
            return n.as_long()
        return None

    def unroll(self, s, st, it, n):
        outs = []
        cur = [st]
        brks = []
        for k in range(n):
            nxt = []
            for c in cur:
                for st1 in self.bind_iter(c, it, z3.IntVal(k), s.target):
                    for o in self.block(s.body, st1):
                        if o.k in ('next', 'cont'):
                            nxt.append(o.st)
                        elif o.k == 'brk':
                            brks.append(o.st)
                        else:
                            outs.append(o)
            cur = nxt
            if len(cur) > 600:
                raise Unsupported('unrolling too large')
        for c in cur:
            if s.orelse:
                outs += self.block(s.orelse, c)
            else:
                outs.append(Out('next', c))
        return outs + [Out('next', b) for b in brks]

    def iter_len(self, it, st):
        return it.n(st) if callable(it.n) else it.n

    def seq_ghost(self, st, it, lid):
        st = st.assume(*it.facts)
        if it.src is not None:
            st = st.set('_seq%s' % lid, it.src)
        if getattr(it, 'rank', None) is not None:
            st = st.set('_rk%s' % lid, it.rank.v)
        if it.n is not None and not callable(it.n):
            st = st.set('_n%s' % lid, iv(it.n))
        if it.kind == 'range':
            st = st.set('_lo%s' % lid, it.at(st, z3.IntVal(0)))
        return st

    def head_env(self, st, it, k, tgt, ctr):
        st = st.set(ctr, iv(k))
        if it.kind == 'range' and isinstance(tgt, ast.Name):
            # at the loop head the target denotes the next value
            st = st.set(tgt.id, it.at(st, k))
            if not z3.is_int_value(it.step) or it.step.as_long() != 1:
                pass
        return st

    def bind_iter(self, st, it, k, tgt):
        v = it.at(st, k)
        if getattr(it, 'memof', None) is not None:
            st = st.assume(it.memof(k))
        return self.assign(tgt, v, st)

    def for_exit(self, st, it, k, tgt, tnames, st_before, types):
        # after the loop the target holds the last element (if any)
        if it.kind == 'range' and isinstance(tgt, ast.Name):
            last = it.at(st, simp(k - 1))
            ran = k > 0
            before = st_before.env.get(tgt.id)
            e = dict(st.env)
            if isinstance(before, V) and before.ty == T.INT:
                e[tgt.id] = iv(If(ran, last.t, before.t))
            else:
                e[tgt.id] = MaybeUnbound(last, ran)
            return st.with_env(e)
        e = dict(st.env)
        for t in tnames:
            if t in st_before.env:
                e[t] = st_before.env[t] if False else e.get(t)
            e.pop(t, None)
        try:
            last = it.at(st, simp(k - 1))
            st2 = self.assign(tgt, last, st.with_env(e))[0]
            e2 = dict(st2.env)
            for t in tnames:
                e2[t] = MaybeUnbound(e2[t], k > 0)
            return st2.with_env(e2)
        except Unsupported:
            return st.with_env(e)

    def check_iter_stable(self, st, b, it):
        src = getattr(it, 'srcloc', None)
        if src is not None and it.kind in ('set', 'dict'):
            a, c = b.store[src], st.store[src]
            if a is not c and not (isinstance(a, V) and isinstance(c, V) and T.sel(a.ty, 0, a.t).eq(T.sel(c.ty, 0, c.t))):
                self.oblige(st, T.sel(a.ty, 0, a.t) == T.sel(c.ty, 0, c.t), 'no-resize-during-iteration')

    # -- discovery of what a loop changes
    def discover(self, s, st, it, vars, tnames, ctr, spec, lname):
        written = set()
        types = {}
        for v in vars:
            if v in st.env:
                types[v] = self.shape(st.env[v], st)
        celltypes = {}
        frozen = set()
        self.dry += 1
        saved = (self.obls, self.covers, self.notes)
        try:
            for rnd in range(8):
                changed = False
                sth = self.havoc(st, vars, written, {**types, '#cells': celltypes, '#frozen': frozen})
                if it is not None:
                    k = z3.Int(fresh_name(ctr))
                    sth = self.head_env(sth, it, k, s.target, ctr)
                bodies = []
                if it is not None:
                    bodies = self.bind_iter(sth, it, k, s.target)
                else:
                    for st1, v in self.ev(s.test, sth):
                        bodies.append(self.narrow(s.test, st1, True))
                for b in bodies:
                    for h in spec.head:
                        if h.startswith('ghost '):
                            try:
                                b = self.hint(h, b, '')
                            except SpecError:
                                pass
                    for o in self.block(s.body, b):
                        if o.k == 'exc':
                            continue
                        x = o.st
                        if o.k in ('next', 'cont'):
                            for h in spec.end:
                                if h.startswith('ghost '):
                                    try:
                                        x = self.hint(h, x, '')
                                    except SpecError as ex:
                                        if 'unknown name' not in str(ex):
                                            raise
                        for loc, cell in sth.store.items():
                            nc = x.store.get(loc)
                            if nc is not cell and nc is not None:
                                if loc in st.store:
                                    if loc not in written:
                                        written.add(loc)
                                        changed = True
                                    if isinstance(cell, EmptyCell) and isinstance(nc, V):
                                        if celltypes.get(loc) is None:
                                            celltypes[loc] = nc.ty
                                            changed = True
                                    elif isinstance(cell, V) and isinstance(nc, V) and cell.ty != nc.ty:
                                        celltypes[loc] = self.join(cell.ty, nc.ty)
                                        changed = True
                        if o.k in ('next', 'cont'):
                            for v in vars:
                                if v in x.env:
                                    sh = self.shape(x.env[v], x)
                                    if v in types:
                                        j = self.join_shape(types[v], sh)
                                        if j != types[v]:
                                            types[v] = j
                                            changed = True
                                    else:
                                        types[v] = ('maybe', sh)
                                        changed = True
                                elif v in types and types[v][0] != 'maybe':
                                    pass
                            if x.frozen != sth.frozen:
                                nf = {l for l in x.frozen - sth.frozen if l in st.store or l[0] == 'nw' or l[0] in ('sh', 'st') and l[1] in st.store}
                                if nf:
                                    for l in nf:
                                        if l not in frozen:
                                            frozen.add(l)
                                            changed = True
                            # aliasing between loop-carried containers
                            seen = {}
                            for v, val in x.env.items():
                                if isinstance(val, Ref):
                                    if val.loc in seen and (v in vars or seen[val.loc] in vars):
                                        for w in (v, seen[val.loc]):
                                            if w in types and w in vars:
                                                nt = self.freeze_shape(types[w])
                                                if nt != types[w]:
                                                    types[w] = nt
                                                    changed = True
                                    seen[val.loc] = v
                            for v in vars:
                                val = x.env.get(v)
                                if isinstance(val, Ref) and val.loc in x.frozen and v in types:
                                    nt = self.freeze_shape(types[v])
                                    if nt != types[v]:
                                        types[v] = nt
                                        changed = True
                if not changed:
                    break
            else:
                raise Unsupported('loop analysis does not stabilise')
        finally:
            self.dry -= 1
            self.obls, self.covers, self.notes = saved
        types['#cells'] = celltypes
        types['#frozen'] = frozen
        return written, types

    def freeze_shape(self, sh):
        if sh[0] == 'maybe':
            return ('maybe', self.freeze_shape(sh[1]))
        if sh[0] == 'ref':
            return ('fref',) + sh[1:]
        return sh

    def shape(self, v, st):
        if isinstance(v, MaybeUnbound):
            return ('maybe', self.shape(v.val, st))
        if isinstance(v, Ref):
            c = st.store[v.loc]
            if isinstance(c, ObjCell):
                return ('objref', v.loc)
            return ('ref', self.type_of(v, st), getattr(v, 'default', None))
        if isinstance(v, PathRef):
            return ('val', v.ty)
        if isinstance(v, TupV):
            return ('tup', tuple(self.shape(x, st) for x in v.items))
        if isinstance(v, NoneV):
            return ('val', T.NONE)
        if isinstance(v, V):
            return ('val', v.ty)
        if isinstance(v, PartialInf):
            return ('val', T.EXT)
        return ('py', v)

    def join_shape(self, a, b):
        if a == b:
            return a
        if a[0] == 'maybe' or b[0] == 'maybe':
            return ('maybe', self.join_shape(a[1] if a[0] == 'maybe' else a, b[1] if b[0] == 'maybe' else b))
        if a[0] == 'py' and b[0] == 'py' and type(a[1]) is type(b[1]):
            return a
        if a[0] == 'tup' and b[0] == 'tup' and len(a[1]) == len(b[1]):
            return ('tup', tuple(self.join_shape(x, y) for x, y in zip(a[1], b[1])))
        if a[0] in ('ref', 'fref') and b[0] in ('ref', 'fref'):
            k = 'fref' if 'fref' in (a[0], b[0]) else 'ref'
            return (k, self.join(a[1], b[1]), a[2])
        fa, fb = self.flat(a), self.flat(b)
        return ('val', self.join(fa, fb))

    def flat(self, sh):
        if sh[0] == 'tup':
            return ('tuple', tuple(self.flat(x) for x in sh[1]))
        if sh[0] in ('val', 'ref', 'fref'):
            return sh[1]
        raise Unsupported('join of %r' % (sh,))

    def join(self, a, b):
        if a == b:
            return a
        if a == T.NONE:
            return b if b[0] == 'opt' else ('opt', b)
        if b == T.NONE:
            return a if a[0] == 'opt' else ('opt', a)
        if a[0] == 'opt' and b[0] != 'opt':
            return ('opt', self.join(a[1], b))
        if b[0] == 'opt' and a[0] != 'opt':
            return ('opt', self.join(a, b[1]))
        if a[0] == 'opt' and b[0] == 'opt':
            return ('opt', self.join(a[1], b[1]))
        if a == T.UNK:
            return b
        if b == T.UNK:
            return a
        if a[0] in NUM and b[0] in NUM:
            return num_join(a, b)
        if a[0] == b[0] == 'tuple' and len(a[1]) == len(b[1]):
            return ('tuple', tuple(self.join(x, y) for x, y in zip(a[1], b[1])))
        if a[0] == b[0] and a[0] in ('list', 'set', 'dict'):
            return (a[0],) + tuple(self.join(x, y) for x, y in zip(a[1:], b[1:]))
        raise Unsupported('join of types %s and %s' % (a, b))

    def has_unk(self, ty):
        if ty == T.UNK:
            return True
        if ty[0] == 'tuple':
            return any(self.has_unk(x) for x in ty[1])
        return any(self.has_unk(x) for x in ty[1:] if isinstance(x, tuple))

    def of_shape(self, st, sh, hint):
        if sh[0] == 'maybe':
            st, v = self.of_shape(st, sh[1], hint)
            return st, MaybeUnbound(v, fresh('bound_' + hint, T.BOOL))
        if sh[0] == 'tup':
            items = []
            for i, x in enumerate(sh[1]):
                st, v = self.of_shape(st, x, '%s.%d' % (hint, i))
                items.append(v)
            return st, TupV(items)
        if sh[0] in ('ref', 'fref'):
            if self.has_unk(sh[1]):
                st, r = self.alloc(st, EmptyCell(sh[1][0]), hint, sh[2])
            else:
                st, r = self.fresh_val(st, sh[1], hint)
                r.default = sh[2]
            if sh[0] == 'fref':
                st = st.freeze(r.loc)
            return st, r
        if sh[0] == 'val':
            if sh[1] == T.NONE:
                return st, NoneV()
            if T.is_mut(sh[1]):
                # snapshot of an interior container
                st, r = self.fresh_val(st, sh[1], hint)
                st = st.freeze(r.loc)
                return st, r
            v = V(sh[1], fresh(hint, sh[1]))
            return st, self.unpackv(v)
        if sh[0] == 'objref':
            return st, Ref(sh[1])
        return st, sh[1]

    def havoc(self, st, vars, written, types):
        cells = types.get('#cells', {})
        for loc in written:
            st = self.havoc_loc(st, loc, cells.get(loc))
            st = st.bump(loc)
        for loc in types.get('#frozen', ()):
            st = st.freeze(loc)
        env = dict(st.env)
        for v in vars:
            if v in types:
                if types[v][0] == 'objref' and v in env:
                    continue
                st, env[v] = self.of_shape(st, types[v], v)
            else:
                env.pop(v, None)
        return st.with_env(env)

    def havoc_loc(self, st, loc, ty=None):
        c = st.store[loc]
        if isinstance(c, ObjCell):
            spec = CLASSES[c.cls]
            f = {}
            for n, v in c.fields.items():
                # assume only scalar fields or refs that may have been rebound
                if isinstance(v, Ref) and isinstance(st.store[v.loc], ObjCell):
                    f[n] = v
                    continue
                sh = self.shape(v, st)
                st, f[n] = self.of_shape(st, sh, n)
            return st.put(loc, ObjCell(c.cls, f))
        if isinstance(c, EmptyCell):
            if ty is None:
                return st
            t = ty
        else:
            t = ty or c.ty
        st2, r = self.fresh_val(st, t, loc.split('@')[0])
        cell = st2.store[r.loc]
        s = dict(st2.store)
        del s[r.loc]
        s[loc] = cell
        return State(st2.env, s, st2.pc, st2.epoch, st2.frozen)

    def retype(self, st, types, written):
        for loc, ty in types.get('#cells', {}).items():
            c = st.store[loc]
            if isinstance(c, EmptyCell):
                st = st.put(loc, V(ty, empty_term(ty)))
            elif c.ty != ty:
                st = st.put(loc, self.coerce(c, ty, st))
        env = dict(st.env)
        for v, sh in types.items():
            if v.startswith('#') or v not in env:
                continue
            env[v] = self.retype_val(env[v], sh, st)
            if isinstance(env[v], Ref):
                c = st.store[env[v].loc]
                if isinstance(c, EmptyCell) and sh[0] in ('ref', 'fref') and not self.has_unk(sh[1]):
                    st = st.put(env[v].loc, V(sh[1], empty_term(sh[1])))
        return st.with_env(env)

    def retype_val(self, v, sh, st):
        if sh[0] == 'val' and not isinstance(v, MaybeUnbound):
            ty = sh[1]
            if ty == T.NONE or T.is_mut(ty):
                return v
            if isinstance(v, V) and v.ty == ty:
                return v
            if isinstance(v, TupV) and ty[0] == 'tuple':
                return v
            return self.coerce(v, ty, st)
        if sh[0] == 'tup' and isinstance(v, TupV):
            return TupV([self.retype_val(x, y, st) for x, y in zip(v.items, sh[1])])
        return v

    # ------------------------------------------------------------------ expressions
    def truthv(self, v, st):
        if isinstance(v, Ref) and isinstance(st.store[v.loc], EmptyCell):
            return FALSE
        if isinstance(v, StrV):
            return z3.BoolVal(bool(v.s))
        if isinstance(v, (FuncV, LambdaV, BuiltinV, ClassV)):
            return TRUE
        if isinstance(v, Ref) and isinstance(st.store[v.loc], ObjCell):
            return TRUE
        return SpecEval({}, st.store).truthv(v)

    def evs(self, nodes, st):
        res = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in res:
                for s2, v in self.ev(n, s):
                    nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def ev(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, st)

    def e_Constant(self, e, st):
        v = e.value
        if v is None:
            return [(st, NoneV())]
        if isinstance(v, bool):
            return [(st, B(v))]
        if isinstance(v, int):
            return [(st, I(v))]
        if isinstance(v, float):
            return [(st, V(T.REAL, z3.RealVal(repr(v))))]
        if isinstance(v, str):
            return [(st, StrV(v))]
        raise Unsupported('constant')

    def e_JoinedStr(self, e, st):
        return [(st, StrV('?'))]

    def e_Name(self, e, st):
        if e.id in st.env:
            v = st.env[e.id]
            if isinstance(v, MaybeUnbound):
                st = self.oblige(st, v.flag, 'bound[%s]' % e.id)
                v = v.val
                st = st.set(e.id, v)
            return [(st, v)]
        for env in reversed(getattr(self, 'outer_envs', [])):
            pass
        if e.id in getattr(self, 'closure_env', {}):
            return [(st, self.closure_env[e.id])]
        fn = self.frames[-1].fn
        if fn is not None and e.id in source.local_names(fn):
            # local variable read on a path where it was never bound
            self.oblige(st, FALSE, 'bound[%s]' % e.id)
            return []
        return [(st, self.module_name(self.frames[-1].module, e.id))]

    def e_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            raise Unsupported('starred')
        return [(s, TupV(vs)) for s, vs in self.evs(e.elts, st)]

    def e_List(self, e, st):
        out = []
        for s, vs in self.evs(e.elts, st):
            s, r = self.mk_list(s, vs, self.want[1][1] if self.want[0] is e else None)
            out.append((s, r))
        return out

    def mk_list(self, st, vs, ty=None):
        if not vs:
            return self.alloc(st, EmptyCell('list'), 'list')
        want, ty = ty, None
        for v in vs if want is None else ():
            t = self.flat(self.shape(v, st))
            ty = t if ty is None else self.join(ty, t)
        ty = want or ty
        if self.has_unk(ty):
            if all(isinstance(v, Ref) and isinstance(st.store[v.loc], EmptyCell) for v in vs) or True:
                hint = self.contract.types.get('nested')
                if hint is None:
                    raise Unsupported('element type of nested empty list')
                ty = T.parse(hint)
        for v in vs:
            st = self.share(v, st)
        a = z3.K(z3.IntSort(), default_term(ty))
        for i, v in enumerate(vs):
            a = z3.Store(a, z3.IntVal(i), self.coerce(v, ty, st).t)
        lt = ('list', ty)
        return self.alloc(st, V(lt, T.mk(lt, z3.IntVal(len(vs)), a)), 'list')

    def e_Set(self, e, st):
        out = []
        for s, vs in self.evs(e.elts, st):
            ty = None
            for v in vs:
                t = self.flat(self.shape(v, s))
                ty = t if ty is None else self.join(ty, t)
            stt = ('set', ty)
            cell = V(stt, empty_term(stt))
            from .builtins import set_add
            for v in vs:
                cell = set_add(cell, self.coerce(v, ty, s).t)
            s, r = self.alloc(s, cell, 'set')
            out.append((s, r))
        return out

    def e_Dict(self, e, st):
        if not e.keys:
            s, r = self.alloc(st, EmptyCell('dict'), 'dict')
            return [(s, r)]
        out = []
        for s, ks in self.evs(e.keys, st):
            for s2, vs in self.evs(e.values, s):
                kt = vt = None
                for k, v in zip(ks, vs):
                    t = self.flat(self.shape(k, s2))
                    kt = t if kt is None else self.join(kt, t)
                    t = self.flat(self.shape(v, s2))
                    vt = t if vt is None else self.join(vt, t)
                if self.want[0] is e:
                    kt, vt = self.want[1][1:]
                dt = ('dict', kt, vt)
                cell = V(dt, empty_term(dt))
                from .builtins import dict_put
                for k, v in zip(ks, vs):
                    s2 = self.share(v, s2)
                    cell = dict_put(cell, self.coerce(k, kt, s2).t, self.coerce(v, vt, s2).t)
                s2, r = self.alloc(s2, cell, 'dict')
                out.append((s2, r))
        return out

    def e_IfExp(self, e, st):
        out = []
        for st1, v in self.ev(e.test, st):
            c = self.truthv(v, st1)
            a, b = self.fork(st1, c)
            ra = self.ev(e.body, a) if a is not None else []
            rb = self.ev(e.orelse, b) if b is not None else []
            if len(ra) == 1 and len(rb) == 1 and ra[0][0].store is a.store and rb[0][0].store is b.store \
                    and ra[0][0].pc == a.pc and rb[0][0].pc == b.pc:
                try:
                    out.append((st1, SpecEval({}, st1.store).ite(c, ra[0][1], rb[0][1])))
                    continue
                except (SpecError, AttributeError):
                    pass
            out += ra + rb
        return out

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        res = [(st, None)]
        vals = e.values

        def rec(i, s):
            """list of (state, Val)"""
            outs = []
            for s1, v in self.ev(vals[i], s):
                if i == len(vals) - 1:
                    outs.append((s1, v))
                    continue
                c = self.truthv(v, s1)
                cs = z3.simplify(c)
                if z3.is_true(cs) if isand else z3.is_false(cs):
                    outs += rec(i + 1, s1)
                    continue
                if z3.is_false(cs) if isand else z3.is_true(cs):
                    outs.append((s1, v))
                    continue
                s2 = s1.assume(c if isand else Not(c))
                s2 = self.narrow(vals[i], s2, isand)
                r = rec(i + 1, s2)
                isbool = isinstance(v, V) and v.ty == T.BOOL
                if len(r) == 1 and r[0][0].store is s2.store and isbool and isinstance(r[0][1], V) and r[0][1].ty == T.BOOL:
                    # pure: combine without splitting; keep what was learnt under the guard
                    d = r[0][1].t
                    extra = [Imp(c if isand else Not(c), x) for x in r[0][0].pc[len(s2.pc):]]
                    outs.append((s1.assume(*extra), bv(And(c, d) if isand else Or(c, d))))
                elif len(r) == 1 and r[0][0].store is s2.store:
                    try:
                        d = self.truthv(r[0][1], r[0][0])
                        extra = [Imp(c if isand else Not(c), x) for x in r[0][0].pc[len(s2.pc):]]
                        outs.append((s1.assume(*extra), bv(And(c, d) if isand else Or(c, d))))
                        if not self.boolctx(e):
                            outs.pop()
                            raise SpecError('value context')
                    except SpecError:
                        outs += r
                        outs.append((s1.assume(Not(c) if isand else c), v))
                else:
                    outs += r
                    outs.append((s1.assume(Not(c) if isand else c), v))
            return outs
        return rec(0, st)

    def boolctx(self, e):
        return False

    def e_UnaryOp(self, e, st):
        out = []
        for s, v in self.ev(e.operand, st):
            if isinstance(e.op, ast.Not):
                out.append((s, bv(Not(self.truthv(v, s)))))
            elif isinstance(e.op, ast.USub):
                if isinstance(v, PartialInf):
                    raise Unsupported('-inf')
                if isinstance(v, Ref) and isinstance(s.store[v.loc], ObjCell):
                    out += self.call_method(v, '__neg__', [], {}, s, e)
                    continue
                s, v = self.numv(v, s, e)
                ty = T.INT if v.ty == T.BOOL else v.ty
                t = to_num(v, ty)
                out.append((s, I(-t.as_long()) if z3.is_int_value(t) else V(ty, -t)))
            elif isinstance(e.op, ast.UAdd):
                out.append((s, v))
            elif isinstance(e.op, ast.Invert):
                s, v = self.numv(v, s, e)
                out.append((s, iv(-v.t - 1)))
        return out

    def numv(self, v, st, node):
        if isinstance(v, V) and v.ty[0] == 'opt':
            st = self.oblige(st, Not(T.is_none(v.ty, v.t)), 'not-None[%s]' % unparse(node))
            v = V(v.ty[1], T.opt_val(v.ty, v.t))
        if isinstance(v, PartialInf):
            v = V(T.EXT, T.sort(T.EXT).x_inf)
        if isinstance(v, V) and v.ty[0] in NUM:
            return st, v
        raise Unsupported('number expected in %s, got %r' % (unparse(node), v))

    def e_BinOp(self, e, st):
        out = []
        for s1, a in self.ev(e.left, st):
            for s2, b in self.ev(e.right, s1):
                out += self.binop(e.op, a, b, s2, e)
        return out

    def binop(self, op, a, b, st, node):
        o = type(op).__name__
        ta, tb = self.type_of(a, st), self.type_of(b, st)
        # sequences
        if ta[0] in ('list',) or tb[0] in ('list',):
            from .builtins import list_binop
            return list_binop(self, st, o, a, b, node)
        if ta[0] == 'set' and tb[0] == 'set':
            ca, cb = self.content(a, st), self.content(b, st)
            if isinstance(ca, EmptyCell) or isinstance(cb, EmptyCell):
                raise Unsupported('set op on untyped empty set')
            r = set_op(o, ca, cb)
            st = st.assume(*card_facts(T.sel(r.ty, 0, r.t), T.sel(r.ty, 1, r.t), r.ty[1]))
            st, ref = self.alloc(st, r, 'set')
            return [(st, ref)]
        if isinstance(a, TupV) and isinstance(b, TupV) and o == 'Add':
            return [(st, TupV(a.items + b.items))]
        if isinstance(a, TupV) and o == 'Mult':
            k = const_int(b)
            if k is not None:
                return [(st, TupV(a.items * k))]
        if isinstance(a, StrV) or isinstance(b, StrV):
            return [(st, StrV('?'))]
        if ta[0] == 'obj':
            from .builtins import obj_binop
            return obj_binop(self, st, o, a, b, node)
        if isinstance(a, FloatPow) or isinstance(b, FloatPow):
            v, k = (a, b) if isinstance(a, FloatPow) else (b, a)
            c = const_int(k) if isinstance(k, V) else None
            if c is not None and abs(c) <= 64:
                if o == 'Add' and v.d == 1:
                    return [(st, FloatPow(v.t, v.c + c))]
                if o == 'Sub' and v is a and v.d == 1:
                    return [(st, FloatPow(v.t, v.c - c))]
                if o == 'Div' and v is a and v.d == 1 and c > 0:
                    return [(st, FloatPow(v.t, v.c, c))]
            raise Unsupported('float arithmetic')
        st, a = self.numv(a, st, node)
        st, b = self.numv(b, st, node)
        return self.arith(o, a, b, st, node)

    def arith(self, o, a, b, st, node):
        if o == 'Pow':
            if b.ty == T.REAL:
                if a.ty == T.INT and z3.is_rational_value(b.t) and b.t.as_fraction() * 2 == 1:
                    return [(st, FloatPow(a.t))]
                raise Unsupported('float power')
            if a.ty == T.REAL:
                c = const_int(b)
                if c is not None and 0 <= c <= 4:
                    return [(st, spec_arith('Pow', a, b))]
                raise Unsupported('real power')
            x, y = to_num(a, T.INT), to_num(b, T.INT)
            c = const_int(iv(y))
            if c is not None and 0 <= c <= 3:
                return [(st, spec_arith('Pow', iv(x), I(c)))]
            cx = const_int(iv(x))
            if cx is not None and c is not None and 0 <= c and cx ** c < 10 ** 400:
                return [(st, I(cx ** c))]
            st = self.oblige(st, y >= 0, 'nonneg-exponent[%s]' % unparse(node))
            return [(st, iv(theory.FNS['powZ'].z3decl()(x, y)))]
        ty = num_join(a.ty, b.ty)
        if ty == T.EXT:
            return [(st, spec_arith(o, a, b))]
        x, y = to_num(a, ty), to_num(b, ty)
        if o in ('Add', 'Sub', 'Mult'):
            return [(st, spec_arith(o, V(ty, x), V(ty, y)))]
        if o == 'Div':
            x, y = to_num(a, T.REAL), to_num(b, T.REAL)
            st = self.oblige(st, y != 0, 'nonzero-divisor[%s]' % unparse(node))
            return [(st, V(T.REAL, x / y))]
        if ty != T.INT:
            raise Unsupported('%s on reals' % o)
        if o in ('FloorDiv', 'Mod'):
            st = self.oblige(st, y != 0, 'nonzero-divisor[%s]' % unparse(node))
            return [(st, iv(self.pydiv(o, x, y, st)))]
        if o in ('LShift', 'RShift'):
            c = const_int(iv(y))
            if c is None:
                st = self.oblige(st, y >= 0, 'nonneg-shift[%s]' % unparse(node))
                p = theory.FNS['powZ'].z3decl()(z3.IntVal(2), y)
                self.lemma_axiom('powZ_two_pos')
                st = st.assume(p >= 1)
            else:
                p = z3.IntVal(2 ** c)
            return [(st, spec_arith('Mult' if o == 'LShift' else 'FloorDiv', iv(x), iv(p)))]
        if o == 'BitAnd':
            for p, q in ((x, y), (y, x)):
                c = const_int(iv(q))
                if c is not None and c >= 0 and (c & (c + 1)) == 0:
                    return [(st, iv(p % (c + 1)))]
            return [(st, iv(theory.FNS['band'].z3decl()(x, y)))]
        if o == 'BitOr':
            for p, q in ((x, y), (y, x)):
                if const_int(iv(q)) == 1:
                    return [(st, iv(p + (1 - p % 2)))]
            return [(st, iv(theory.FNS['bor'].z3decl()(x, y)))]
        if o == 'BitXor':
            return [(st, iv(theory.FNS['bxor'].z3decl()(x, y)))]
        raise Unsupported('operator %s' % o)

    def lemma_axiom(self, name):
        self.lemmas_used.add(name)

    def pydiv(self, o, x, y, st):
        if z3.is_int_value(y):
            c = y.as_long()
            if c > 0:
                if z3.is_int_value(x):
                    p = x.as_long()
                    return z3.IntVal(p // c if o == 'FloorDiv' else p % c)
                return x / y if o == 'FloorDiv' else x % y
            return (-x) / (-y) if o == 'FloorDiv' else -((-x) % (-y))
        if self.dry or self.proves(st, y > 0):
            return x / y if o == 'FloorDiv' else x % y
        if self.proves(st, y < 0):
            return (-x) / (-y) if o == 'FloorDiv' else -((-x) % (-y))
        if o == 'FloorDiv':
            return z3.If(y > 0, x / y, (-x) / (-y))
        return z3.If(y > 0, x % y, -((-x) % (-y)))

    def e_Compare(self, e, st):
        out = []
        nodes = [e.left] + e.comparators
        if len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn)) and isinstance(e.comparators[0], (ast.Tuple, ast.List, ast.Set)):
            for s, vs in self.evs([e.left] + e.comparators[0].elts, st):
                se = SpecEval({}, s.store)
                c = Or(*[se.cmp_vals('==', self.unopt(vs[0]), y) for y in vs[1:]])
                out.append((s, bv(c if isinstance(e.ops[0], ast.In) else Not(c))))
            return out
        if len(e.ops) > 1:
            # chained comparison with short-circuit
            vals = None
            ns = [ast.Compare(l, [op], [r]) for l, op, r in zip(nodes, e.ops, nodes[1:])]
            return self.e_BoolOp(ast.BoolOp(ast.And(), ns), st)
        for s, vs in self.evs(nodes, st):
            for s2, c in self.compare1(e.ops[0], vs[0], vs[1], s, e):
                out.append((s2, bv(c)))
        return out

    def unopt(self, v):
        return v

    def compare1(self, op, a, b, st, node):
        se = SpecEval({}, st.store)
        for v in (a, b):
            if isinstance(v, PathRef):
                self.check_path(v, st)
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(b, NoneV) or isinstance(a, NoneV):
                x = a if isinstance(b, NoneV) else b
                if isinstance(x, NoneV):
                    c = TRUE
                elif isinstance(x, V) and x.ty[0] == 'opt':
                    if any(x.t.eq(t) for t in self.falsy):
                        raise Unsupported('comparing a False-or-value result with None')
                    c = T.is_none(x.ty, x.t)
                else:
                    c = FALSE
            elif isinstance(a, V) and a.ty[0] == 'opt' and any(a.t.eq(t) for t in self.falsy) and isinstance(b, V) and z3.is_false(b.t):
                c = T.is_none(a.ty, a.t)
            elif isinstance(a, V) and isinstance(b, V) and a.ty == T.BOOL and b.ty == T.BOOL:
                c = a.t == b.t
            else:
                raise Unsupported('is')
            return [(st, c if isinstance(op, ast.Is) else Not(c))]
        if isinstance(op, (ast.In, ast.NotIn)):
            from .builtins import member
            st, c = member(self, st, a, b, node)
            return [(st, c if isinstance(op, ast.In) else Not(c))]
        o = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[type(op)]
        if isinstance(a, Ref) and isinstance(st.store[a.loc], ObjCell) or isinstance(b, Ref) and isinstance(st.store[b.loc], ObjCell):
            x, y = (a, b) if isinstance(a, Ref) and isinstance(st.store[a.loc], ObjCell) else (b, a)
            m = {'==': '__eq__', '!=': '__ne__', '<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}[o]
            if x is not a:
                m = {'__lt__': '__gt__', '__le__': '__ge__', '__gt__': '__lt__', '__ge__': '__le__'}.get(m, m)
            cls = CLASSES.get(st.store[x.loc].cls)
            if cls is not None and any(isinstance(c, ast.FunctionDef) and c.name == m for c in source.find(cls.qual)[1].body):
                rs = self.call_method(x, m, [y], {}, st, node)
                if len(rs) != 1:
                    raise Unsupported('comparison of objects with several outcomes')
                return [(rs[0][0], self.truthv(rs[0][1], rs[0][0]))]
            if isinstance(y, NoneV) and o in ('==', '!='):
                return [(st, FALSE if o == '==' else TRUE)]
            raise Unsupported('comparison of objects')
        if o not in ('==', '!='):
            for v in (a, b):
                if isinstance(v, V) and v.ty[0] == 'opt':
                    st = self.oblige(st, Not(T.is_none(v.ty, v.t)), 'not-None[%s]' % unparse(node))
            a = V(a.ty[1], T.opt_val(a.ty, a.t)) if isinstance(a, V) and a.ty[0] == 'opt' else a
            b = V(b.ty[1], T.opt_val(b.ty, b.t)) if isinstance(b, V) and b.ty[0] == 'opt' else b
            if isinstance(a, NoneV) or isinstance(b, NoneV):
                self.oblige(st, FALSE, 'not-None[%s]' % unparse(node))
                return []
        else:
            ta, tb = self.type_of(a, st), self.type_of(b, st)
            if {ta[0], tb[0]} in ({'list', 'none'}, {'obj', 'none'}):
                return [(st, FALSE if o == '==' else TRUE)]
            if ta[0] in ('list', 'tuple', 'set', 'dict', 'str') and tb[0] in NUM or tb[0] in ('list', 'tuple', 'set', 'dict', 'str') and ta[0] in NUM:
                return [(st, FALSE if o == '==' else TRUE)]
            if self.is_empty(a, st) or self.is_empty(b, st):
                x = b if self.is_empty(a, st) else a
                c = Not(self.truthv(x, st))
                return [(st, c if o == '==' else Not(c))]
        if isinstance(a, FloatPow) or isinstance(b, FloatPow):
            raise Unsupported('float comparison')
        return [(st, se.cmp_vals(o, a, b))]

    def is_empty(self, v, st):
        return isinstance(v, Ref) and isinstance(st.store[v.loc], EmptyCell)

    def e_Subscript(self, e, st):
        out = []
        for s1, b in self.ev(e.value, st):
            if isinstance(e.slice, ast.Slice):
                from .builtins import get_slice
                out += get_slice(self, s1, b, e.slice, e)
                continue
            for s2, i in self.ev(e.slice, s1):
                if isinstance(b, Ref) and isinstance(s2.store[b.loc], ObjCell):
                    out += self.call_method(b, '__getitem__', [i], {}, s2, e)
                    continue
                out += self.subscript(b, i, s2, e)
        return out

    def list_index(self, c, i, st, node):
        """normalised index term; obliges bounds"""
        n = T.l_len(c.ty, c.t)
        k = const_int(i)
        if k is not None:
            if k >= 0:
                st = self.oblige(st, n > k, 'index[%s]' % unparse(node))
                return st, z3.IntVal(k)
            st = self.oblige(st, n >= -k, 'index[%s]' % unparse(node))
            return st, simp(n + k)
        st, i = self.numv(i, st, node)
        t = to_num(i, T.INT)
        if self.dry or self.proves(st, t >= 0):
            st = self.oblige(st, t < n, 'index[%s]' % unparse(node))
            return st, t
        if self.proves(st, t < 0):
            st = self.oblige(st, -n <= t, 'index[%s]' % unparse(node))
            return st, simp(n + t)
        if self.contract.types.get('nonneg_index', True) and False:
            pass
        st = self.oblige(st, And(-n <= t, t < n), 'index[%s]' % unparse(node))
        return st, z3.If(t < 0, t + n, t)

    def subscript(self, b, i, st, node):
        if isinstance(b, TupV):
            k = const_int(i)
            if k is None:
                # dynamic index into a literal tuple/list: make it a list term
                st, r = self.mk_list(st, b.items)
                return self.subscript(r, i, st, node)
            if not -len(b.items) <= k < len(b.items):
                self.oblige(st, FALSE, 'index[%s]' % unparse(node))
                return []
            return [(st, b.items[k])]
        if isinstance(b, IterV):
            raise Unsupported('subscript of an iterator')
        if isinstance(b, V) and b.ty[0] == 'opt':
            st = self.oblige(st, Not(T.is_none(b.ty, b.t)), 'not-None[%s]' % unparse(node))
            b = self.unpackv(V(b.ty[1], T.opt_val(b.ty, b.t)))
            return self.subscript(b, i, st, node)
        ty = self.type_of(b, st)
        if ty[0] == 'obj':
            return self.call_method(b, '__getitem__', [i], {}, st, node)
        c = self.content(b, st)
        if isinstance(c, EmptyCell):
            if c.kind == 'dict' and getattr(b, 'default', None) is not None:
                raise Unsupported('untyped defaultdict')
            self.oblige(st, FALSE, ('index' if c.kind == 'list' else 'key') + '[%s]' % unparse(node))
            return []
        if c.ty[0] == 'list':
            st, t = self.list_index(c, i, st, node)
            return [(st, self.elem_val(b, t, c.ty[1], st))]
        if c.ty[0] == 'dict':
            k = self.coerce(i, c.ty[1], st).t
            dom = T.sel(c.ty, 0, c.t)
            dflt = self.default_of(b, st)
            if dflt is not None:
                # reading a missing key inserts the default
                from .builtins import dict_put
                dv = default_value_term(dflt, c.ty[2])
                nd = V(c.ty, T.mk(c.ty, z3.Store(dom, k, TRUE),
                                  If(sel_arr(dom, k), T.sel(c.ty, 1, c.t), z3.Store(T.sel(c.ty, 1, c.t), k, dv)),
                                  T.sel(c.ty, 2, c.t) + If(sel_arr(dom, k), z3.IntVal(0), z3.IntVal(1))))
                if self.proves(st, sel_arr(dom, k)):
                    return [(st, self.elem_val(b, k, c.ty[2], st))]
                st = self.write(b, nd, st, False)
                return [(st, self.elem_val(b, k, c.ty[2], st))]
            st = self.oblige(st, sel_arr(dom, k), 'key[%s]' % unparse(node))
            return [(st, self.elem_val(b, k, c.ty[2], st))]
        raise Unsupported('subscript of %s' % (c.ty,))

    def default_of(self, b, st):
        return getattr(b, 'default', None)

    def store_sub(self, b, i, v, st, node):
        ty = self.type_of(b, st)
        if ty[0] == 'obj':
            return [s for s, _ in self.call_method(b, '__setitem__', [i, v], {}, st, node)]
        c = self.content(b, st)
        if isinstance(c, EmptyCell):
            if c.kind == 'list':
                self.oblige(st, FALSE, 'index[%s]' % unparse(node))
                return []
            kt, vt = self.flat(self.shape(i, st)), self.flat(self.shape(v, st))
            if self.has_unk(vt):
                h = self.contract.types.get('nested')
                if h is None:
                    raise Unsupported('untyped nested container')
                vt = T.parse(h)
            dt = ('dict', kt, vt)
            c = V(dt, empty_term(dt))
        if c.ty[0] == 'list':
            st, t = self.list_index(c, i, st, node)
            st = self.share(v, st)
            et = c.ty[1]
            c, et = self.widen(c, v, st)
            nv = self.coerce(v, et, st)
            return [self.write(b, V(c.ty, T.mk(c.ty, T.l_len(c.ty, c.t), z3.Store(T.l_arr(c.ty, c.t), t, nv.t))), st, T.is_mut(et))]
        if c.ty[0] == 'dict':
            from .builtins import dict_put
            st = self.share(v, st)
            c, et = self.widen(c, v, st)
            k = self.coerce(i, c.ty[1], st).t
            return [self.write(b, dict_put(c, k, self.coerce(v, et, st).t), st, T.is_mut(et))]
        raise Unsupported('store into %s' % (c.ty,))

    def widen(self, c, v, st):
        """container element type must admit v (e.g. None into a list of ints)"""
        et = c.ty[-1]
        vt = self.flat(self.shape(v, st))
        if self.has_unk(vt):
            return c, et
        j = self.join(et, vt)
        if j == et:
            return c, et
        if c.ty[0] == 'list':
            nt = ('list', j)
            a = T.l_arr(c.ty, c.t)
            na = self.map_arr(a, et, j, st)
            return V(nt, T.mk(nt, T.l_len(c.ty, c.t), na)), j
        nt = ('dict', c.ty[1], j)
        na = self.map_arr(T.sel(c.ty, 1, c.t), et, j, st)
        return V(nt, T.mk(nt, T.sel(c.ty, 0, c.t), na, T.sel(c.ty, 2, c.t))), j

    def map_arr(self, a, et, j, st):
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY:
            return z3.K(a.domain(), self.coerce(V(et, a.arg(0)), j, st).t)
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
            return z3.Store(self.map_arr(a.arg(0), et, j, st), a.arg(1), self.coerce(V(et, a.arg(2)), j, st).t)
        raise Unsupported('element type changes from %s to %s' % (et, j))

    def e_Attribute(self, e, st):
        out = []
        for s, o in self.ev(e.value, st):
            out += self.attr(o, e.attr, s, e)
        return out

    def attr(self, o, name, st, node):
        if isinstance(o, ModV):
            return [(st, self.mod_attr(o, name))]
        if isinstance(o, Ref) and isinstance(st.store[o.loc], ObjCell):
            c = st.store[o.loc]
            if name in c.fields:
                return [(st, c.fields[name])]
            if name == '__class__' and c.cls in CLASSES:
                mod, cnode, _ = source.find(CLASSES[c.cls].qual)
                return [(st, ClassV(cnode, mod, CLASSES[c.cls].qual))]
            # class attributes / methods
            return [(st, MethV(o, name))]
        if isinstance(o, V) and o.ty[0] == 'opt':
            st = self.oblige(st, Not(T.is_none(o.ty, o.t)), 'not-None[%s]' % unparse(node))
            o = self.unpackv(V(o.ty[1], T.opt_val(o.ty, o.t)))
        if isinstance(o, ClassV):
            q = o.qual + '.' + name
            if q in GLOBALS:
                return [(st, self.global_val(q))]
            for c in o.node.body:
                if isinstance(c, ast.FunctionDef) and c.name == name:
                    decs = {d.id for d in c.decorator_list if isinstance(d, ast.Name)}
                    f = FuncV(c, o.module, q, owner=o.node)
                    f.cls = o if 'classmethod' in decs else None
                    return [(st, f)]
            return [(st, MethV(o, name))]
        if isinstance(o, BuiltinV):
            return [(st, BuiltinV(o.name + '.' + name))]
        return [(st, MethV(o, name))]

    def e_Lambda(self, e, st):
        return [(st, LambdaV(e, self.frames[-1].module, dict(st.env)))]

    def e_NamedExpr(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            out.append((s.set(e.target.id, v), v))
        return out

    def e_ListComp(self, e, st):
        from .builtins import comprehension
        return comprehension(self, st, e, 'list')

    def e_SetComp(self, e, st):
        from .builtins import comprehension
        return comprehension(self, st, e, 'set')

    def e_GeneratorExp(self, e, st):
        from .builtins import comprehension
        return comprehension(self, st, e, 'list')

    def e_DictComp(self, e, st):
        from .builtins import comprehension
        return comprehension(self, st, e, 'dict')

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        out = []
        from .builtins import special_call
        r = special_call(self, st, e)
        if r is not None:
            return r
        for s1, f in self.ev(e.func, st):
            args = []
            for a in e.args:
                args.append(a.value if isinstance(a, ast.Starred) else a)
            for s2, vs in self.evs(args, s1):
                pos = []
                for a, v in zip(e.args, vs):
                    if isinstance(a, ast.Starred):
                        if isinstance(v, TupV):
                            pos += v.items
                        else:
                            pos.append(('star', v))
                    else:
                        pos.append(v)
                for s3, kvs in self.evs([k.value for k in e.keywords], s2):
                    kw = {k.arg: v for k, v in zip(e.keywords, kvs)}
                    out += self.call(f, pos, kw, s3, e)
        return out

    def call(self, f, pos, kw, st, node):
        if isinstance(f, BuiltinV):
            from .builtins import call_builtin
            return call_builtin(self, st, f.name, pos, kw, node)
        if isinstance(f, MethV):
            return self.call_method(f.obj, f.name, pos, kw, st, node)
        if isinstance(f, FuncV):
            if getattr(f, 'cls', None) is not None:
                pos = [f.cls] + pos
            return self.call_func(f, pos, kw, st, node)
        if isinstance(f, LambdaV):
            a = [x.arg for x in f.node.args.args]
            env = dict(f.env)
            env.update(zip(a, pos))
            saved = st.env
            out = []
            for s, v in self.ev(f.node.body, st.with_env(env)):
                out.append((s.with_env(saved), v))
            return out
        if isinstance(f, ClassV):
            return self.construct(f, pos, kw, st, node)
        raise Unsupported('call of %r' % f)

    def construct(self, cls, pos, kw, st, node):
        init = None
        for c in cls.node.body:
            if isinstance(c, ast.FunctionDef) and c.name == '__init__':
                init = c
        st, r = self.alloc(st, ObjCell(cls.node.name, {}), cls.node.name)
        if init is None:
            return [(st, r)]
        f = FuncV(init, cls.module, cls.qual + '.__init__', owner=cls.node)
        return [(s, r) for s, _ in self.call_func(f, [r] + pos, kw, st, node)]

    def call_method(self, o, name, pos, kw, st, node):
        if isinstance(o, Ref) and isinstance(st.store[o.loc], ObjCell):
            cls = st.store[o.loc].cls
            spec = CLASSES.get(cls)
            fr = None
            if spec is not None:
                mod, cnode, _ = source.find(spec.qual)
            else:
                raise Unsupported('method of unspecified class %s' % cls)
            names = {name}
            for c in cnode.body:
                if isinstance(c, ast.Assign) and isinstance(c.value, ast.Name) and any(isinstance(t, ast.Name) and t.id == name for t in c.targets):
                    names.add(c.value.id)      # a second name of a method
            for c in cnode.body:
                if isinstance(c, ast.FunctionDef) and c.name in names:
                    f = FuncV(c, mod, spec.qual + '.' + c.name, owner=cnode)
                    static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in c.decorator_list)
                    return self.call_func(f, pos if static else [o] + pos, kw, st, node)
            raise Unsupported('no method %s' % name)
        from .builtins import call_container_method
        return call_container_method(self, st, o, name, pos, kw, node)

    def bind_args(self, fn, pos, kw, st, mod):
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        for n, v in zip(names, pos):
            env[n] = v
        if len(pos) > len(names):
            if a.vararg is None:
                raise Unsupported('too many arguments')
            env[a.vararg.arg] = TupV(pos[len(names):])
        elif a.vararg is not None:
            env[a.vararg.arg] = TupV([])
        if a.kwarg is not None:
            known = names + [y.arg for y in a.kwonlyargs]
            env[a.kwarg.arg] = KwV({k: v for k, v in kw.items() if k not in known})
        for k, v in kw.items():
            if a.kwarg is None or k in known:
                env[k] = v
        nd = len(a.defaults)
        for x, d in list(zip(names[len(names) - nd:], a.defaults)) + [(y.arg, d) for y, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if x not in env:
                r = self.ev(d, st.with_env({}))
                st = r[0][0].with_env(st.env)
                env[x] = r[0][1]
        for n in names:
            if n not in env:
                raise Unsupported('missing argument %s of %s' % (n, fn.name))
        return st, env

    def call_func(self, f, pos, kw, st, node):
        if any(isinstance(p, tuple) for p in pos):
            raise Unsupported('star argument')
        st, env = self.bind_args(f.node, pos, kw, st, f.module)
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        given = set(names[:len(pos)]) | set(kw)
        if a.vararg is not None and len(pos) > len(names):
            given.add(a.vararg.arg)
        flat = env
        if a.kwarg is not None and env[a.kwarg.arg].d:
            given |= set(env[a.kwarg.arg].d)
            flat = {**{k: v for k, v in env.items() if k != a.kwarg.arg}, **env[a.kwarg.arg].d}
        dfl = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        dfl.update({y.arg: d for y, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        given = {g: dfl.get(g) for g in given}
        cons = CONTRACTS.get(f.qual, [])
        if f.qual in self.contract.inline or self.force_inline:
            cons = []
        for con in cons:
            if self.match(con, flat, st, given):
                if con.types.get('alias') == 'inline' or con.ret[0] == 'tuple' and any(t[0] == 'obj' for t in con.ret[1]):
                    break
                return self.call_contract(con, f, flat, st, node)
        if cons and f.node is self.frames[0].fn and not cons[0].types.get('alias') == 'inline':
            raise Unsupported('recursive call does not match the contract')
        if any(fr.fn is f.node for fr in self.frames):
            raise Unsupported('recursion without contract: %s' % f.qual)
        return self.inline(f, env, st, node)

    def match(self, con, env, st, given):
        for p, ty, d in con.params:
            if p.startswith('_'):
                continue
            if p not in env:
                return False
            v = env[p]
            if d is not None and ty != T.NONE and d != 'None':
                c = const_int(v) if isinstance(v, V) and v.ty == T.INT else None
                if isinstance(v, V) and v.ty == T.BOOL:
                    if not (z3.is_true(v.t) and d == 'True' or z3.is_false(v.t) and d == 'False'):
                        return False
                elif isinstance(v, StrV):
                    if v.s != ast.literal_eval(d):
                        return False
                elif c is None or str(c) != d:
                    return False
                continue
            if d == 'None' or ty == T.NONE:
                if not isinstance(v, NoneV):
                    return False
                continue
            vt = self.type_of(v, st)
            if ty[0] == 'obj':
                if vt[0] != 'obj' or vt[1] != CLASSES[ty[1]].name:
                    return False
                continue
            try:
                SpecEval({}, st.store).coerce(v, ty)
            except SpecError:
                return False
        for p in given:
            if p in ('self', 'cls') or p in [q for q, _, _ in con.params]:
                continue
            # a parameter the contract does not mention was given: it must be its default value
            v, d = env.get(p), given[p]
            if not isinstance(d, ast.Constant) or v is None:
                return False
            if d.value is None:
                if not isinstance(v, NoneV):
                    return False
            elif isinstance(d.value, bool):
                if not (isinstance(v, V) and v.ty == T.BOOL and (z3.is_true(v.t) if d.value else z3.is_false(v.t))):
                    return False
            elif isinstance(d.value, int):
                if not (isinstance(v, V) and v.ty == T.INT and const_int(v) == d.value):
                    return False
            elif isinstance(d.value, str):
                if not (isinstance(v, StrV) and v.s == d.value):
                    return False
            else:
                return False
        return True

    def call_contract(self, con, f, env, st, node):
        self.called.add(con.name)
        e0 = {}
        for p, ty, d in con.params:
            if p.startswith('_'):
                continue
            v = env[p]
            if d is None and ty[0] not in ('obj', 'none') and not T.is_mut(ty):
                v = self.coerce(v, ty, st)
            elif T.is_mut(ty) and self.is_empty(v, st):
                if p in con.modifies:
                    st = st.put(v.loc, V(ty, empty_term(ty)))
                else:
                    v = V(ty, empty_term(ty))
            elif T.is_mut(ty) and ty[0] != 'obj' and not isinstance(v, (Ref, PathRef)):
                v = self.coerce(v, ty, st)
            e0[p] = v
        tag = 'call-%s[%s]' % (con.name.split(':')[-1], unparse(node))
        # implicit ghost parameters of the contract: existentially chosen by the caller's spec
        for p, ty, d in con.params:
            if p.startswith('_'):
                e0[p] = self.spec_at(st).val(d) if d else V(ty, fresh(p, ty))
        pre = SpecEval(dict(e0), st.store, None, self)
        pre.old = pre
        for i, r in enumerate(con.requires):
            g = pre.truth(r)
            for gg in conjuncts(g):
                st = self.oblige(st, gg, tag + '/requires%d' % i, 'pre')
        # recursion: termination measure
        if con is self.contract and con.dec is not None:
            d0 = self.old_se.num(self.old_se.val(con.dec)).t
            d1 = pre.num(pre.val(con.dec)).t
            st = self.oblige(st, And(d1 >= 0, d1 < d0), tag + '/decreases', 'dec')
        for exc, cond in con.raises:
            if cond == '*':
                self.exc[-1].append((st, exc))
                continue
            c = pre.truth(cond)
            a, b = self.fork(st, c)
            if a is not None:
                self.exc[-1].append((a, exc))
            if b is None:
                return []
            st = b
        st1 = st
        for m in con.modifies:
            if '.' in m:
                p, fl = m.split('.')
                o = e0[p]
                c = st1.store[o.loc]
                fv = c.fields[fl]
                if isinstance(fv, Ref):
                    st1 = self.havoc_loc(st1, fv.loc).bump(fv.loc)
                else:
                    fty = CLASSES[c.cls].fields[fl]
                    st1, nv = self.fresh_val(st1, fty, fl)
                    st1 = st1.put(o.loc, ObjCell(c.cls, {**c.fields, fl: nv}))
            else:
                v = e0[m]
                if isinstance(v, Ref) and isinstance(st1.store[v.loc], ObjCell):
                    cell = st1.store[v.loc]
                    spec = CLASSES[cell.cls]
                    fields = {}
                    for fl, fty in spec.fields.items():
                        st1, fields[fl] = self.fresh_val(st1, fty, fl)
                        if isinstance(fields[fl], Ref):
                            fields[fl].default = spec_default(fty)
                    st1 = st1.put(v.loc, ObjCell(cell.cls, fields))
                elif isinstance(v, Ref):
                    if v.loc in st1.frozen:
                        raise Unsupported('callee mutates a shared container')
                    st1 = self.havoc_loc(st1, v.loc).bump(v.loc)
                elif isinstance(v, PathRef):
                    st1, nv = self.fresh_val(st1, v.ty, m)
                    st1 = self.write(v, st1.store[nv.loc], st1)
                else:
                    raise Unsupported('modifies a temporary')
        st1, res = self.fresh_val(st1, con.ret, f.node.name)
        if con.types.get('alias') or con.types.get('retains'):
            # the result may share what the arguments own: neither side is written to from now on
            for v in list(e0.values()) + [res]:
                if isinstance(v, Ref) and not isinstance(st1.store[v.loc], ObjCell):
                    st1 = st1.freeze(v.loc)
                    if isinstance(st1.store[v.loc], V):
                        for t in st1.store[v.loc].ty[1:]:
                            if isinstance(t, tuple) and T.is_mut(t):
                                st1 = st1.freeze(('nw', t))
                elif isinstance(v, Ref) and con.types.get('alias'):
                    for y in st1.store[v.loc].fields.values():
                        if isinstance(y, Ref):
                            st1 = st1.freeze(y.loc)
        post = SpecEval({**e0, 'result': res}, st1.store, SpecEval(dict(e0), st.store, None, self), self)
        post.old.old = post.old
        for e in con.ensures:
            st1 = st1.assume(*conjuncts(post.truth(e)))
        res = self.unpackv(res) if isinstance(res, V) else res
        if con.types.get('false') == 'none':
            self.falsy.append(res.t)
        if con.types.get('stream'):
            # the values an infinite generator has produced when the consumer stops: a list of arbitrary length
            self.streams.add(res.loc)
        return [(st1, res)]

    def inline(self, f, env, st, node):
        if self.depth > 6:
            raise Unsupported('inlining too deep')
        if source.is_generator(f.node):
            return self.inline_generator(f, env, st, node)
        self.inlined.add(f.qual)
        saved_env = st.env
        saved_closure = getattr(self, 'closure_env', {})
        self.closure_env = {**saved_closure, **saved_env} if f.closure else {}
        self.frames.append(Frame(f.node, f.module, f.owner))
        saved_path = self.callpath
        self.callpath = self.callpath + (id(node),)
        if not hasattr(self, 'outer_envs'):
            self.outer_envs = []
        self.outer_envs.append(saved_env)
        self.depth += 1
        # carry ghosts
        genv = dict(env)
        for k, v in saved_env.items():
            if k.startswith('_') and k not in genv:
                genv[k] = v
        out = []
        try:
            for o in self.block(f.node.body, st.with_env(genv)):
                ne = dict(saved_env)
                for k, v in o.st.env.items():
                    if k.startswith('_') and k in saved_env:
                        ne[k] = v
                s2 = o.st.with_env(ne)
                if o.k == 'ret':
                    out.append((s2, o.v))
                elif o.k == 'next':
                    out.append((s2, NoneV()))
                elif o.k == 'exc':
                    self.exc[-1].append((s2, o.v))
                else:
                    raise Unsupported('stray %s' % o.k)
        finally:
            self.depth -= 1
            self.outer_envs.pop()
            self.callpath = saved_path
            self.frames.pop()
            self.closure_env = saved_closure
        return out

    def inline_generator(self, f, env, st, node):
        raise Unsupported('generator %s has no contract' % f.qual)

    def concat(self, st, a, b):
        """list cells a + b -> (st, cell)"""
        ty = a.ty
        na, nb = T.l_len(ty, a.t), T.l_len(b.ty, b.t)
        if b.ty != ty:
            b = self.coerce(b, ty, st)
        ka = z3.simplify(nb)
        if z3.is_int_value(ka) and ka.as_long() <= 8:
            arr = T.l_arr(ty, a.t)
            for i in range(ka.as_long()):
                arr = z3.Store(arr, simp(na + i), sel_arr(T.l_arr(ty, b.t), z3.IntVal(i)))
            return st, V(ty, T.mk(ty, simp(na + ka.as_long()), arr))
        arr = fresh('cat', ('arr', ty[1]))
        A, Bq = T.l_arr(ty, a.t), T.l_arr(ty, b.t)
        i = z3.Int(fresh_name('i'))
        st = st.assume(z3.ForAll([i], Imp(And(0 <= i, i < na), z3.Select(arr, i) == sel_arr(A, i)), patterns=[z3.Select(arr, i)]),
                       z3.ForAll([i], Imp(And(0 <= i, i < nb), z3.Select(arr, na + i) == sel_arr(Bq, i)), patterns=[sel_arr(Bq, i)] if not is_lam(Bq) and has_var(sel_arr(Bq, i), i) else []),
                       z3.ForAll([i], Imp(And(na <= i, i < na + nb), z3.Select(arr, i) == z3.Select(Bq, i - na)), patterns=[z3.Select(arr, i)]))
        return st, V(ty, T.mk(ty, simp(na + nb), arr))


def has_var(t, v):
    if t.eq(v):
        return True
    return any(has_var(c, v) for c in t.children())


_qc = {}


def has_quant(c):
    k = c.get_id()
    if k in _qc:
        return _qc[k][0]
    r = z3.is_quantifier(c) or any(has_quant(x) for x in c.children())
    _qc[k] = (r, c)
    return r


def conjuncts(g):
    if z3.is_and(g):
        out = []
        for c in g.children():
            out += conjuncts(c)
        return out
    return [g]


def simp(t):
    return z3.simplify(t) if z3.is_int(t) and not has_quant(t) and small(t) else t


def small(t, n=[0]):
    return True


def card_facts(m, n, kt):
    x = z3.Const(fresh_name('x'), T.sort(kt))
    return [n >= 0, (n == 0) == (m == z3.K(T.sort(kt), FALSE)),
            z3.ForAll([x], Imp(z3.Select(m, x), n > 0), patterns=[z3.Select(m, x)])]


def spec_default(ty):
    return None


def default_value_term(d, ty):
    if d == 'int':
        return to_num(I(0), ty)
    if d in ('list', 'dict', 'set'):
        return empty_term(ty)
    if isinstance(d, V):
        return d.t
    raise Unsupported('default %r' % (d,))


def pyconst(x):
    if isinstance(x, bool):
        return B(x)
    if isinstance(x, int):
        return I(x)
    if isinstance(x, (tuple, list)):
        return TupV([pyconst(y) for y in x])
    if x is None:
        return NoneV()
    if isinstance(x, str):
        return StrV(x)
    raise ValueError


EXCEPTIONS = {'ValueError', 'TypeError', 'KeyError', 'IndexError', 'Exception', 'StopIteration', 'AssertionError',
              'NotImplementedError', 'ZeroDivisionError', 'OverflowError', 'RuntimeError', 'AttributeError'}
SUBEXC = {'Exception': EXCEPTIONS, 'LookupError': {'KeyError', 'IndexError'}}
