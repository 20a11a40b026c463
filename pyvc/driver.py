"""Verify contracts: generate obligations from /repo's source, check lemmas with Lean, discharge with SMT."""
import importlib
import json
import os
import pkgutil
import shutil
import sys
import tempfile
import time
import traceback
from . import contract, source, theory, solve, lean
from .engine import Engine
from .values import Unsupported
from .spec import SpecError

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_all():
    sys.path.insert(0, ROOT)
    for pkg in ('theory', 'contracts'):
        d = os.path.join(ROOT, pkg)
        names = sorted(f[:-3] for f in os.listdir(d) if f.endswith('.py') and not f.startswith('__'))
        for n in names:
            importlib.import_module(pkg + '.' + n)


BASE = os.path.join(ROOT, 'contracts', 'baseline.json')


def baseline():
    try:
        with open(BASE) as f:
            return json.load(f)
    except FileNotFoundError:
        return {}


def all_contracts():
    return [c for l in contract.CONTRACTS.values() for c in l]


def by_name(n):
    for c in all_contracts():
        if c.name == n:
            return c
    raise KeyError(n)


def alignments(con):
    """candidate maps contract-name -> current name for renamed locals"""
    base = baseline().get(con.qual)
    if base is None:
        return [{}]
    _, fn, _ = source.find(con.qual)
    cur = source.local_names(fn)
    missing = [b for b in base if b not in cur]
    extra = [c for c in cur if c not in base]
    if not missing or not extra:
        return [{}]
    out = []
    out.append(dict(zip(missing, extra)))
    if len(extra) > len(missing):
        for k in range(1, len(extra) - len(missing) + 1):
            out.append(dict(zip(missing, extra[k:])))
    return out[:4]


class FnReport:
    def __init__(self, con):
        self.con = con
        self.error = None
        self.engine = None
        self.results = []

    @property
    def ok(self):
        return self.error is None and all(r.status == 'proved' for r in self.results)


def generate(con):
    """-> FnReport with engine (obligations) or error"""
    rep = FnReport(con)
    for l in con.uses:
        if l not in theory.LEMMAS:
            rep.error = 'contract uses unknown lemma %s' % l
            return rep
    errs = []
    for ren in alignments(con):
        e = Engine()
        try:
            e.verify(con, dict(ren))
            if not e.obls and not e.trivial:
                raise Unsupported('zero obligations generated')
            rep.engine = e
            return rep
        except (Unsupported, SpecError, KeyError, AssertionError, AttributeError, TypeError, ValueError, IndexError, RecursionError) as x:
            if os.environ.get('PYVC_TRACE'):
                traceback.print_exc()
            errs.append('%s: %s' % (type(x).__name__, x))
        except Exception as x:          # z3 exceptions
            if os.environ.get('PYVC_TRACE'):
                traceback.print_exc()
            errs.append('%s: %s' % (type(x).__name__, x))
    rep.error = 'obligations cannot be generated: ' + ' | '.join(errs)
    return rep


def closure(names):
    """contracts needed: the named ones plus every contract they call"""
    reports = {}
    todo = list(names)
    while todo:
        n = todo.pop(0)
        if n in reports:
            continue
        c = by_name(n)
        if c.trusted:
            r = FnReport(c)
            reports[n] = r
            continue
        r = generate(c)
        reports[n] = r
        if r.engine:
            todo += sorted(r.engine.called)
    return reports


def verify(names, scale=1.0, deadline=None, verbose=False, cover=True, with_lean=True, follow=True):
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='pyvc-')
    try:
        if follow:
            reps = closure(names)
        else:
            reps = {n: generate(by_name(n)) for n in names}
        lemmas = set()
        for r in reps.values():
            lemmas |= set(r.con.uses)
            if r.engine:
                lemmas |= r.engine.lemmas_used
        tlem = {l for l in lemmas if theory.LEMMAS[l].trusted}
        lemmas -= tlem
        globs = set()
        for r in reps.values():
            if r.engine:
                globs |= r.engine.globals_used
        import threading
        lres = {}

        ltext = theory.lean_file(sorted(lemmas)) if with_lean and lemmas else None

        def leanjob():
            lres['r'] = lean.check(lemmas, work, text=ltext) if with_lean else (True, set(), 'skipped', 0)
        th = threading.Thread(target=leanjob)
        th.start()
        obls = []
        owner = []
        cache = {}

        def axs(ob):
            r = ob if not isinstance(ob, tuple) else None
            key = ob.ctx if r is not None else ob[0].split('/')[0]
            if key not in cache:
                rp = reps[key]
                ax = set(rp.con.uses) | {l for l in ('powZ_two_pos',) if l in rp.engine.lemmas_used}
                cache[key] = solve.axioms(ax, rp.engine.globals_used)
            return cache[key]
        covers = []
        for n, r in reps.items():
            if r.engine:
                for o in r.engine.obls:
                    obls.append(o)
                    owner.append(r)
                covers += r.engine.covers
        t1 = time.time()
        prog = (lambda s: print('   ', s, '%.1fs' % (time.time() - t0), flush=True)) if verbose else None
        results = solve.discharge(obls, axs, scale, work, deadline, progress=prog)
        for r, o in zip(results, owner):
            r.eng = o.engine
            o.results.append(r)
        bad, ncov = ([], 0)
        if cover:
            bad, ncov = solve.check_covers(covers, axs, work)
            for b in bad:
                n = b.split('/')[0]
                if n in reps:
                    reps[n].error = 'vacuous context ' + b
        th.join()
        return dict(reports=reps, lemmas=lemmas, trusted_lemmas=tlem, lean=lres['r'], globals=globs, covers=ncov, vacuous=bad,
                    time=time.time() - t0, gen_time=t1 - t0)
    finally:
        if not os.environ.get('PYVC_KEEP'):
            shutil.rmtree(work, ignore_errors=True)
        else:
            print('work', work)


TRUSTED_BASE = [
    'pyvc (the VC generator in /verif/pyvc: symbolic executor and its models of Python builtins/containers)',
    'SMT solvers z3 5.3.2, z3 4.8.12, cvc5 1.1.2 (an obligation counts when one of them answers unsat)',
    'Lean 4.33 kernel + Mathlib (lemma library; only propext, Classical.choice, Quot.sound allowed)',
    'DSL translation of lemma statements to Lean and to SMT (pyvc/theory.py)',
]
ASSUMPTIONS = [
    'Python ints are mathematical integers (exact in CPython); no machine arithmetic is modelled',
    'arguments have the contract types; distinct container arguments do not alias unless the contract says so',
    'library models are trusted: list/dict/set methods, sorted, bisect, heapq, min/max/sum/abs/pow/divmod, slices',
    'memory exhaustion and the recursion limit are not modelled',
]


def check_globals(globs, py, repo):
    """the real module constants a contract relies on are compared with the assumed facts by computation"""
    import subprocess
    bad = []
    for q in sorted(globs):
        g = contract.GLOBALS[q]
        mod, name = q.split(':')
        top, _, rest = name.partition('.')
        code = 'import sys; sys.path.insert(0, %r)\nfrom %s import %s as self\n%s%s\nsys.exit(0 if ok else 1)' % (
            repo, mod, top, 'self = self.%s\n' % rest if rest else '', g.check)
        r = subprocess.run([py, '-B', '-c', code], capture_output=True, text=True)
        if r.returncode:
            bad.append('constant ' + q)
    return bad


def models(failed, targets):
    """entry values from solver models of failed obligations, as argument tuples for the executable contracts"""
    import z3
    from . import types as T
    from .values import V, Ref, Not, NoneV, TupV
    out = {}
    for name, why, rs in failed[:30]:
        for r in rs:
            con = by_name(r.ob.ctx) if not hasattr(r, 'engine') else None
            base = con.qual.replace('rosemary.', '').replace('number_theory.', '')
            if base not in targets:
                continue
            eng = getattr(r, 'eng', None)
            if eng is None:
                continue
            hyps = list(r.ob.hyps) + [Not(r.ob.goal)]
            ps = [p for p, _, _ in con.params if not p.startswith('_')]
            try:
                vals = [eng.entry_env.get(eng.rename.get(p, p), eng.entry_env.get(p)) for p in ps]
            except Exception:
                continue
            ints = [v.t for v in vals if isinstance(v, V) and v.ty == T.INT]
            lens = [T.l_len(eng.old_se.store[v.loc].ty, eng.old_se.store[v.loc].t) for v in vals
                    if isinstance(v, Ref) and isinstance(eng.old_se.store[v.loc], V) and eng.old_se.store[v.loc].ty[0] == 'list']
            steer = [[]]
            for i in range(len(ints)):
                steer += [[ints[i] > 1], [ints[i] % 2 == 1, ints[i] > 1]]
                for j in range(len(ints)):
                    if i != j:
                        steer += [[ints[i] > ints[j], ints[j] > 0], [ints[i] > 2 * ints[j], ints[j] > 1]]
            for n in lens:
                steer += [[n == k] for k in (1, 2, 3)]
            t0 = time.time()
            for neg in (True, False):
                for st in steer:
                    for bound in (20, 1000, None):
                        if time.time() - t0 > 15 or len(out.get(base, ())) > 60:
                            break
                        s = z3.Solver()
                        s.set('timeout', 600)
                        for h in hyps if neg else hyps[:-1]:
                            if not z3.is_quantifier(h):
                                s.add(h)
                        s.add(*st)
                        if bound:
                            for t in ints:
                                s.add(t <= bound, t >= -bound)
                        for n in lens:
                            s.add(n <= 6)
                        if s.check() == z3.unsat:
                            continue
                        try:
                            m = s.model()
                            args = [repr(concrete(v, m, eng)) for v in vals]
                            if args not in out.setdefault(base, []):
                                out[base].append(args)
                        except Exception:
                            continue
    return out


def concrete(v, m, eng):
    import z3
    from . import types as T
    from .values import V, Ref, NoneV, TupV
    if isinstance(v, NoneV):
        return None
    if isinstance(v, TupV):
        return tuple(concrete(x, m, eng) for x in v.items)
    if isinstance(v, Ref):
        v = eng.old_se.store[v.loc]
    return conc(v.t, v.ty, m)


def conc(t, ty, m):
    import z3
    from . import types as T
    if ty == T.INT:
        return m.eval(t, model_completion=True).as_long()
    if ty == T.BOOL:
        return z3.is_true(m.eval(t, model_completion=True))
    if ty[0] == 'list':
        n = conc(T.l_len(ty, t), T.INT, m)
        if not 0 <= n <= 40:
            raise ValueError('length')
        return [conc(z3.Select(T.l_arr(ty, t), i), ty[1], m) for i in range(n)]
    raise ValueError('no concrete value for %r' % (ty,))


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('names', nargs='*')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--nolean', action='store_true')
    ap.add_argument('--nofollow', action='store_true')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--baseline', action='store_true')
    a = ap.parse_args()
    load_all()
    if a.baseline:
        b = {}
        for q in contract.CONTRACTS:
            try:
                b[q] = source.local_names(source.find(q)[1])
            except KeyError:
                pass
        with open(BASE, 'w') as f:
            json.dump(b, f, indent=0, sort_keys=True)
        return
    if a.list:
        for c in all_contracts():
            print(c.name)
        return
    names = []
    for n in a.names:
        m = [c.name for c in all_contracts() if c.name == n or (n.endswith('*') and c.name.startswith(n[:-1]))]
        names += m or [n]
    res = verify(names, a.scale, verbose=a.v, with_lean=not a.nolean, follow=not a.nofollow)
    ok, good, log, secs = res['lean']
    print('lean: ok=%s %d lemmas %.1fs %s' % (ok, len(good), secs, log))
    for n, r in res['reports'].items():
        if r.con.trusted:
            print('%-50s TRUSTED' % n)
            continue
        if r.error:
            print('%-50s ERROR %s' % (n, r.error))
        st = [x.status for x in r.results]
        if r.engine:
            print('%-50s %d obligations, %d proved, %d trivial; called=%s inlined=%s' % (
                n, len(st), st.count('proved'), r.engine.trivial, sorted(r.engine.called), sorted(r.engine.inlined)))
        for x in r.results:
            if x.status != 'proved':
                print('     %s %s  %s' % (x.status, x.ob.name, '; '.join(x.log)))
                if a.v and os.environ.get('PYVC_SHOW'):
                    for h in x.ob.hyps:
                        print('          H', str(h)[:400].replace('\n', ' '))
                    print('          G', str(x.ob.goal)[:800])
            elif a.v and x.time > 5:
                print('     slow %s %.1fs %s' % (x.ob.name, x.time, x.backend))
    print('total %.1fs gen %.1fs vacuous=%s' % (res['time'], res['gen_time'], res['vacuous']))


if __name__ == '__main__':
    main()
