"""Discharging obligations with a portfolio of SMT solvers (separate processes)."""
import os
import subprocess
import shutil
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor
import z3
from . import theory
from .contract import GLOBALS
from .values import Not

NPROC = int(os.environ.get('PYVC_JOBS', '8'))

CONFIGS = {
    'z3-new': lambda t: ['z3-new', '-smt2', '-T:%d' % t, 'smt.random_seed=0'],
    'z3-new-ematch': lambda t: ['z3-new', '-smt2', '-T:%d' % t, 'auto_config=false', 'smt.mbqi=false'],
    'z3-new-old': lambda t: ['z3-new', '-smt2', '-T:%d' % t, 'auto_config=false', 'smt.mbqi=false', 'smt.arith.solver=2'],
    'z3-4.8': lambda t: ['z3', '-smt2', '-T:%d' % t, 'auto_config=false', 'smt.mbqi=false'],
    'cvc5': lambda t: ['cvc5', '--tlimit=%d' % (t * 1000), '--lang=smt2'],
    'cvc5-nl': lambda t: ['cvc5', '--tlimit=%d' % (t * 1000), '--lang=smt2', '--nl-ext-tplanes', '--nl-cov'],
}

SCHED = [[('z3-new-ematch', 3)],
         [('slice:z3-new-ematch', 3), ('cvc5', 3), ('z3-new', 4), ('z3-4.8', 3)],
         [('slice:z3-new-ematch', 10), ('z3-new', 8), ('cvc5', 8), ('z3-4.8', 8)],
         [('z3-new-old', 20), ('z3-new', 30), ('cvc5', 30), ('z3-new-ematch', 30)]]


if os.environ.get('PYVC_FAST'):       # development only
    SCHED = SCHED[:int(os.environ['PYVC_FAST'])]


def axioms(lemmas, globs):
    out = []
    for l in sorted(lemmas):
        out.append(theory.smt_lemma(theory.LEMMAS[l]))
    for g in sorted(globs):
        out += global_axioms(g)
    return out


_gcache = {}


def global_axioms(q):
    if q in _gcache:
        return _gcache[q]
    from .spec import SpecEval
    from .values import V
    from . import types as T
    g = GLOBALS[q]
    n = 'G_' + q.split(':')[1]
    if g.ty[0] == 'list':
        v = V(g.ty, T.mk(g.ty, z3.Int(n + '.len'), z3.Const(n + '.arr', T.sort(('arr', g.ty[1])))))
    else:
        v = V(g.ty, z3.Const(n, T.sort(g.ty)))
    se = SpecEval({'self': v, 'PRIMES': v})
    _gcache[q] = [se.truth(f) for f in g.facts]
    return _gcache[q]


def smt2(hyps, goal, axs):
    s = z3.Solver()
    for a in axs:
        s.add(a)
    for h in hyps:
        s.add(h)
    if goal is not None:
        s.add(Not(goal))
    return s.to_smt2()


def run_one(cfg, t, path):
    t0 = time.time()
    try:
        r = subprocess.run(CONFIGS[cfg](t) + [path], capture_output=True, text=True, timeout=t + 10)
        o = (r.stdout or '').strip()
        first = o.split('\n')[0] if o else 'timeout' if 'set-logic' in (r.stderr or '') else (r.stderr or '').strip()[:100]
    except subprocess.TimeoutExpired:
        first = 'timeout'
    return first, time.time() - t0


_symcache = {}


def symbols(t):
    """uninterpreted symbols of a formula, and whether it has quantifiers"""
    k = t.get_id()
    if k in _symcache:
        return _symcache[k][1]
    out, quant, seen, todo = set(), False, set(), [t]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            quant = True
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo += x.children()
    _symcache[k] = (t, (frozenset(out), quant))
    return _symcache[k][1]


def relevant(fs, goal, tol=2.0, depth=8):
    """the formulas related to the goal by rare symbols (dropping hypotheses weakens the context: sound for unsat)"""
    syms = [symbols(f) for f in fs]
    occ = {}
    for s, _ in syms:
        for x in s:
            occ[x] = occ.get(x, 0) + 1
    have = set(symbols(goal)[0])
    sel = set()
    for _ in range(depth):
        new = set()
        for i, (s, _) in enumerate(syms):
            if i in sel or not s:
                continue
            lim = tol * min(occ[x] for x in s)
            if any(x in have and occ[x] <= lim for x in s):
                sel.add(i)
                new |= s
        if new <= have:
            break
        have |= new
    return [f for i, f in enumerate(fs) if i in sel or not syms[i][1]]


class Result:
    def __init__(self, ob):
        self.ob = ob
        self.status = 'unknown'
        self.backend = None
        self.time = 0.0
        self.log = []


def discharge(obls, axioms_of, scale=1.0, workdir=None, deadline=None, sched=None, progress=None):
    """obls: list of Obligation; axioms_of(ob) -> list of formulas.  Returns list of Result."""
    tmp = workdir or tempfile.mkdtemp(prefix='pyvc')
    results = []
    texts = {}
    jobs = []
    for i, ob in enumerate(obls):
        r = Result(ob)
        results.append(r)
        txt = smt2(ob.hyps, ob.goal, axioms_of(ob))
        key = txt
        if key in texts:
            texts[key].append(r)
            continue
        texts[key] = [r]
        p = os.path.join(tmp, 'o%d.smt2' % i)
        with open(p, 'w') as f:
            f.write(txt)
        r.path = p
        jobs.append((r, p, key))

    def work(job, stage):
        r, p, key = job
        if deadline and time.time() > deadline:
            r.log.append('deadline')
            return
        for cfg, t in stage:
            t = max(1, int(t * scale))
            sl = cfg.startswith('slice:')
            if sl and not os.path.exists(p + '.s'):
                continue
            if deadline:
                t = min(t, max(1, int(deadline - time.time())))
            out, dt = run_one(cfg[6:] if sl else cfg, t, p + '.s' if sl else p)
            r.time += dt
            r.log.append('%s(%.1fs): %s' % (cfg, dt, out))
            if out == 'unsat':
                r.status, r.backend = 'proved', cfg
                return
            if out == 'sat' and not sl:
                r.status = 'refuted'
                r.backend = cfg
                return

    pending = jobs
    for si, stage in enumerate(sched or SCHED):
        if not pending:
            break
        if si == 1:      # the z3 API is used from this thread only
            for r, p, key in pending:
                fs = list(axioms_of(r.ob)) + list(r.ob.hyps)
                sub = relevant(fs, r.ob.goal)
                if len(sub) < len(fs):
                    with open(p + '.s', 'w') as f:
                        f.write(smt2(sub, r.ob.goal, []))
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(lambda j: work(j, stage), pending))
        pending = [j for j in pending if j[0].status == 'unknown']
        if progress:
            progress('stage %d: %d left' % (si, len(pending)))
    for r, p, key in jobs:
        for q in texts[key]:
            if q is not r:
                q.status, q.backend, q.log = r.status, r.backend, ['same as another obligation']
    if not workdir:
        shutil.rmtree(tmp, ignore_errors=True)
    return results


def check_covers(covers, axioms_of, workdir, limit=2):
    """vacuity guard: none of the 'must' contexts may be contradictory; per function at least one return reachable"""
    jobs = []
    for i, c in enumerate(covers):       # the z3 API is used from this thread only
        name, pc, kind, uses = c
        p = os.path.join(workdir, 'c%d.smt2' % i)
        with open(p, 'w') as f:
            f.write(smt2(pc, None, axioms_of(c)))
        jobs.append((name, kind, p))

    def work(j):
        out, dt = run_one('z3-new-ematch', limit, j[2])
        return j[0], j[1], out
    with ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(work, jobs))
    bad = []
    anyret = {}
    for name, kind, out in res:
        fn = name.rsplit('/', 1)[0]
        if kind == 'any':
            anyret.setdefault(fn, []).append(out != 'unsat')
        elif out == 'unsat':
            bad.append(name)
    for fn, l in anyret.items():
        if not any(l):
            bad.append(fn + '/no reachable return')
    return bad, len(res)
