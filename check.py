#!/usr/bin/env python3
"""check.py ID: decide one property on /repo's current tree.  Exit 0 quiet / 1 with a VIOLATION line.

1. every contract of the property is turned into obligations from the current source and proved
   (SMT portfolio; the lemmas the contracts use are re-checked by Lean);
2. the executable form of the contracts is run on the real code: it replays the solver's counterexamples and looks
   for a failing input of an unproved obligation, and is the labelled, bounded stand-in for unproved functions.
"""
import json
import os
import subprocess
import sys
import tempfile
import shutil
import time
from concurrent.futures import ThreadPoolExecutor
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
VT = '/opt/veriftools/pyvenv/bin/python'
if 'z3' not in sys.modules:
    try:
        import z3  # noqa
    except ImportError:
        py = VT if os.path.exists(VT) else 'python3-vt'
        os.execvp(py, [py] + sys.argv)
REPO = os.environ.get('PYVC_REPO', '/repo')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else 'python3'


def run_targets(names, seed, tier, budget, models=None):
    work = tempfile.mkdtemp(prefix='pyvc-replay-')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=REPO, PYVC_REPO=REPO, PYTHONHASHSEED='0')
    if models:
        mp = os.path.join(work, 'models.json')
        with open(mp, 'w') as f:
            json.dump(models, f)
        env['PYVC_MODELS'] = mp

    def one(i_n):
        i, n = i_n
        out = os.path.join(work, '%d.json' % i)
        cmd = [PY, os.path.join(ROOT, 'replay', 'run.py'), out, str(seed), tier, str(budget), n]
        d = os.path.join(work, 'd%d' % i)
        os.mkdir(d)
        try:
            r = subprocess.run(cmd, env=env, cwd=d, capture_output=True, text=True, timeout=budget * 3 + 90)
            err = r.stderr[-2000:]
        except subprocess.TimeoutExpired:
            err = 'harness timeout'
        try:
            with open(out) as f:
                return n, json.load(f)[n]
        except Exception:
            return n, {'error': err or 'no output', 'count': 0, 'fails': []}
    try:
        with ThreadPoolExecutor(8) as ex:
            return dict(ex.map(one, enumerate(names)))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def known(prop):
    out = []
    p = os.path.join(ROOT, 'known-findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith('#'):
                e = json.loads(line)
                if e.get('status') == 'known' and e['property'] == prop:
                    out.append(e)
    return out


def main():
    from props import PROPS
    from pyvc import driver
    prop = sys.argv[1]
    if prop == '--selftest':       # nothing to build: the framework is interpreted
        driver.load_all()
        print('%d contracts loaded' % len(driver.all_contracts()))
        return
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    P = PROPS[prop]
    driver.load_all()
    names = P['contracts']
    targets = P['targets']
    res = driver.verify(names, deadline=time.time() + (420 if tier == 'quick' else 3000), scale=1.0 if tier == 'quick' else 3.0)
    failed = []          # (obligation, reason)
    nobl = nproved = 0
    backends, fns, trusted, solver_s = {}, [], [], 0.0
    uncheck = set()
    for n, r in sorted(res['reports'].items()):
        if r.con.trusted:
            trusted.append(n)
            continue
        if r.error:
            failed.append((n, r.error, []))
        k = 0
        for x in r.results:
            nobl += 1
            solver_s += x.time
            if x.status == 'proved':
                nproved += 1
                k += 1
                backends[x.backend] = backends.get(x.backend, 0) + 1
            else:
                failed.append((x.ob.name, x.status + ': ' + '; '.join(x.log), [x]))
        e = r.engine
        tr = e.trivial if e else 0
        nobl += tr
        nproved += tr
        if tr:
            backends['simplifier'] = backends.get('simplifier', 0) + tr
        fns.append({'function': n, 'obligations': len(r.results) + tr, 'discharged': k + tr,
                    'inlined': sorted(e.inlined) if e else [], 'calls_by_contract': sorted(e.called) if e else []})
    lok, lgood, llog, lsecs = res['lean']
    bad_lemmas = sorted(res['lemmas'] - lgood) if not lok else []
    if not lok:
        failed.append(('lemmas ' + ', '.join(bad_lemmas), 'Lean: ' + llog, []))
    nlem = len(res['lemmas'])
    nobl += nlem
    nproved += nlem - len(bad_lemmas)
    backends['lean'] = nlem - len(bad_lemmas)
    gfail = driver.check_globals(res['globals'], PY, REPO)
    for g in gfail:
        failed.append((g, 'the table does not have the assumed contents', []))
    models = {}
    if failed:
        models = driver.models(failed, targets)
    budget = P.get('budget', 6) if tier == 'quick' else P.get('budget', 6) * 12
    if failed:
        budget *= 4
    rep = run_targets(targets, seed, tier, budget, models)
    kn = known(prop)
    knset = {e['input']: e for e in kn}
    viol, seen, errors = [], [], []
    for n in targets:
        d = rep[n]
        if d.get('error'):
            errors.append((n, d['error']))
        for f in d['fails']:
            if f['input'] in knset:
                if f['input'] not in seen:
                    seen.append(f['input'])
            else:
                viol.append((n, f))
    for i in seen:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, i, knset[i]['what']))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    rpath = os.path.join('evidence', prop + '.replay.json')
    rfull = os.path.join(ROOT, rpath)
    line = None
    if viol:
        n, f = viol[0]
        with open(rfull, 'w') as fh:
            json.dump({'property': prop, 'target': n, 'input': f['input'], 'args': f['args'], 'got': f['got'], 'expected': f['why'],
                       'replay': 'write the args field to FILE, then: PYTHONPATH=/repo %s replay/run.py --one %s FILE' % (PY, n),
                       'failed_obligations': [(a, b) for a, b, _ in failed],
                       'other_failing_inputs': [v['input'][:500] for _, v in viol[1:20]]}, fh, indent=1)
        line = 'VIOLATION property=%s replay=%s' % (prop, rpath)
        print('failing input: %s -> %s; %s' % (f['input'][:600], f['got'][:300], f['why'][:300]))
    elif failed or errors:
        with open(rfull, 'w') as fh:
            json.dump({'property': prop, 'failed_obligations': [(a, b) for a, b, _ in failed],
                       'harness_errors': errors, 'verifier_models': models,
                       'note': 'no failing input found by replay'}, fh, indent=1)
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rpath)
    elif os.path.exists(rfull):
        os.unlink(rfull)
    for a, b, _ in failed[:12]:
        print('unproved: %s [%s]' % (a, b[:300]))
    for a, b in errors:
        print('harness: %s [%s]' % (a, b[-500:]))
    bounded = P.get('bounded', [])
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': P.get('level', 'proof'),
        'coverage': {
            'obligations': nobl, 'discharged': nproved,
            'checker_cmd': 'python3 check.py %s   (pyvc: VCs from /repo -> z3-new/z3/cvc5; lemmas -> lean)' % prop,
            'trusted_base': driver.TRUSTED_BASE,
            'functions_under_contract': fns, 'backends': backends,
            'solver_seconds': round(solver_s, 1), 'lean_seconds': round(lsecs, 1), 'lemmas': sorted(res['lemmas']),
            'vacuity_covers_checked': res['covers'],
            'bounded_stand_ins': [{'target': n, 'label': 'bounded, not proved', 'inputs_run': rep[n]['count'],
                                   'bounds': rep[n].get('bounds', '')} for n in bounded if n in rep],
            'executable_contracts_run': {n: {'inputs': rep[n]['count'], 'enumeration_complete': rep[n].get('complete')}
                                         for n in targets},
            'known_findings_reproduced': seen,
        },
        'assumptions': driver.ASSUMPTIONS + P.get('assumptions', []) + ['assumed contract: ' + t for t in trusted]
        + ['unproved lemma %s: %s' % (l, driver.theory.LEMMAS[l].trusted) for l in sorted(res['trusted_lemmas'])],
        'violations': ([line] if line else []),
        'wall_s': round(time.time() - t0, 1),
    }
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('%s: %d/%d obligations discharged, %d functions, %d executable contracts (%d inputs), %.0fs' % (
        prop, nproved, nobl, len(fns), len(targets), sum(rep[n]['count'] for n in targets), time.time() - t0))
    if line:
        print(line)
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        # the machinery could not judge the tree: say so as an alarm without a failing input
        prop = sys.argv[1]
        p = os.path.join('evidence', prop + '.replay.json')
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, p), 'w') as fh:
            json.dump({'property': prop, 'error': traceback.format_exc()}, fh)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p))
        sys.exit(1)
