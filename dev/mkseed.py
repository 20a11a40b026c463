"""dev: build and confirm planted bugs.  mkseed.py [ID...]: writes seeded/<id>/ from seedspec.py, checks in a scratch copy
that the patch applies, the stable tests still pass and the demo separates; with --check also runs the property check."""
import json, os, shutil, subprocess, sys, tempfile
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
from seedspec import SEEDS
args = [a for a in sys.argv[1:] if not a.startswith('--')]
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def one(s):
    if args and s['id'] not in args:
        return
    d = os.path.join(ROOT, 'seeded', s['id'])
    fresh = not os.path.exists(d) or args
    if not fresh and '--all' not in sys.argv:
        return
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'demo.py'), 'w') as f:
        f.write(s['demo'].lstrip('\n'))
    with open(os.path.join(d, 'demo.sh'), 'w') as f:
        f.write('#!/bin/bash\n# exit 0 when the property holds on this input\nD="$(cd "$(dirname "$0")" && pwd)"\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec timeout 200 python3 "$D/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    with open(os.path.join(d, 'meta.json'), 'w') as f:
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, f, indent=1)
    scr = tempfile.mkdtemp(prefix='seed')
    try:
        subprocess.run(['cp', '-a', '/repo/.', scr], check=True)
        r0 = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=scr, capture_output=True, text=True)
        for fn, old, new in s['edits']:
            p = os.path.join(scr, fn)
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], fn, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=scr, capture_output=True, text=True).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        r1 = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=scr, capture_output=True, text=True)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        x = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', 'rosemary', '-q', '-p', 'no:cacheprovider', '-n', '8', '--timeout=60',
                            '--continue-on-collection-errors', '--doctest-modules', '-o', 'doctest_optionflags=NORMALIZE_WHITESPACE',
                            '--randomly-seed=2', '--randomly-dont-reorganize', '-o', 'junit_family=xunit2', '--junitxml=' + scr + '.xml'], cwd=scr, env=env, capture_output=True, text=True)
        tests = x.stdout.strip().split('\n')[-12:]
        ok = r0.returncode == 0 and r1.returncode != 0
        subprocess.run(['python3', '/opt/vp/results.py', scr + '.json', 'junit:' + scr + '.xml'], capture_output=True)
        rs = json.load(open(scr + '.json'))
        failed = sorted(stable - set(rs['passed']))
        os.unlink(scr + '.json')
        os.unlink(scr + '.xml')
        print(s['id'], s['prop'], 'demo:', r0.returncode, r1.returncode, 'tests:', tests[-1], failed, (r0.stdout + r0.stderr)[-300:] if r0.returncode else '', flush=True)
        if '--check' in sys.argv:
            c = subprocess.run(['python3', 'check.py', s['prop']], cwd=ROOT, env=dict(os.environ, PYVC_REPO=scr), capture_output=True, text=True)
            print('   check:', c.returncode, '\n        '.join(c.stdout.strip().split('\n')[-4:])[:900], flush=True)
        if not ok or failed:
            print('   NOT KEPT')
            shutil.rmtree(d)
    finally:
        shutil.rmtree(scr)


from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(4) as ex:
    for f in [ex.submit(one, s) for s in SEEDS]:
        try:
            f.result()
        except Exception as e:
            print('ERROR', e)
