"""run.py OUT.json SEED TIER TIME TARGET...      run executable contracts in this process
   run.py --one TARGET ARGSFILE                  replay one recorded input (args as a python literal)"""
import copy
import importlib
import json
import os
import sys
import time
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('PYVC_REPO', '/repo')
sys.path.insert(0, REPO)
sys.path.insert(1, ROOT)
sys.setrecursionlimit(20000)


def load():
    for f in sorted(os.listdir(HERE)):
        if f.startswith('r_') and f.endswith('.py'):
            try:
                importlib.import_module('replay.' + f[:-3])
            except Exception as e:      # only the targets of that file are then missing
                print('cannot load %s: %s: %s' % (f, type(e).__name__, e))


def main():
    from replay import base
    if sys.argv[1] == '--one':
        load()
        t = base.TARGETS[sys.argv[2]]
        with open(sys.argv[3]) as f:
            args = eval(f.read(), {'inf': float('inf')})
        out = base.run_call(t, copy.deepcopy(args))
        try:
            why = t.oracle(args, out)
        except Exception as e:
            why = 'the result cannot be judged: %s: %s' % (type(e).__name__, e)
        print(base.call_string(t.name, args), '->', out, '' if why is None else '; ' + why)
        sys.exit(1 if why else 0)
    outp, seed, tier, budget = sys.argv[1], int(sys.argv[2]), sys.argv[3], float(sys.argv[4])
    names = sys.argv[5:]
    load()
    extra = json.load(open(os.environ['PYVC_MODELS'])) if os.environ.get('PYVC_MODELS') else {}
    res = {}
    for n in names:
        t = base.TARGETS.get(n)
        if t is None:
            res[n] = {'error': 'target not available', 'count': 0, 'fails': []}
            continue
        r = base.R('%d/%s' % (seed, n), tier == 'thorough')
        t0 = time.time()
        cnt, fails, complete = 0, [], True
        distinct = set()

        def inputs():
            for a in extra.get(n, []):
                try:
                    a = tuple(eval(x, {'inf': float('inf')}) for x in a)
                    if t.pre is None or t.pre(*a):
                        yield a
                except Exception:
                    pass
            yield from t.gen(r)
        try:
            for args in inputs():
                args = tuple(args)
                keep = copy.deepcopy(args)
                out = base.run_call(t, args)
                cnt += 1
                try:
                    why = t.oracle(keep, out)
                except Exception as e:
                    why = 'the result cannot be judged: %s: %s' % (type(e).__name__, e)
                if why is not None:
                    s = base.call_string(n, keep)
                    fails.append({'input': s if len(s) < 20000 else s[:20000], 'args': repr(keep), 'got': repr(out), 'why': why})
                    if len(fails) >= 25 or isinstance(out, base.Hang) and sum('no result' in f['got'] for f in fails) >= 3:
                        complete = False
                        break
                if time.time() - t0 > budget:
                    complete = False
                    break
        except Exception as e:      # a broken generator/oracle is reported as such, never as a violation
            import traceback
            res[n] = {'error': traceback.format_exc()[-3000:], 'count': cnt, 'fails': fails}
            continue
        res[n] = {'count': cnt, 'fails': fails, 'complete': complete, 'secs': round(time.time() - t0, 2), 'bounds': t.bounds}
        with open(outp, 'w') as f:
            json.dump(res, f)
    with open(outp, 'w') as f:
        json.dump(res, f)


if __name__ == '__main__':
    main()
