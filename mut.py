"""dev: mutation test of the verifier.  mut.py NAME... : AST mutants of the contract's function; prints survivors."""
import ast, copy, os, shutil, sys, tempfile, time
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
import random
SCR = tempfile.mkdtemp(prefix='mut')
shutil.copytree('/repo/rosemary', SCR + '/rosemary')
os.environ['PYVC_REPO'] = SCR
from pyvc import driver, source, solve, contract
driver.load_all()
SWAP = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.FloorDiv], ast.BitAnd: [ast.BitOr],
        ast.BitOr: [ast.BitAnd], ast.LShift: [ast.RShift], ast.RShift: [ast.LShift], ast.Pow: [ast.Mult]}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}


def mutants(fn):
    nodes = list(ast.walk(fn))
    for i, n in enumerate(nodes):
        def mk(f):
            c = copy.deepcopy(fn)
            m = list(ast.walk(c))[i]
            f(m)
            return ast.fix_missing_locations(c)
        if isinstance(n, (ast.BinOp, ast.AugAssign)):
            for o in SWAP.get(type(n.op), []):
                yield 'op@%d %s' % (n.lineno, ast.unparse(n)[:50]), mk(lambda m: setattr(m, 'op', o()))
        if isinstance(n, ast.Compare):
            for o in CMP.get(type(n.ops[0]), []):
                yield 'cmp@%d %s->%s' % (n.lineno, ast.unparse(n)[:50], o.__name__), mk(lambda m: m.ops.__setitem__(0, o()))
        if isinstance(n, ast.Constant) and type(n.value) is int:
            yield 'const@%d %d+1' % (n.lineno, n.value), mk(lambda m: setattr(m, 'value', m.value + 1))
            if n.value:
                yield 'const@%d %d-1' % (n.lineno, n.value), mk(lambda m: setattr(m, 'value', m.value - 1))
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            yield 'bool@%d' % n.lineno, mk(lambda m: setattr(m, 'value', not m.value))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield 'notcond@%d %s' % (n.lineno, ast.unparse(n.test)[:40]), mk(lambda m: setattr(m, 'test', ast.UnaryOp(ast.Not(), m.test)))
        if isinstance(n, ast.BoolOp):
            yield 'bool@%d' % n.lineno, mk(lambda m: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And()))
        for fld in ('body', 'orelse'):
            b = getattr(n, fld, None)
            if isinstance(b, list):
                for k, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return, ast.Raise, ast.Continue, ast.Break)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        yield 'drop@%d %s' % (s.lineno, ast.unparse(s)[:50]), mk(lambda m: getattr(m, fld).__setitem__(k, ast.Pass()))


def main():
    names = []
    limit = int(os.environ.get('MUT_N', '60'))
    for a in sys.argv[1:]:
        names += [c.name for c in driver.all_contracts() if c.name == a or (a.endswith('*') and c.name.startswith(a[:-1]))]
    rng = random.Random(1)
    for n in names:
        con = driver.by_name(n)
        mod, fn, owner = source.find(con.qual)
        path = source.path_of(con.qual) if hasattr(source, 'path_of') else None
        rel = con.qual.split(':')[0].replace('.', '/') + '.py'
        path = os.path.join(SCR, rel)
        text = open(path).read()
        r = driver.generate(con)
        ax = solve.axioms(set(con.uses) | {l for l in ('powZ_two_pos',) if l in r.engine.lemmas_used}, r.engine.globals_used)
        if not all(x.status == 'proved' for x in solve.discharge(r.engine.obls, lambda o: ax)):
            print(n, 'BASELINE NOT PROVED')
        ms = list(mutants(fn))
        rng.shuffle(ms)
        ms = ms[:limit]
        surv = []
        t0 = time.time()
        for label, m in ms:
            tree = ast.parse(text)
            def repl(body):
                for k, s in enumerate(body):
                    if isinstance(s, ast.FunctionDef) and s.lineno == fn.lineno and s.name == fn.name:
                        body[k] = m
                        return True
                    if isinstance(s, ast.ClassDef) and repl(s.body):
                        return True
            assert repl(tree.body)
            open(path, 'w').write(ast.unparse(tree))
            source.reset()
            r = driver.generate(con)
            if r.error:
                continue
            ax = solve.axioms(set(con.uses) | {l for l in ('powZ_two_pos',) if l in r.engine.lemmas_used}, r.engine.globals_used)
            res = solve.discharge(r.engine.obls, lambda o: ax, sched=[[('z3-new-ematch', 2)], [('cvc5', 4), ('z3-new', 4)]])
            if all(x.status == 'proved' for x in res):
                surv.append(label)
        open(path, 'w').write(text)
        source.reset()
        print('%s: %d mutants, %d survive (%.0fs)' % (n, len(ms), len(surv), time.time() - t0), flush=True)
        for s in surv:
            print('     SURVIVES', s, flush=True)


try:
    main()
finally:
    shutil.rmtree(SCR)
