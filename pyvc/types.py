"""Type descriptors of the verifier and their SMT sorts."""
import ast
import z3

INT = ('int',)
BOOL = ('bool',)
REAL = ('real',)
EXT = ('ext',)
NONE = ('none',)
STR = ('str',)
UNK = ('unk',)


def TList(t): return ('list', t)
def TSet(t): return ('set', t)
def TDict(k, v): return ('dict', k, v)
def TTuple(*ts): return ('tuple', tuple(ts))
def TOpt(t): return ('opt', t)
def TArr(t): return ('arr', t)
def TFn(k, v): return ('fn', k, v)


def parse(s):
    if not isinstance(s, str):
        return s
    return _parse(ast.parse(s.strip(), mode='eval').body)


def _parse(e):
    if isinstance(e, ast.Constant) and e.value is None:
        return NONE
    if isinstance(e, ast.Name):
        n = e.id
        if n in ('int', 'bool', 'real', 'ext', 'str', 'none', 'unk'):
            return (n,)
        if n.startswith('E'):
            return ('elem', n)
        return ('obj', n)
    if isinstance(e, ast.Subscript):
        h = e.value.id
        a = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
        a = [_parse(x) for x in a]
        if h == 'tuple':
            return ('tuple', tuple(a))
        return (h,) + tuple(a)
    raise ValueError(ast.dump(e))


def name(t):
    k = t[0]
    if k == 'tuple':
        return 'T' + str(len(t[1])) + '_' + '_'.join(name(x) for x in t[1]) + '_'
    if k == 'elem':
        return t[1]
    if k == 'obj':
        return 'O' + t[1]
    if len(t) == 1:
        return {'int': 'I', 'bool': 'B', 'real': 'R', 'ext': 'X', 'none': 'N', 'str': 'S', 'unk': 'U'}[k]
    return {'list': 'L', 'set': 'Set', 'dict': 'D', 'opt': 'Opt', 'arr': 'A', 'fn': 'F'}[k] + '_'.join(name(x) for x in t[1:]) + '_'


_cache = {}


def sort(t):
    r = _cache.get(t)
    if r is None:
        r = _cache[t] = _mk(t)
    return r


def _mk(t):
    k = t[0]
    if k == 'int':
        return z3.IntSort()
    if k == 'bool':
        return z3.BoolSort()
    if k == 'real':
        return z3.RealSort()
    if k == 'elem':
        return z3.DeclareSort(t[1])
    if k in ('none', 'str', 'unk'):
        return z3.DeclareSort({'none': 'NoneT', 'str': 'StrT', 'unk': 'UnkT'}[k])
    n = name(t)
    if k == 'ext':
        D = z3.Datatype('Ext')
        D.declare('x_inf')
        D.declare('x_fin', ('x_val', z3.RealSort()))
        return D.create()
    if k == 'opt':
        D = z3.Datatype(n)
        D.declare('none_' + n)
        D.declare('some_' + n, ('val_' + n, sort(t[1])))
        return D.create()
    if k == 'tuple':
        D = z3.Datatype(n)
        D.declare('mk_' + n, *[('f%d_%s' % (i, n), sort(x)) for i, x in enumerate(t[1])])
        return D.create()
    if k == 'list':
        D = z3.Datatype(n)
        D.declare('mk_' + n, ('len_' + n, z3.IntSort()), ('arr_' + n, z3.ArraySort(z3.IntSort(), sort(t[1]))))
        return D.create()
    if k == 'set':
        D = z3.Datatype(n)
        D.declare('mk_' + n, ('mem_' + n, z3.ArraySort(sort(t[1]), z3.BoolSort())), ('card_' + n, z3.IntSort()))
        return D.create()
    if k == 'dict':
        D = z3.Datatype(n)
        D.declare('mk_' + n, ('dom_' + n, z3.ArraySort(sort(t[1]), z3.BoolSort())),
                  ('map_' + n, z3.ArraySort(sort(t[1]), sort(t[2]))), ('card_' + n, z3.IntSort()))
        return D.create()
    if k == 'arr':
        return z3.ArraySort(z3.IntSort(), sort(t[1]))
    if k == 'fn':
        return z3.ArraySort(sort(t[1]), sort(t[2]))
    raise ValueError('no sort for %r' % (t,))


def is_mut(t):
    return t[0] in ('list', 'set', 'dict', 'obj')


# constructors / selectors on terms
def mk(t, *args):
    s = sort(t)
    c = s.constructor(0)
    return c(*args)


def sel(t, i, x):
    s = sort(t)
    # simplify selector over constructor
    if z3.is_app(x) and x.decl().eq(s.constructor(0)):
        return x.arg(i)
    return s.accessor(0, i)(x)


def l_len(t, x): return sel(t, 0, x)
def l_arr(t, x): return sel(t, 1, x)


def some(t, x):
    s = sort(t)
    return s.constructor(1)(x)


def none(t):
    s = sort(t)
    return s.constructor(0)()


def is_none(t, x):
    s = sort(t)
    if z3.is_app(x):
        if x.decl().eq(s.constructor(0)):
            return z3.BoolVal(True)
        if x.decl().eq(s.constructor(1)):
            return z3.BoolVal(False)
    return s.recognizer(0)(x)


def opt_val(t, x):
    s = sort(t)
    if z3.is_app(x) and x.decl().eq(s.constructor(1)):
        return x.arg(0)
    return s.accessor(1, 0)(x)
