"""Access to the code under verification: the real AST of /repo's working tree."""
import ast
import os

REPO = os.environ.get('PYVC_REPO', '/repo')


class Module:
    def __init__(self, name):
        self.name = name
        p = os.path.join(REPO, *name.split('.'))
        self.path = p + '.py' if os.path.exists(p + '.py') else os.path.join(p, '__init__.py')
        with open(self.path) as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.defs = {}
        self.imports = {}
        self.consts = {}
        for n in self.tree.body:
            self._top(n)

    def _top(self, n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            self.defs[n.name] = n
        elif isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    self.imports[a.asname] = ('mod', a.name)
                else:
                    self.imports[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
        elif isinstance(n, ast.ImportFrom):
            mod = n.module or ''
            if n.level:
                base = self.name.split('.')
                if not self.path.endswith('__init__.py'):
                    base = base[:-1]
                base = base[:len(base) - (n.level - 1)]
                mod = '.'.join(base + ([mod] if mod else []))
            for a in n.names:
                self.imports[a.asname or a.name] = ('from', mod, a.name)
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            self.consts[n.targets[0].id] = n.value
        elif isinstance(n, ast.If):
            for m in n.body:
                self._top(m)


_mods = {}


def module(name):
    if name not in _mods:
        _mods[name] = Module(name)
    return _mods[name]


def exists(name):
    p = os.path.join(REPO, *name.split('.'))
    return os.path.exists(p + '.py') or os.path.exists(os.path.join(p, '__init__.py'))


def find(qual):
    """'rosemary.a.b:Class.meth' -> (module, node, owner ClassDef or None)"""
    m, p = qual.split(':')
    mod = module(m)
    parts = p.split('.')
    node = None
    owner = None
    scope = mod.defs
    for k, x in enumerate(parts):
        if x not in scope:
            # resolve re-exported / moved definitions
            if k == 0 and x in mod.imports and mod.imports[x][0] == 'from' and exists(mod.imports[x][1]):
                return find(mod.imports[x][1] + ':' + '.'.join([mod.imports[x][2]] + parts[1:]))
            raise KeyError('no definition of %s in %s' % (p, m))
        if node is not None and isinstance(node, ast.ClassDef):
            owner = node
        node = scope[x]
        scope = {c.name: c for c in ast.walk(node) if isinstance(c, (ast.FunctionDef, ast.ClassDef)) and c is not node}
    return mod, node, owner


def is_generator(fn):
    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                return True
            if walk(c):
                return True
        return False
    return walk(fn)


def local_names(fn):
    """names bound in the function, in order of first binding (parameters first)"""
    out = []

    def add(x):
        if x not in out:
            out.append(x)
    a = fn.args
    for x in a.posonlyargs + a.args + ([a.vararg] if a.vararg else []) + a.kwonlyargs + ([a.kwarg] if a.kwarg else []):
        add(x.arg)

    def walk(n):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            add(n.id)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            add(n.name)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp, ast.Lambda)):
            return
        # bind order: value first, then targets
        if isinstance(n, ast.Assign):
            walk(n.value)
            for t in n.targets:
                walk(t)
            return
        for c in ast.iter_child_nodes(n):
            walk(c)
    for s in fn.body:
        walk(s)
    return out


def reset():
    _mods.clear()
