"""Executable contracts of rosemary.data_structures: operation sequences against plain models."""
from replay.base import target, ok_if
from rosemary.data_structures.bit_sieve import BITSieve, BITSieveArray
from rosemary.data_structures.heaps import LeftistHeap, PairingHeap
from rosemary.data_structures.unionfind import NamedUnionFind, UnionFind


# --- disjoint sets: ops ('f', x) ('u', x, y); x, y are elements, joined through their names
def uf_run(elements, ops):
    X = UnionFind(elements)
    out = []
    for op in ops:
        if op[0] == 'f':
            out.append(X.find(op[1]))
        else:
            out.append(X.union(X.find(op[1]), X.find(op[2])))
    return out, {x: X.find(x) for x in elements}, X


def height(X, x):
    # height of every node over the current parent pointers
    h = {}
    for y in X.parent:
        d, z = 0, y
        while True:
            h[z] = max(h.get(z, 0), d)
            if X.parent[z] == z:
                break
            z = X.parent[z]
            d += 1
            if d > len(X.parent):
                return None
    return h


def model(elements, ops):
    comp = {x: {x} for x in elements}
    out = []
    for op in ops:
        if op[0] == 'f':
            out.append(frozenset(comp[op[1]]))
        else:
            a, b = comp[op[1]], comp[op[2]]
            if a is not b:
                a = a | b
                for x in a:
                    comp[x] = a
            out.append(None)
    return out, comp


def uf_oracle(args, o):
    elements, ops = args
    if not o.ok:
        return 'no exception'
    out, final, X = o.v
    exp, comp = model(elements, ops)
    if len(out) != len(exp):
        return 'one answer per operation'
    for a, b in zip(out, exp):
        if (a is None) != (b is None):
            return 'find returns a name, union None'
        if b is not None and a not in b:
            return 'a name inside the set %r' % (sorted(b),)
    for x in elements:
        if final[x] not in comp[x]:
            return 'name of %r inside its set %r' % (x, sorted(comp[x]))
        for y in elements:
            if (final[x] == final[y]) != (y in comp[x]):
                return '%r and %r %s the same name' % (x, y, 'share' if y in comp[x] else 'do not share')
    return None


def rank_run(elements, ops):
    X = UnionFind(elements)
    for op in ops:
        if op[0] == 'f':
            X.find(op[1])
        else:
            X.union(X.find(op[1]), X.find(op[2]))
        h = height(X, None)
        if h is None:
            return 'cycle'
        for x in h:
            if h[x] > X.rank[x]:
                return 'height %d of %r above its rank %d' % (h[x], x, X.rank[x])
    return None


def rank_roots(elements, ops):
    """union by the roots directly, without any find that compresses paths first"""
    X = UnionFind(elements)
    root = {x: x for x in elements}
    for op in ops:
        if op[0] == 'f':
            continue
        a, b = op[1], op[2]
        while X.parent[a] != a:
            a = X.parent[a]
        while X.parent[b] != b:
            b = X.parent[b]
        X.union(a, b)
        h = height(X, None)
        if h is None:
            return 'cycle'
        for x in h:
            if h[x] > X.rank[x]:
                return 'height %d of %r above its rank %d' % (h[x], x, X.rank[x])
    return None


def uf_gen(R):
    yield ([1], [('f', 1)])
    yield ([1, 2], [('u', 1, 2), ('f', 1), ('f', 2)])
    yield ([1, 2, 3, 4], [('u', 1, 2), ('u', 3, 4), ('f', 1), ('u', 2, 3), ('f', 1), ('f', 3), ('u', 1, 4)])
    for m in (3, 4):
        for k in range(R.n(60, 400)):
            els = list(range(m))
            yield (els, [('u', R.rng.choice(els), R.rng.choice(els)) if R.rng.random() < .7 else ('f', R.rng.choice(els)) for _ in range(6)])
    for _ in range(R.n(2000, 20000)):
        n = R.rng.randint(1, 24)
        els = R.rng.sample(range(-50, 50), n)
        if R.rng.random() < .2:
            els = ['v%d' % e for e in els]
        ops = [('u', R.rng.choice(els), R.rng.choice(els)) if R.rng.random() < .6 else ('f', R.rng.choice(els)) for _ in range(R.rng.randint(1, 40))]
        yield (els, ops)


target('ds:union_find', uf_run, uf_gen, uf_oracle, bounds='operation sequences of up to 40 steps on up to 24 elements')
target('ds:union_find_ranks', rank_run, uf_gen, ok_if(lambda v, *a: v), bounds='operation sequences of up to 40 steps on up to 24 elements')
target('ds:union_find_ranks_uncompressed', rank_roots, uf_gen, ok_if(lambda v, *a: v), bounds='operation sequences of up to 40 steps on up to 24 elements')


# --- named disjoint sets: ops ('f', x) ('u', x, y, w): the sets holding x and y (different ones) get the name w
def nuf_run(elements, ops):
    X = NamedUnionFind(elements)
    out = []
    for op in ops:
        if op[0] == 'f':
            out.append(X.find(op[1]))
        else:
            a, b = X.find(op[1]), X.find(op[2])
            if a == b:
                out.append(None)
                continue
            w = a if op[3] == 0 else b if op[3] == 1 else op[3]
            out.append(X.union(a, b, w))
    return out, {x: X.find(x) for x in elements}


def nuf_oracle(args, o):
    elements, ops = args
    if not o.ok:
        return 'no exception'
    comp = {x: [{x}, x] for x in elements}
    exp = []
    for op in ops:
        if op[0] == 'f':
            exp.append(comp[op[1]][1])
        else:
            a, b = comp[op[1]], comp[op[2]]
            if a is not b:
                w = a[1] if op[3] == 0 else b[1] if op[3] == 1 else op[3]
                c = [a[0] | b[0], w]
                for x in c[0]:
                    comp[x] = c
            exp.append(None)
    fin = {x: comp[x][1] for x in elements}
    return None if o.v == (exp, fin) else 'answers %r and final names %r' % (exp, fin)


def nuf_gen(R):
    yield (['a', 'b'], [('u', 'a', 'b', 'w'), ('f', 'a'), ('f', 'b')])
    for _ in range(R.n(2000, 20000)):
        n = R.rng.randint(1, 20)
        els = ['v%d' % e for e in R.rng.sample(range(50), n)]
        ops = []
        for t in range(R.rng.randint(1, 30)):
            if R.rng.random() < .6:
                ops.append(('u', R.rng.choice(els), R.rng.choice(els), R.rng.choice([0, 1, 'new%d' % t])))
            else:
                ops.append(('f', R.rng.choice(els)))
        yield (els, ops)


target('ds:named_union_find', nuf_run, nuf_gen, nuf_oracle, bounds='operation sequences of up to 30 steps on up to 20 elements')


# --- leftist heap: ops ('i', v) ('m',) ('d',) ('g', values) merge with a heap of values, ('l',)
def lh_ok(n):
    """heap order and the leftist shape: returns (size, null-path length) or None"""
    if n is None:
        return 0, 0
    a, b = lh_ok(n.left), lh_ok(n.right)
    if a is None or b is None or a[1] < b[1]:
        return None
    for c in (n.left, n.right):
        if c is not None and c.value < n.value:
            return None
    return a[0] + b[0] + 1, b[1] + 1


def lh_run(values, ops):
    H = LeftistHeap(values)
    out = []
    for op in ops:
        if op[0] == 'i':
            out.append(H.insert(op[1]))
        elif op[0] == 'm':
            out.append(H.find_min() if len(H) else None)
        elif op[0] == 'd':
            out.append(H.delete_min())
        elif op[0] == 'g':
            K = LeftistHeap(op[1])
            out.append(H.merge(K))
        else:
            out.append(len(H))
        s = lh_ok(H.root)
        if s is None:
            return 'heap order or leftist shape broken after %r' % (op,)
        if s[0] != len(H):
            return 'len %d but %d nodes after %r' % (len(H), s[0], op)
    rest = list(H)
    return out, rest, len(H)


def lh_oracle(args, o):
    values, ops = args
    if not o.ok:
        return 'no exception'
    L = list(values)
    out = []
    for op in ops:
        if op[0] == 'i':
            L.append(op[1])
            out.append(None)
        elif op[0] == 'm':
            out.append(min(L) if L else None)
        elif op[0] == 'd':
            out.append(min(L) if L else None)
            if L:
                L.remove(min(L))
        elif op[0] == 'g':
            L += list(op[1])
            out.append(None)
        else:
            out.append(len(L))
    exp = (out, sorted(L), 0)
    return None if o.v == exp else repr(exp)


def lh_gen(R):
    yield ([], [])
    yield ([], [('l',), ('d',), ('i', 3), ('m',), ('d',), ('d',)])
    yield ([5], [('m',), ('l',), ('d',), ('l',)])
    yield ([], [('g', []), ('g', [2, 1]), ('m',)])
    yield ([1, 2], [('g', []), ('d',), ('d',), ('g', [7])])
    for n in range(1, 9):
        for _ in range(R.n(12, 100)):
            yield ([R.rng.randint(0, 6) for _ in range(n)], [('d',)] * R.rng.randint(0, n))
    for _ in range(R.n(2000, 20000)):
        vals = [R.rng.randint(-20, 20) for _ in range(R.rng.choice([0, 1, 2, 3, R.rng.randint(0, 40)]))]
        ops = []
        for _ in range(R.rng.randint(0, 40)):
            r = R.rng.random()
            ops.append(('i', R.rng.randint(-20, 20)) if r < .4 else ('d',) if r < .7 else ('m',) if r < .8 else ('l',) if r < .9 else
                       ('g', [R.rng.randint(-20, 20) for _ in range(R.rng.randint(0, 8))]))
        yield (vals, ops)


target('ds:leftist_heap', lh_run, lh_gen, lh_oracle, bounds='operation sequences of up to 40 steps')


# --- pairing heap: ops ('i', key, value) ('k', value, key) decrease ('d',) ('l',)
def ph_run(ops):
    H = PairingHeap()
    out = []
    for op in ops:
        if op[0] == 'i':
            out.append(H.insert(op[1], op[2]))
        elif op[0] == 'v':
            out.append(H.insert_values(op[1]))
        elif op[0] == 'k':
            out.append(H.decrease_key(op[1], op[2]))
        elif op[0] == 'd':
            n = H.delete_min()
            out.append(None if n is None else (n.key, n.value))
        else:
            out.append(sorted(H.list_elements()))
    fin = []
    while True:
        n = H.delete_min()
        if n is None:
            break
        fin.append((n.key, n.value))
    return out, fin


def ph_oracle(args, o):
    ops, = args
    if not o.ok:
        return 'no exception'
    out, fin = o.v
    cur = {}
    if len(out) != len(ops):
        return 'one answer per operation'

    def take(x):
        if x is None:
            return not cur
        k, v = x
        if cur.get(v, None) != k or k != min(cur.values()):
            return False
        del cur[v]
        return True
    for op, x in zip(ops, out):
        if op[0] == 'i':
            cur[op[2]] = op[1]
        elif op[0] == 'v':
            for k, v in op[1]:
                cur[v] = k
        elif op[0] == 'k':
            cur[op[1]] = op[2]
        elif op[0] == 'd':
            before = dict(cur)
            if not take(x):
                return 'delete_min gives an element of least key of %r, got %r' % (before, x)
            continue
        elif x != sorted((k, v) for v, k in cur.items()):
            return 'list_elements %r' % sorted((k, v) for v, k in cur.items())
        if op[0] in 'ikv' and x is not None:
            return 'None'
    for x in fin:
        before = dict(cur)
        if not take(x):
            return 'the rest in order of keys: from %r got %r' % (before, x)
    return None if not cur else 'also %r' % cur


def ph_gen(R):
    yield ([],)
    yield ([('d',), ('i', 1, 'a'), ('d',), ('d',), ('i', 2, 'a'), ('l',)],)
    for _ in range(R.n(3000, 20000)):
        cur = {}
        ops = []
        nv = 0
        for _ in range(R.rng.randint(1, 60)):
            r = R.rng.random()
            if r < .4 or not cur:
                v = 'v%d' % nv
                nv += 1
                k = R.rng.randint(-10, 30)
                cur[v] = k
                ops.append(('i', k, v))
            elif r < .5:
                L = []
                for _ in range(R.rng.randint(0, 5)):
                    v = 'v%d' % nv
                    nv += 1
                    cur[v] = R.rng.randint(-10, 30)
                    L.append((cur[v], v))
                ops.append(('v', L))
            elif r < .72:
                v = R.rng.choice(sorted(cur))
                cur[v] -= R.rng.randint(0, 12)
                ops.append(('k', v, cur[v]))
            elif r < .93:
                m = min(cur.values())
                if sum(1 for v in cur if cur[v] == m) == 1:
                    del cur[min(cur, key=lambda v: cur[v])]
                    ops.append(('d',))
            else:
                ops.append(('l',))
        yield (ops,)


target('ds:pairing_heap', ph_run, ph_gen, ph_oracle, bounds='operation sequences of up to 60 steps')


# --- sieves with partial sums: ops ('x', p) ('s', m) ('e',)
def sv_run(cls, zero):
    def run(n, ops):
        X = cls(n)
        out = []
        for op in ops:
            if op[0] == 'x':
                out.append(X.mark_multiples(op[1]))
            elif op[0] == 's':
                out.append(X.partial_sum(op[1]))
            elif op[0] == 'u':
                out.append(X.update() if hasattr(X, 'update') else None)
            else:
                out.append(list(X.entries())[zero:])
        return out, [X.partial_sum(m) for m in range(n + 1)]
    return run


def sv_oracle(args, o):
    n, ops = args
    if not o.ok:
        return 'no exception'
    left = set(range(1, n + 1))
    out = []
    for op in ops:
        if op[0] == 'x':
            left -= set(range(op[1], n + 1, op[1]))
            out.append(None)
        elif op[0] == 's':
            out.append(sum(1 for x in left if x <= op[1]))
        elif op[0] == 'u':
            out.append(None)
        else:
            out.append([1 if k in left else 0 for k in range(1, n + 1)])
    exp = (out, [sum(1 for x in left if x <= m) for m in range(n + 1)])
    return None if o.v == exp else repr(exp)[:900]


def sv_gen(R):
    for n in range(0, 40):
        yield (n, [('e',)])
        yield (n, [('x', 2), ('e',), ('x', 3), ('u',), ('s', n), ('x', 1), ('e',)])
    for _ in range(R.n(800, 6000)):
        n = R.rng.choice([R.rng.randint(1, 300), 2 ** R.rng.randint(1, 8), 2 ** R.rng.randint(1, 8) - 1])
        ops = []
        for _ in range(R.rng.randint(1, 14)):
            r = R.rng.random()
            ops.append(('x', R.rng.randint(1, max(1, min(n + 2, 40)))) if r < .55 else ('s', R.rng.randint(0, n)) if r < .85 else ('u',) if r < .9 else ('e',))
        yield (n, ops)


target('ds:bit_sieve', sv_run(BITSieve, 0), sv_gen, sv_oracle, bounds='n <= 300, up to 14 operations')
target('ds:bit_sieve_array', sv_run(BITSieveArray, 1), sv_gen, sv_oracle, bounds='n <= 300, up to 14 operations')
