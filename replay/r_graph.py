"""Executable contracts: graphs.  A graph argument is (vertices, edges) with edges (u, v, weight); the Graph is built from them directly."""
import copy
import io
import itertools as it
import random
from collections import deque
from contextlib import redirect_stdout
from functools import lru_cache
from replay.base import RAISE, eq, eq_or_raise, ok_if, target
from rosemary.graphs.graphs import Graph, complete_graph, petersen_graph, coprime_pairs_graph, odd_graph, grid_graph
from rosemary.graphs.algorithms import (cliques as CL, coloring as CO, connectivity as CN, degree_sequences as DS, hamiltonian_paths as HP, independent_sets as IS,
                                        paths as PA, spanning_trees as ST, steiner_trees as SR, traversal as TR)
INF = float('inf')


def rows(M, n):
    return [[M[i, j] for j in range(n)] for i in range(n)]


def build(g):
    V, E = g
    G = Graph()
    G.graph_dict = adj(g)
    return G


def adj(g):
    V, E = g
    d = {u: {} for u in V}
    for u, v, w in E:
        d[u][v] = w
        d[v][u] = w
    return d


class Changed(Exception):
    pass


def on(f):
    """f applied to the graph; the graph must not change"""
    def call(g, *a):
        G = build(g)
        r = f(G, *a)
        if not isinstance(r, (tuple, int, bool, dict, list, Graph)) and hasattr(r, '__next__'):
            r = list(r)
        if G.graph_dict != adj(g):
            raise Changed('the graph was changed')
        return r
    return call


NAMES = 'qwertyui'


def rg(R, lo, hi, p=None, names=True, wmax=None, connected=False):
    """a random graph"""
    n = R.rng.randint(lo, hi)
    V = list(range(n))
    if names:
        k = R.rng.randint(0, 3)
        if k == 1:
            V = list(NAMES[:n]) if n <= 8 else V
        elif k == 2:
            V = R.rng.sample(range(-5, 30), n)
    p = R.rng.choice([.15, .3, .5, .7, .9, 1]) if p is None else p
    wm = R.rng.choice([1, 3, 10]) if wmax is None else wmax
    P = [e for e in it.combinations(V, 2) if R.rng.random() < p]
    if connected:
        s = R.rng.sample(V, n)
        for i in range(1, n):
            e = (s[i], s[R.rng.randrange(i)])
            if e not in P and e[::-1] not in P:
                P.append(e)
    R.rng.shuffle(P)
    return V, [(u, v) + (R.rng.randint(1, wm),) if R.rng.random() < .5 else (v, u, R.rng.randint(1, wm)) for u, v in P]


def every(n):
    """all graphs on 0..n-1 with unit weights"""
    P = list(it.combinations(range(n), 2))
    for m in range(1 << len(P)):
        yield list(range(n)), [(u, v, 1) for i, (u, v) in enumerate(P) if m >> i & 1]


def graphs(k, t, lo, hi, upto=4, **kw):
    def gen(R):
        for n in range(lo, upto + 1):
            yield from every(n)
        for _ in range(R.n(k, t)):
            yield rg(R, lo, hi, **kw)
    return gen


def gs(*a, **k):
    f = graphs(*a, **k)
    return lambda R: ((g,) for g in f(R))


def comp_of(d, s):
    seen, st = {s}, [s]
    while st:
        for v in d[st.pop()]:
            if v not in seen:
                seen.add(v)
                st.append(v)
    return seen


def hops(d, s):
    D, q = {s: 0}, deque([s])
    while q:
        u = q.popleft()
        for v in d[u]:
            if v not in D:
                D[v] = D[u] + 1
                q.append(v)
    return D


def connected(g):
    d = adj(g)
    return not d or len(comp_of(d, next(iter(d)))) == len(d)


# ---- the Graph class -----------------------------------------------------------------------------

def model_edges(d):
    return {(min(u, v), max(u, v)): w for u in d for v, w in d[u].items()}


def history(ops):
    """Runs a history of operations on the real Graph and on a model; compares every query."""
    G = Graph()
    V, E = set(), {}
    key = lambda u, v: (min(u, v), max(u, v))
    add = lambda u, v, w: (V.update([u, v]), E.__setitem__(key(u, v), w))

    def rem(u):
        if u in V:
            V.discard(u)
            for e in [e for e in E if u in e]:
                del E[e]

    def state(G):
        return {u: dict(G.graph_dict[u]) for u in G.graph_dict}

    def want(V, E):
        return {u: {(a if b == u else b): w for (a, b), w in E.items() if u in (a, b)} for u in V}

    def sub(keep):
        return want(V & keep, {e: w for e, w in E.items() if set(e) <= keep})
    for op in ops:
        o, a = op[0], op[1:]
        if o == 'add_vertex':
            G.add_vertex(*a)
            V.add(a[0])
        elif o == 'add_vertices':
            G.add_vertices(*a)
            V.update(a[0])
        elif o == 'delete_vertex':
            G.delete_vertex(*a)
            rem(a[0])
        elif o == 'delete_vertices':
            G.delete_vertices(*a)
            for u in a[0]:
                rem(u)
        elif o == 'add_edge':
            G.add_edge(*a)
            e = a[0] if len(a) == 1 else a
            add(e[0], e[1], e[2] if len(e) == 3 else 1)
        elif o == 'add_edges':
            G.add_edges(*a)
            for e in a[0]:
                add(e[0], e[1], e[2] if len(e) == 3 else 1)
        elif o == 'delete_edge':
            G.delete_edge(*a)
            e = a[0] if len(a) == 1 else a
            E.pop(key(e[0], e[1]), None)
        elif o in ('remove_vertex', 'remove_vertices', 'remove_edge', 'remove_neighborhood', 'remove_closed_neighborhood', 'induced_subgraph', 'copy', 'complement'):
            W = want(V, E)
            if o == 'remove_edge':
                e = a[0] if len(a) == 1 else a
                k = {x: w for x, w in E.items() if x != key(e[0], e[1])}
                exp = want(V, k)
            elif o == 'complement':
                exp = {u: {v: 1 for v in V if v != u and v not in W[u]} for u in V}
            else:
                out = {'remove_vertex': lambda: {a[0]}, 'remove_vertices': lambda: set(a[0]), 'remove_neighborhood': lambda: set(W[a[0]]), 'remove_closed_neighborhood': lambda: set(W[a[0]]) | {a[0]},
                       'induced_subgraph': lambda: V - set(a[0]), 'copy': lambda: set()}[o]()
                exp = sub(V - out)
            H = getattr(G, o)(*a)
            if state(H) != exp:
                return '%s gives %r, expected %r' % (o, state(H), exp)
            if H.graph_dict is G.graph_dict or any(H.graph_dict[u] is G.graph_dict.get(u) for u in H.graph_dict):
                return '%s shares its adjacency with the graph' % o
        W = want(V, E)
        if state(G) != W:
            return 'after %r the adjacency is %r, expected %r' % (op, state(G), W)
        L = sorted(V)
        chk = [('vertices', G.vertices(), L), ('vertex_set', G.vertex_set(), V), ('num_vertices', G.num_vertices(), len(V)), ('num_edges', G.num_edges(), len(E)),
               ('edges', G.edges(), sorted(E)), ('edges(weights)', G.edges(weights=True), sorted(k + (w,) for k, w in E.items())), ('edge_set', G.edge_set(), set(E)),
               ('leaves', G.leaves(), {u for u in V if len(W[u]) == 1}), ('total_degree', G.total_degree(), 2 * len(E)), ('iter', set(G), V),
               ('vertices(reverse)', G.vertices(reverse=True), L[::-1]), ('degree', [G.degree(u) for u in L], [len(W[u]) for u in L]),
               ('neighbors', [G.neighbors(u) for u in L], [set(W[u]) for u in L]), ('neighborhood', [G.neighborhood(u) for u in L], [set(W[u]) for u in L]),
               ('closed_neighborhood', [G.closed_neighborhood(u) for u in L], [set(W[u]) | {u} for u in L]),
               ('adjacency_matrix', rows(G.adjacency_matrix(), len(L)) if L else [], [[int(v in W[u]) for v in L] for u in L]),
               ('degree_matrix', rows(G.degree_matrix(), len(L)) if L else [], [[len(W[u]) if u == v else 0 for v in L] for u in L]),
               ('laplacian_matrix', rows(G.laplacian_matrix(), len(L)) if L else [], [[len(W[u]) if u == v else -int(v in W[u]) for v in L] for u in L])]
        if len(V) > 1:
            chk.append(('density', G.density(), len(E) / (len(V) * (len(V) - 1) / 2)))
        degs = [len(W[u]) for u in L]
        if L:
            chk += [('maximum_degree', G.maximum_degree(), max(degs)), ('minimum_degree', G.minimum_degree(), min(degs)),
                    ('maximum_degree_vertex', len(W[G.maximum_degree_vertex()]), max(degs)), ('minimum_degree_vertex', len(W[G.minimum_degree_vertex()]), min(degs)),
                    ('total_degree(list)', G.total_degree(L[:2]), sum(degs[:2]))]
        else:
            for m in ('maximum_degree', 'minimum_degree', 'maximum_degree_vertex', 'minimum_degree_vertex'):
                try:
                    getattr(G, m)()
                    return m + ' of the empty graph must be a ValueError'
                except ValueError:
                    pass
        od = G.vertices(order='degree')
        chk.append(('vertices(order=degree)', (sorted(od), [len(W[u]) for u in od]), (L, sorted(degs))))
        oi = G.vertices(order='induced')
        chk.append(('vertices(order=induced) are all the vertices', sorted(oi), L))
        left = set(V)
        for u in oi:
            dg = {x: sum(y in left for y in W[x]) for x in left}
            if dg[u] != min(dg.values()):
                return 'order=induced takes a vertex that is not of minimum degree in what is left'
            left.discard(u)
        for nme, got, exp in chk:
            if got != exp:
                return 'after %r: %s is %r, expected %r' % (op, nme, got, exp)
    return True


def g_hist(R):
    for _ in range(R.n(1500, 15000)):
        names = R.rng.choice([range(5), 'abcde', range(-3, 4)])
        X = lambda: R.rng.choice(names)
        ops, V = [], set()
        for _ in range(R.rng.randint(1, 14)):
            o = R.rng.choice(['add_edge'] * 6 + ['add_edges', 'add_vertex', 'add_vertices', 'delete_vertex', 'delete_vertices', 'delete_edge', 'delete_edge', 'remove_vertex', 'remove_vertices', 'remove_edge',
                                                'remove_neighborhood', 'remove_closed_neighborhood', 'induced_subgraph', 'copy', 'complement'])
            two = lambda: R.rng.sample(list(names), 2)
            if o in ('add_edge', 'delete_edge', 'remove_edge'):
                u, v = two()
                w = R.rng.randint(-3, 9)
                op = R.rng.choice([(u, v), (u, v, w), ((u, v),), ((u, v, w),)] if o == 'add_edge' else [(u, v), ((u, v),), ((u, v, w),)])
                if o == 'add_edge':
                    V |= {u, v}
            elif o == 'add_edges':
                es = [tuple(two()) + R.rng.choice([(), (R.rng.randint(0, 9),)]) for _ in range(R.rng.randint(0, 3))]
                V |= {x for e in es for x in e[:2]}
                op = (es,)
            elif o in ('add_vertex', 'delete_vertex', 'remove_vertex'):
                op = (X(),)
                V = V | {op[0]} if o == 'add_vertex' else V - {op[0]} if o == 'delete_vertex' else V
            elif o in ('add_vertices', 'delete_vertices', 'remove_vertices'):
                op = ([X() for _ in range(R.rng.randint(0, 3))],)
                V = V | set(op[0]) if o == 'add_vertices' else V - set(op[0]) if o == 'delete_vertices' else V
            elif o in ('remove_neighborhood', 'remove_closed_neighborhood'):
                if not V:
                    continue
                op = (R.rng.choice(sorted(V)),)
            elif o == 'induced_subgraph':
                op = (R.rng.sample(sorted(V), R.rng.randint(0, len(V))),)
            else:
                op = ()
            ops.append((o,) + op)
        yield (ops,)


target('graph:history', history, g_hist, ok_if(lambda r, *a: r), bounds='histories of at most 14 operations on at most 7 vertices')
und = lambda G: {frozenset((u, v)) for u in G.graph_dict for v in G.graph_dict[u]}


def cons(kind, n):
    G = {'complete': complete_graph, 'coprime': coprime_pairs_graph, 'odd': odd_graph, 'grid': grid_graph, 'petersen': lambda n: petersen_graph()}[kind](n)
    d = G.graph_dict
    if any(u not in d[v] or d[u][v] != 1 or d[v][u] != 1 for u in d for v in d[u]):
        return 'adjacency is not symmetric with unit weights'
    from math import gcd, comb
    if kind == 'complete':
        ok = und(G) == {frozenset(e) for e in it.combinations(range(n), 2)}
    elif kind == 'coprime':
        ok = und(G) == {frozenset(e) for e in it.combinations(range(1, n + 1), 2) if gcd(*e) == 1}
    elif kind == 'grid':
        ok = und(G) == {frozenset((n * i + j, n * k + l)) for i in range(n) for j in range(n) for k in range(n) for l in range(n) if abs(i - k) + abs(j - l) == 1}
    elif kind == 'odd':
        v = [''.join(t) for t in it.combinations(''.join(map(str, range(2 * n - 1))), n - 1)]
        ok = set(d) == set(v) and und(G) == {frozenset((a, b)) for a in v for b in v if a != b and not set(a) & set(b)}
    else:
        ok = len(d) == 10 and all(len(x) == 3 for x in d.values()) and all(len({w for v in d[u] for w in d[v]} - {u}) == 6 and not any(w in d[u] for v in d[u] for w in d[v]) for u in d)
    return True if ok else 'not the graph described'


target('graph:constructors', cons, lambda R: it.chain(((k, n) for k in ('complete', 'coprime', 'grid') for n in range(2, R.n(9, 16))), (('odd', n) for n in (2, 3, 4)), [('petersen', 0)]), ok_if(lambda r, *a: r), bounds='sizes below 16')

# ---- traversal and connectivity ------------------------------------------------------------------


def g_start(R, depth=False):
    for g in graphs(300, 3000, 1, 8)(R):
        for s in (g[0] if len(g[0]) < 4 else [R.rng.choice(g[0])]):
            yield (g, s) + ((R.rng.choice([None, 0, 1, 2, 3, 9]),) if depth else ())


def bfs_ok(got, g, s, md=None):
    d = adj(g)
    D = hops(d, s)
    want = {v for v in D if md is None or D[v] <= md}
    if set(got) != want or len(got) != len(want):
        return 'must yield the vertices %r once each' % (want,)
    if got[0] != s or [D[v] for v in got] != sorted(D[v] for v in got):
        return 'vertices must come by increasing distance from the start'
    pos = {v: i for i, v in enumerate(got)}
    par = [min(pos[u] for u in d[v] if u in pos) for v in got[1:]]
    return True if par == sorted(par) else 'not a breadth-first order'


target('trav:breadth_first_search', on(lambda G, s, m: list(TR.breadth_first_search(G, s, m))), lambda R: g_start(R, True), ok_if(bfs_ok), bounds='at most 8 vertices')


def tree_ok(prev, g, s, bfs):
    d = adj(g)
    D = hops(d, s)
    if set(prev) != set(D) or prev[s] is not None:
        return 'must map the component of the start, the start to None'
    for v in prev:
        if v != s and (prev[v] not in d[v] or bfs and D[prev[v]] != D[v] - 1):
            return 'the parent of %r is wrong' % (v,)
    anc = {}
    for v in prev:
        p, u = [v], v
        while prev[u] is not None:
            u = prev[u]
            if u in p:
                return 'the parents form a cycle'
            p.append(u)
        anc[v] = set(p)
    if not bfs and any(u not in anc[v] and v not in anc[u] for u in prev for v in d[u]):
        return 'not a depth-first tree: an edge joins two unrelated vertices'
    return True


target('trav:breadth_first_search_tree', on(TR.breadth_first_search_tree), g_start, ok_if(lambda p, g, s: tree_ok(p, g, s, True)), bounds='at most 8 vertices')
target('trav:depth_first_search_tree', on(TR.depth_first_search_tree), g_start, ok_if(lambda p, g, s: tree_ok(p, g, s, False)), bounds='at most 8 vertices')


def dfs_ok(got, g, s, md=None):
    d = adj(g)
    D = hops(d, s)
    if len(set(got)) != len(got) or got[0] != s or not set(got) <= set(D):
        return 'must yield vertices of the component once each, the start first'
    if md is not None:
        return True if all(D[v] <= md for v in got) and (md < len(d) or set(got) == set(D)) and (md < 1 or set(d[s]) <= set(got)) else 'wrong vertices for the depth'
    if set(got) != set(D):
        return 'must yield the whole component'
    for i, j, k in it.combinations(range(len(got)), 3):
        a, b, c = got[i], got[j], got[k]
        if c in d[a] and b not in d[a] and not any(got[x] in d[b] for x in range(i + 1, j)):
            return 'not a depth-first order'
    return True


target('trav:depth_first_search', on(lambda G, s, m: list(TR.depth_first_search(G, s, m))), lambda R: g_start(R, True), ok_if(dfs_ok), bounds='at most 8 vertices')


def comps(g):
    d = adj(g)
    return {frozenset(comp_of(d, u)) for u in d}


def parts_ok(got, g):
    return True if len(got) == len(comps(g)) and {frozenset(c) for c in got} == comps(g) and all(len(set(c)) == len(c) for c in got) else 'the components are %r' % [sorted(map(str, c)) for c in comps(g)]


target('conn:connected_components', on(CN.connected_components), gs(300, 3000, 0, 9), ok_if(parts_ok), bounds='at most 9 vertices')
target('conn:connected_component', on(CN.connected_component), g_start, ok_if(lambda r, g, s: True if sorted(map(str, r)) == sorted(map(str, comp_of(adj(g), s))) else 'not the component'), bounds='at most 8 vertices')
target('conn:is_connected', on(CN.is_connected), gs(300, 3000, 0, 9), eq(connected), bounds='at most 9 vertices')

# ---- shortest paths ------------------------------------------------------------------------------


def fw(g):
    d = adj(g)
    D = {(u, v): 0 if u == v else d[u].get(v, INF) for u in d for v in d}
    for k in d:
        for u in d:
            for v in d:
                if D[u, k] + D[k, v] < D[u, v]:
                    D[u, v] = D[u, k] + D[k, v]
    return D


def g_sp(R, zero=False):
    for g in graphs(400, 4000, 1, 8)(R):
        yield g, R.rng.choice(g[0])


def sp_ok(got, g, s, total):
    dist, prev = got
    d, D = adj(g), fw(g)
    if set(dist) != set(d) or any(dist[v] != D[s, v] for v in d):
        return 'the distances are %r' % {v: D[s, v] for v in d}
    for v in d:
        p = prev[v] if total or v in prev else None
        if v == s or D[s, v] == INF:
            if p is not None:
                return 'the start and unreachable vertices have no predecessor'
        elif p not in d[v] or D[s, p] + d[p][v] != D[s, v]:
            return 'the predecessor of %r is not on a shortest path' % (v,)
    return True if set(prev) <= set(d) else 'foreign vertices in the predecessor map'


for _n, _t in (('dijkstra', 1), ('dijkstra_buckets', 0), ('dijkstra_pairing_heap', 0), ('bellman_ford', 1)):
    target('path:' + _n, on(getattr(PA, _n)), g_sp, ok_if((lambda t: lambda r, g, s: sp_ok(r, g, s, t))(_t)), bounds='at most 8 vertices, positive integer weights')


def spi_ok(got, g, s):
    d, D = adj(g), fw(g)
    if {u for u, _, _ in got} != {v for v in d if D[s, v] < INF} or len({u for u, _, _ in got}) != len(got):
        return 'must yield every reachable vertex once'
    ws = [w for _, w, _ in got]
    if ws != sorted(ws):
        return 'must yield by increasing distance'
    for u, w, p in got:
        if w != D[s, u]:
            return 'the distance of %r is %r' % (u, D[s, u])
        if p[0] != s or p[-1] != u or any(b not in d[a] for a, b in zip(p, p[1:])) or sum(d[a][b] for a, b in zip(p, p[1:])) != w:
            return 'not a shortest path to %r' % (u,)
    return True


target('path:dijkstra_iterator', on(lambda G, s: list(PA.dijkstra_iterator(G, s))), g_sp, ok_if(spi_ok), bounds='at most 8 vertices')


def g_st(R):
    for g in graphs(500, 5000, 1, 8)(R):
        yield g, R.rng.choice(g[0]), R.rng.choice(g[0])


def bi_ok(got, g, s, t):
    d, D = adj(g), fw(g)
    if D[s, t] == INF:
        return True if not isinstance(got, tuple) and got == INF else 'no path: expected inf'
    w, p = got
    if w != D[s, t]:
        return 'the distance is %r' % D[s, t]
    if p[0] != s or p[-1] != t or any(b not in d[a] for a, b in zip(p, p[1:])) or sum(d[a][b] for a, b in zip(p, p[1:])) != w:
        return 'not a shortest path'
    return True


target('path:dijkstra_bidirectional', on(PA.dijkstra_bidirectional), g_st, ok_if(bi_ok), bounds='at most 8 vertices')


def fw_ok(got, g):
    dist, pred = got
    d, D = adj(g), fw(g)
    if dist != D:
        return 'the distances are %r' % D
    for u in d:
        for v in d:
            p = pred[u, v]
            if u == v or D[u, v] == INF:
                if p is not None:
                    return 'no predecessor of %r from %r' % (v, u)
            elif p not in d[v] or D[u, p] + d[p][v] != D[u, v]:
                return 'the predecessor of %r from %r is not on a shortest path' % (v, u)
    return True


target('path:floyd_warshall', on(PA.floyd_warshall), gs(400, 4000, 1, 7), ok_if(fw_ok), bounds='at most 7 vertices')
for _n in ('dijkstra', 'dijkstra_iterator', 'dijkstra_buckets', 'dijkstra_pairing_heap', 'bellman_ford', 'dijkstra_bidirectional'):
    target('path:%s_errors' % _n, (lambda f, k: lambda g: (lambda r: list(r) if hasattr(r, '__next__') else r)(f(build(g), 'absent', *([g[0][0]] if k else []))))(getattr(PA, _n), _n.endswith('onal')),
           gs(5, 20, 1, 5, upto=2), eq_or_raise(lambda g: RAISE), bounds='a start outside the graph')
target('path:negative_cycles', on(lambda G, f: (PA.bellman_ford(G, next(iter(G))) if f else PA.floyd_warshall(G))),
       lambda R: (((g[0], [(u, v, -w if i == 0 else w) for i, (u, v, w) in enumerate(g[1])]), f) for _ in range(R.n(40, 400)) for f in (0, 1) for g in [rg(R, 2, 6, connected=True)]),
       eq_or_raise(lambda g, f: RAISE), bounds='an edge of negative weight in a connected graph')

# ---- spanning and Steiner trees ------------------------------------------------------------------


def all_trees(g):
    """weight-sorted list of (weight, edges) of the spanning trees"""
    V, E = g
    out = []
    for c in it.combinations(E, len(V) - 1):
        d = {u: {} for u in V}
        for u, v, w in c:
            d[u][v] = d[v][u] = w
        if len(comp_of(d, V[0])) == len(V):
            out.append((sum(w for _, _, w in c), sorted((min(u, v), max(u, v)) for u, v, _ in c)))
    return sorted(out)


def mst(g):
    """minimum spanning tree weight of the component of the first vertex, by Boruvka-free exhaustive exchange (Kruskal)"""
    V, E = g
    lab = {v: v for v in V}
    t = 0
    for u, v, w in sorted(E, key=lambda e: e[2]):
        if lab[u] != lab[v]:
            t += w
            a, b = lab[u], lab[v]
            for x in V:
                if lab[x] == a:
                    lab[x] = b
    return t


def tree_check(w, edges, g, vs):
    d = adj(g)
    if len(set(edges)) != len(edges) or any(u not in d or v not in d[u] for u, v in edges):
        return 'the edges are not distinct edges of the graph'
    if sum(d[u][v] for u, v in edges) != w:
        return 'the weight is not that of the edges'
    t = {u: {} for u in vs}
    for u, v in edges:
        if u not in t or v not in t:
            return 'an edge leaves the vertices to be spanned'
        t[u][v] = t[v][u] = 1
    if len(edges) != len(vs) - 1 or vs and len(comp_of(t, next(iter(vs)))) != len(vs):
        return 'the edges do not form a tree on the vertices'
    return True


def mst_ok(got, g, *a):
    w, edges = got
    r = tree_check(w, edges, g, set(g[0]))
    if r is not True:
        return r
    if edges != sorted((min(e), max(e)) for e in edges):
        return 'the edges must be sorted pairs in sorted order'
    return True if w == mst(g) else 'the minimum weight is %d' % mst(g)


def conn(R, k, t, lo, hi):
    for n in range(lo, 5):
        for g in every(n):
            if connected(g):
                yield g
    for _ in range(R.n(k, t)):
        yield rg(R, lo, hi, connected=True, wmax=R.rng.choice([2, 5, 20]))


target('span:prim', on(ST.prim), lambda R: ((g,) for g in conn(R, 300, 3000, 1, 9)), ok_if(mst_ok), bounds='connected, at most 9 vertices')


def primp_ok(got, g, root):
    w, prev = got
    if set(prev) != set(g[0]) or prev[root] is not None or any(prev[v] is None for v in prev if v != root):
        return 'must map every vertex, only the root to None'
    return mst_ok((w, sorted((min(u, v), max(u, v)) for u, v in prev.items() if v is not None)), g)


target('span:prim_tree', on(lambda G, r: ST.prim(G, r, edge_list=False)), lambda R: ((g, R.rng.choice(g[0])) for g in conn(R, 300, 3000, 1, 9)), ok_if(primp_ok), bounds='connected, at most 9 vertices')
target('span:kruskal', on(ST.kruskal), lambda R: ((g,) for g in conn(R, 300, 3000, 1, 9)), ok_if(mst_ok), bounds='connected, at most 9 vertices')
target('span:cheriton_tarjan', on(lambda G, s: (random.seed(s), ST.cheriton_tarjan(G))[1]), lambda R: ((g, R.rng.randint(0, 99)) for g in conn(R, 300, 3000, 1, 9)), ok_if(mst_ok), bounds='connected, at most 9 vertices')


def gab_ok(got, g, k):
    T = all_trees(g)
    n = len(T) if k is None else min(k, len(T))
    if [w for w, _ in got] != [w for w, _ in T[:n]]:
        return 'the weights in order are %r' % [w for w, _ in T[:n]]
    keys = [tuple(e) for _, e in got]
    if len(set(keys)) != len(keys):
        return 'a tree is repeated'
    have = {tuple(e): w for w, e in T}
    return True if all(have.get(tuple(e)) == w for w, e in got) else 'not the spanning trees of the graph'


target('span:gabow', on(lambda G, k: list(ST.gabow(G, k))), lambda R: ((g, R.rng.choice([None, None, 1, 2, 5])) for g in conn(R, 150, 1200, 2, 6) if len(g[1]) < 12), ok_if(gab_ok), bounds='connected, at most 6 vertices and 11 edges')


def steiner_opt(g, T):
    V, E = g
    best = INF
    rest = [v for v in V if v not in T]
    for r in range(len(rest) + 1):
        for x in it.combinations(rest, r):
            keep = set(T) | set(x)
            h = ([v for v in V if v in keep], [e for e in E if e[0] in keep and e[1] in keep])
            if connected(h):
                best = min(best, mst(h))
    return best


def steiner_ok(got, g, T):
    w, edges = got
    vs = {x for e in edges for x in e}
    if not set(T) <= vs:
        return 'a terminal is not spanned'
    r = tree_check(w, edges, g, vs)
    if r is not True:
        return r
    b = steiner_opt(g, T)
    if w > 2 * b * (1 - 1 / len(T)) + 1e-9:
        return 'weight above 2(1 - 1/|T|) times the optimum %d' % b
    deg = {x: sum(x in e for e in edges) for x in vs}
    return True if all(deg[x] > 1 or x in T for x in vs) else 'a leaf is not a terminal'


def g_ste(R):
    for _ in range(R.n(300, 3000)):
        g = rg(R, 3, 8, connected=True, wmax=R.rng.choice([2, 5, 20]))
        yield g, R.rng.sample(g[0], R.rng.randint(2, len(g[0])))


target('steiner:distance_network_heuristic', on(SR.distance_network_heuristic), g_ste, ok_if(steiner_ok), bounds='connected, at most 8 vertices')
target('steiner:minimum_cost_paths_heuristic', on(SR.minimum_cost_paths_heuristic), g_ste, ok_if(steiner_ok), bounds='connected, at most 8 vertices')

# ---- cliques and independent sets ----------------------------------------------------------------


def is_clique(d, s):
    return all(v in d[u] for u, v in it.combinations(s, 2))


def max_cliques(g):
    d = adj(g)
    out = []
    V = list(d)
    for r in range(1, len(V) + 1):
        for s in it.combinations(V, r):
            if is_clique(d, s) and not any(all(v in d[u] for u in s) for v in V if v not in s):
                out.append(frozenset(s))
    return set(out)


def mc_ok(got, g):
    w = max_cliques(g)
    return True if len(got) == len(w) and {frozenset(c) for c in got} == w and all(len(set(c)) == len(c) for c in got) else 'the maximal cliques are %r' % [sorted(map(str, c)) for c in w]


for _n in ('bron_kerbosch', 'bron_kerbosch_binary', 'tomita'):
    target('clique:' + _n, on((lambda n: lambda G: list(CL.maximal_cliques(G, algorithm=n)))(_n)), gs(250, 2000, 1, 8, wmax=1), ok_if(mc_ok), bounds='at most 8 vertices')


def clique_num(g):
    return max(map(len, max_cliques(g)))


def mx_ok(got, g):
    k, c = got
    if len(c) != k or len(set(c)) != k or not set(c) <= set(g[0]) or not is_clique(adj(g), c):
        return 'not a clique of the stated size'
    return True if k == clique_num(g) else 'the largest clique has %d vertices' % clique_num(g)


for _n in ('pardalos', 'pardalos_binary', 'ostergard', 'ostergard_binary', 'maximum_clique'):
    target('clique:' + _n, on(getattr(CL, _n)), gs(250, 2000, 1, 8, wmax=1), ok_if(mx_ok), bounds='at most 8 vertices')


def mw_ok(got, g, wm):
    w, c = got
    wt = wm if wm is not None else {u: u for u in g[0]}
    if len(set(c)) != len(c) or not is_clique(adj(g), c) or sum(wt[u] for u in c) != w:
        return 'not a clique of the stated weight'
    b = max(sum(wt[u] for u in s) for s in max_cliques(g))
    return True if w == b else 'the largest weight is %d' % b


def g_mw(R):
    for g in graphs(400, 3000, 1, 8, upto=3, wmax=1, names=False)(R):
        yield g, R.rng.choice([None, {u: R.rng.randint(1, 12) for u in g[0]}])


target('clique:maximum_weight_clique', on(CL.maximum_weight_clique), g_mw, ok_if(mw_ok), bounds='at most 8 vertices, positive weights')
co = lambda g: (g[0], [(u, v, 1) for u, v in it.combinations(g[0], 2) if v not in adj(g)[u]])
for _n in ('branch_and_bound', 'maximum_independent_set'):
    target('indep:' + _n, on(getattr(IS, _n)), gs(250, 2000, 1, 8, wmax=1), ok_if(lambda r, g: mx_ok(r, co(g))), bounds='at most 8 vertices')


def is_ok(got, g, *a):
    k, s = got
    d = adj(g)
    if len(s) != k or len(set(s)) != k or not set(s) <= set(d) or any(v in d[u] for u in s for v in s):
        return 'not an independent set of the stated size'
    return True if all(u in s or any(v in s for v in d[u]) for u in d) else 'the set is not maximal'


target('indep:greedy', on(lambda G, s: (random.seed(s), IS.greedy(G))[1]), lambda R: ((g, R.rng.randint(0, 99)) for g in graphs(300, 3000, 1, 9, wmax=1)(R)), ok_if(is_ok), bounds='at most 9 vertices')
target('indep:culberson', on(IS.culberson), gs(200, 1500, 1, 7, wmax=1), ok_if(lambda r, g: True if len(r[1]) == r[0] and len(set(r[1])) == r[0] and not any(v in adj(g)[u] for u in r[1] for v in r[1]) else 'not an independent set of the stated size'), bounds='at most 7 vertices')
target('indep:maximal_independent_sets', on(lambda G: list(IS.maximal_independent_sets(G))), gs(200, 1500, 1, 8, wmax=1), ok_if(lambda r, g: mc_ok(r, co(g))), bounds='at most 8 vertices')

# ---- colorings -----------------------------------------------------------------------------------


def chromatic(g):
    d = adj(g)
    V = sorted(d, key=lambda u: -len(d[u]))
    for k in range(1, len(V) + 1):
        c = {}

        def go(i, used):
            if i == len(V):
                return True
            for x in range(min(used + 1, k)):
                if all(c.get(v) != x for v in d[V[i]]):
                    c[V[i]] = x
                    if go(i + 1, max(used, x + 1)):
                        return True
                    del c[V[i]]
            return False
        if go(0, 0):
            return k
    return 0


def col_ok(got, g, classes, exact):
    k, c = got
    d = adj(g)
    if classes:
        if len(c) != k or any(not x for x in c):
            return 'there must be as many non-empty classes as colours'
        m = {}
        for i, x in enumerate(c):
            for u in x:
                if u in m:
                    return 'a vertex is in two classes'
                m[u] = i
    else:
        m = c
        if len(set(m.values())) != k:
            return 'the number of colours used is not the one returned'
    if set(m) != set(d):
        return 'every vertex must be coloured'
    if any(m[u] == m[v] for u in d for v in d[u]):
        return 'adjacent vertices share a colour'
    if exact and k != chromatic(g):
        return 'the chromatic number is %d' % chromatic(g)
    return True


def g_col(R):
    for g in graphs(350, 3000, 1, 8, wmax=1)(R):
        yield g, R.rng.choice([True, False])


for _n, _e in (('dsatur', 0), ('branch_and_bound', 1), ('korman', 1), ('exact_coloring', 1)):
    target('color:' + _n, on((lambda f: lambda G, c: f(G, classes=c))(getattr(CO, _n))), g_col, ok_if((lambda e: lambda r, g, c: col_ok(r, g, c, e))(_e)), bounds='at most 8 vertices', limit=15)
target('color:greedy_sequential', on(lambda G, c, p, vs: CO.greedy_sequential(G, vertices=vs, passes=p, classes=c)),
       lambda R: ((g, c, R.rng.randint(1, 3), R.rng.choice([None, R.rng.sample(g[0], len(g[0]))])) for g, c in g_col(R)), ok_if(lambda r, g, c, p, vs: col_ok(r, g, c, 0)), bounds='at most 8 vertices')
target('color:maxis', on(lambda G, c, l, m, gr: CO.maxis(G, classes=c, color_limit=l, mis_limit=m, use_greedy=gr)),
       lambda R: ((g, c, R.rng.randint(0, 6), R.rng.randint(0, 8), R.rng.choice([True, False])) for g, c in g_col(R)), ok_if(lambda r, g, c, *a: col_ok(r, g, c, 0)), bounds='at most 8 vertices', limit=15)

# ---- Hamiltonian paths ---------------------------------------------------------------------------


def ham(g):
    d = adj(g)
    return [list(p) for p in it.permutations(d) if all(b in d[a] for a, b in zip(p, p[1:]))]


hg = gs(120, 1000, 1, 6, wmax=1)
for _n in ('hamiltonian_paths', 'hamiltonian_paths_con'):
    target('ham:' + _n, on((lambda f: lambda G: [list(p) for p in f(G)])(getattr(HP, _n))), hg, ok_if(lambda r, g: True if len(r) == len(ham(g)) and {tuple(p) for p in r} == {tuple(p) for p in ham(g)} else 'there are %d Hamiltonian paths' % len(ham(g))), bounds='at most 6 vertices')
for _n in ('number_of_hamiltonian_paths', 'number_of_hamiltonian_paths_bits', 'number_of_hamiltonian_paths_bits_con', 'number_of_hamiltonian_paths5'):
    target('ham:' + _n, on(getattr(HP, _n)), hg, eq(lambda g: len(ham(g))), bounds='at most 6 vertices')

# ---- degree sequences ----------------------------------------------------------------------------


@lru_cache(None)
def degseqs(n):
    out = set()
    for g in every(n):
        d = adj(g)
        out.add(tuple(sorted((len(d[u]) for u in d), reverse=True)))
    return out


def erdos(S):
    T = sorted(S, reverse=True)
    n = len(T)
    if n <= 5:
        return tuple(T) in degseqs(n)
    return sum(T) % 2 == 0 and min(T) >= 0 and all(sum(T[:k]) <= k * (k - 1) + sum(min(t, k) for t in T[k:]) for k in range(1, n + 1))


def g_deg(R):
    for n in range(1, 5):
        for S in it.product(range(n + 1), repeat=n):
            yield (list(S),)
    for _ in range(R.n(400, 4000)):
        n = R.rng.randint(4, 10)
        yield ([R.rng.randint(0, R.rng.choice([n - 1, n // 2, 2])) for _ in range(n)],)


silent = lambda f: lambda *a: _silent(f, *a)


def _silent(f, *a):
    b = io.StringIO()
    with redirect_stdout(b):
        r = f(*a)
    if b.getvalue():
        raise Changed('it prints')
    return r


target('deg:is_graphic', silent(DS.is_graphic), g_deg, eq(erdos), bounds='at most 10 entries')
target('deg:is_graphic_erdos_gallai', DS.is_graphic_erdos_gallai, g_deg, eq(erdos), bounds='at most 10 entries')
