"""Executable contracts: combinatorial optimisation, exact cover and puzzles."""
import io
import itertools as it
import random
from collections import Counter
from contextlib import redirect_stdout
from functools import lru_cache
from math import isclose
from replay.base import ok_if, eq, target
from rosemary.combinatorics.optimization import exact_cover as X
from rosemary.combinatorics.optimization import knapsack as K
from rosemary.combinatorics.optimization import tsp as T
from rosemary.combinatorics.optimization import genetic_tsp as G
from rosemary.combinatorics.recreational import alphametics as A


def quiet(f, *a):
    with redirect_stdout(io.StringIO()):
        return f(*a)


# ---- knapsack -----------------------------------------------------------------------------------

def opt(items, cap):
    best = 0
    for r in range(len(items) + 1):
        for s in it.combinations(items, r):
            if sum(w for _, w in s) <= cap:
                best = max(best, sum(v for v, _ in s))
    return best


def sol_ok(got, items, cap):
    v, used = got
    used = [tuple(u) for u in used]
    if Counter(used) - Counter(items):
        return 'the items used are not among the given ones (with multiplicity)'
    if sum(w for _, w in used) > cap:
        return 'the items used weigh more than the capacity'
    if sum(x for x, _ in used) != v:
        return 'the value is not that of the items used'
    b = opt(items, cap)
    return True if v == b else 'the maximum is %d' % b


def g_knap(R):
    for n in range(0, 4):
        for items in it.product([(1, 1), (2, 1), (3, 2), (2, 3)], repeat=n):
            for cap in range(0, 6):
                yield list(items), cap
    for _ in range(R.n(1500, 9000)):
        n = R.rng.randint(1, 9)
        m = R.rng.choice([3, 10, 60])
        yield [(R.rng.randint(1, m), R.rng.randint(1, m)) for _ in range(n)], R.rng.randint(0, m * 3)


target('opt:knapsack_depth_first', K.depth_first, g_knap, ok_if(sol_ok), bounds='at most 9 items')
target('opt:knapsack_dynamic_programming', K.dynamic_programming, g_knap, ok_if(sol_ok), bounds='at most 9 items')


def bb_ok(got, items, cap):
    v, used = got
    if len({u[2] for u in used}) != len(used) or any(tuple(u[:2]) != items[u[2]] for u in used):
        return 'each used triple must be (value, weight, index) of a different item'
    return sol_ok((v, [u[:2] for u in used]), items, cap)


target('opt:knapsack_branch_and_bound', K.branch_and_bound_depth_first, g_knap, ok_if(bb_ok), bounds='at most 9 items')


def sa_ok(got, items, cap):
    v, x = got
    if len(x) != len(items) or any(e not in (0, 1) for e in x):
        return 'the choice must be a 0/1 vector'
    if sum(i[1] for i, e in zip(items, x) if e) > cap:
        return 'the items used weigh more than the capacity'
    return True if sum(i[0] for i, e in zip(items, x) if e) == v else 'the value is not that of the items used'


target('opt:knapsack_simulated_annealing', lambda items, cap, s: (random.seed(s), K.simulated_annealing(items, cap))[1],
       lambda R: ((i, c, k) for k in range(R.n(3, 12)) for i, c in [([(R.rng.randint(1, 20), R.rng.randint(1, 20)) for _ in range(R.rng.randint(1, 9))], R.rng.randint(0, 60))]),
       ok_if(lambda got, i, c, s: sa_ok(got, i, c)), bounds='at most 9 items', limit=20)

# ---- travelling salesman ------------------------------------------------------------------------


def dist(pts):
    return [[((a - c) ** 2 + (b - d) ** 2) ** .5 for c, d in pts] for a, b in pts]


def tour(p, D):
    return sum(D[p[i - 1]][p[i]] for i in range(len(p)))


def best_tour(D):
    return min(tour((0,) + p, D) for p in it.permutations(range(1, len(D))))


def tour_ok(exact):
    def ok(got, pts, D=None):
        v, p = got
        D = dist(pts) if D is None else D
        if sorted(p) != list(range(len(pts))):
            return 'the path must visit every point once'
        if not isclose(v, tour(p, D), rel_tol=1e-9, abs_tol=1e-6):
            return 'the path returned costs %r' % tour(p, D)
        if exact and not isclose(v, best_tour(D), rel_tol=1e-9, abs_tol=1e-6):
            return 'the shortest tour costs %r' % best_tour(D)
        return True
    return ok


def g_tsp(lo, hi, k, k2):
    def gen(R):
        for _ in range(R.n(k, k2)):
            n = R.rng.randint(lo, hi)
            m = R.rng.choice([3, 10, 1000])
            pts = [(R.rng.randint(0, m), R.rng.randint(0, m)) for _ in range(n)]
            if R.rng.random() < .5:
                yield (pts,)
            else:
                M = [[float('inf')] * n for _ in range(n)]
                for i in range(n):
                    for j in range(i):
                        M[i][j] = M[j][i] = R.rng.randint(1, m)
                yield pts, M
    return gen


def flat(D, p):
    return (D, p)


target('opt:tsp_depth_first', T.depth_first, g_tsp(2, 7, 400, 2000), ok_if(tour_ok(True)), bounds='at most 7 points')
target('opt:tsp_branch_and_bound', T.branch_and_bound, g_tsp(2, 7, 400, 2000), ok_if(tour_ok(True)), bounds='at most 7 points')
target('opt:tsp_farthest_insertion', T.farthest_insertion, g_tsp(2, 14, 600, 4000), ok_if(tour_ok(False)), bounds='at most 14 points')
target('opt:tsp_steepest_ascent_two_opt', T.steepest_ascent_two_opt, g_tsp(3, 14, 600, 4000), ok_if(tour_ok(False)), bounds='at most 14 points')
target('opt:tsp_two_opt', T.two_opt, g_tsp(3, 14, 600, 4000), ok_if(tour_ok(False)), bounds='at most 14 points')


def g_gen(R):
    for s in range(R.n(4, 30)):
        n = R.rng.randint(20, 26)
        m = R.rng.choice([12, 100])
        pts = [list(p) for p in R.rng.sample([(i, j) for i in range(m) for j in range(m)], n)]
        yield pts, 4, 6, s


target('opt:genetic_tsp', lambda pts, pop, c, s: (random.seed(s), quiet(G.TravelingSalesman(pts).solve, pop, c))[1], g_gen, ok_if(lambda got, pts, *a: tour_ok(False)(got, pts)), bounds='20..26 points, population 4, 6 rounds', limit=30)

# ---- exact cover --------------------------------------------------------------------------------


def covers(universe, sets):
    """Index sets of the exact covers by non-empty sets, each once."""
    out = []

    def go(left, i, used):
        if not left:
            out.append(tuple(used))
            return
        for j in range(i, len(sets)):
            if sets[j] and sets[j] <= left:
                go(left - sets[j], j + 1, used + [j])
    go(frozenset(universe), 0, [])
    return out


def g_cover(R):
    U = [1, 2, 3]
    subsets = [frozenset(s) for r in range(1, 4) for s in it.combinations(U, r)]
    for r in range(0, 4):
        for c in it.combinations(subsets, r):
            yield set(U), [set(s) for s in c]
    for _ in range(R.n(1500, 9000)):
        n = R.rng.randint(1, 8)
        U = list(range(n)) if R.rng.random() < .5 else list('abcdefgh'[:n])
        sets = [set(R.rng.sample(U, min(n, R.rng.choice([1, 1, 2, 2, 3, 4])))) for _ in range(R.rng.randint(1, 9))]
        yield set(U), sets


def cover_ok(got, U, sets):
    want = sorted(sorted(sorted(map(repr, sets[i])) for i in c) for c in covers(U, [frozenset(s) for s in sets]))
    have = sorted(sorted(sorted(map(repr, s)) for s in c) for c in got)
    return True if have == want else 'there are %d exact covers: %r' % (len(want), want[:6])


target('cover:algorithmx', lambda U, s: list(X.algorithmx(U, s)), g_cover, ok_if(cover_ok), bounds='at most 9 sets over 8 elements')
target('cover:algorithm_dlx', lambda U, s: list(X.algorithm_dlx(U, s)), g_cover, ok_if(cover_ok), bounds='at most 9 sets over 8 elements')


def g_bin(R):
    for r in range(0, 5):
        for c in it.combinations(range(1, 8), r):
            yield (list(c),)
    for _ in range(R.n(1500, 9000)):
        n = R.rng.randint(1, 9)
        L = [sum(1 << b for b in R.rng.sample(range(n), min(n, R.rng.choice([1, 1, 2, 2, 3])))) for _ in range(R.rng.randint(1, 10))]
        yield (L,)


def bits(L):
    n = max([x.bit_length() for x in L] or [0])
    return range(n), [frozenset(i for i in range(n) if x >> i & 1) for x in L]


target('cover:binary_number', lambda L: X.ExactCoverBinary(L).number_of_solutions(), g_bin, eq(lambda L: len(covers(*bits(L)))), bounds='at most 10 integers of 9 bits')
target('cover:binary_solutions', lambda L: list(X.ExactCoverBinary(L).solutions()), g_bin,
       ok_if(lambda got, L: True if sorted(sorted(s) for s in got) == sorted(sorted(L[i] for i in c) for c in covers(*bits(L))) else 'not the exact covers'), bounds='at most 10 integers of 9 bits')


def langford(n):
    def go(seq, k):
        if k == 0:
            return 1
        t = 0
        for i in range(2 * n - k - 1):
            if not seq[i] and not seq[i + k + 1]:
                seq[i] = seq[i + k + 1] = k
                t += go(seq, k - 1)
                seq[i] = seq[i + k + 1] = 0
        return t
    return go([0] * (2 * n), n) // 2


target('cover:langford_pairings', X.langford_pairings, lambda R: ((n,) for n in range(1, R.n(8, 9))), eq(langford), bounds='n < 9')


def dominoes(n):
    @lru_cache(None)
    def go(i, mask):           # broken profile, cell i, mask of the next n cells
        if i == n * n:
            return mask == 0
        if mask & 1:
            return go(i + 1, mask >> 1)
        t = 0
        if i + n < n * n:
            t += go(i + 1, (mask | 1 << n) >> 1)
        if (i + 1) % n and not mask & 2:
            t += go(i + 1, (mask | 2) >> 1)
        return t
    return int(go(0, 0))


target('cover:domino_tilings', X.domino_tilings, lambda R: ((n,) for n in range(1, R.n(8, 9))), eq(dominoes), bounds='n < 9')
LATIN = {1: 1, 2: 2, 3: 12, 4: 576}
target('cover:latin_squares', lambda n: X.ExactCoverBinary(X.latin_square_ints(n)).number_of_solutions(), lambda R: ((n,) for n in range(1, R.n(4, 5))), eq(LATIN.get), bounds='n <= 4', limit=120)


def grid(R):
    r = R.rng
    g = lambda: [i * 3 + j for i in r.sample(range(3), 3) for j in r.sample(range(3), 3)]
    rows, cols, d = g(), g(), r.sample(range(1, 10), 9)
    return [[d[(3 * (a % 3) + a // 3 + b) % 9] for b in cols] for a in rows]


def g_sud(R):
    for _ in range(R.n(60, 300)):
        M = grid(R)
        k = R.rng.choice([0, 20, 30, 40, 45])
        z = set(R.rng.sample(range(81), k))
        yield (''.join('0' if i in z else str(M[i // 9][i % 9]) for i in range(81)),)


def sud_ok(got, a):
    if len(got) != 81 or any(x != '0' and x != y for x, y in zip(a, got)):
        return 'the solution must extend the given digits'
    full = set('123456789')
    for i in range(9):
        if set(got[9 * i:9 * i + 9]) != full or set(got[i::9]) != full:
            return 'a row or column does not hold every digit'
        r, c = divmod(i, 3)
        if set(got[9 * (3 * r + k) + 3 * c + j] for k in range(3) for j in range(3)) != full:
            return 'a block does not hold every digit'
    return True


target('cover:sudoku', X.sudoku_dlx, g_sud, ok_if(sud_ok), bounds='solvable grids with at most 45 blanks', limit=30)

# ---- alphametics --------------------------------------------------------------------------------


def alpha(lhs, rhs):
    ch = sorted(set(''.join(lhs + rhs)))
    first = {w[0] for w in lhs + rhs}
    out = []
    for p in it.permutations(range(10), len(ch)):
        m = dict(zip(ch, p))
        if any(m[c] == 0 for c in first):
            continue
        val = lambda w: int(''.join(str(m[c]) for c in w))
        L, Rr = [val(w) for w in lhs], [val(w) for w in rhs]
        if sum(L) == sum(Rr):
            out.append((L, Rr))
    return sorted(out)


def g_alpha(R):
    yield ['a'], ['a']
    yield ['ab'], ['ba']
    for _ in range(R.n(40, 400)):
        k = R.rng.randint(1, 5)
        al = 'abcdefg'[:k]
        w = lambda: ''.join(R.rng.choice(al) for _ in range(R.rng.randint(1, 4)))
        yield [w() for _ in range(R.rng.randint(1, 3))], [w() for _ in range(R.rng.randint(1, 2))]


target('puz:alphametics', lambda a, b: list(A.solve(a, b)), g_alpha, ok_if(lambda got, a, b: True if sorted(got) == alpha(a, b) else 'there are %d solutions: %r' % (len(alpha(a, b)), alpha(a, b)[:4])), bounds='at most 5 letters')
