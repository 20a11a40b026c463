"""Executable contracts: enumeration and generation of combinatorial objects."""
import itertools as it
from fractions import Fraction
from functools import lru_cache
from math import comb, factorial, gcd
from replay.base import RAISE, eq, eq_or_raise, ok_if, target
from rosemary.combinatorics.enumeration import enumeration as E
from rosemary.combinatorics.generation import combinations as CO
from rosemary.combinatorics.generation import partitions as PA
from rosemary.combinatorics.generation import permutations as PE
from rosemary.combinatorics.generation import tuples as TU


def g_upto(q, t=None):
    return lambda R: ((n,) for n in range(R.n(q, t or q)))


@lru_cache(None)
def stir2(n, k):
    if n == k:
        return 1
    if k == 0 or k > n:
        return 0
    return k * stir2(n - 1, k) + stir2(n - 1, k - 1)


def bell(n):
    return sum(stir2(n, k) for k in range(n + 1))


target('enum:bell_number', E.bell_number, lambda R: ((n,) for n in range(-3, R.n(90, 250))), eq_or_raise(lambda n: RAISE if n < 0 else bell(n)), bounds='n < 250')
target('enum:stirling_number2', E.stirling_number2, lambda R: ((m, n) for m in range(R.n(28, 60)) for n in range(m + 4)), eq(stir2), bounds='m < 60')


def g_binom(R):
    for n in range(R.n(45, 120)):
        for k in range(n + 4):
            yield n, k
    for _ in range(R.n(60, 600)):
        n = R.rng.randint(100, 3000)
        yield n, R.rng.randint(0, n + 5)


target('enum:binomial', E.binomial, g_binom, eq(comb), bounds='n <= 3000')


def multi(n, k):
    if not k or sum(k) > n:
        return RAISE
    r = factorial(n)
    for e in k:
        r //= factorial(e)
    return r


def g_multi(R):
    for n in range(1, 9):
        for l in range(0, 4):
            for k in it.product(range(1, 6), repeat=l):
                yield n, list(k)
    for _ in range(R.n(300, 3000)):
        k = [R.rng.randint(1, 40) for _ in range(R.rng.randint(1, 6))]
        yield sum(k) + R.rng.choice([0, 0, 0, 1, 5, -1]), R.rng.choice([list, tuple])(k)


target('enum:multinomial', E.multinomial, g_multi, eq_or_raise(multi), bounds='up to 6 parts of at most 40')


@lru_cache(None)
def parts(n, m):
    if n == 0:
        return 1
    return sum(parts(n - k, k) for k in range(1, min(n, m) + 1))


PN = [1]


def pn(n):
    """p(n) from the parts one at a time."""
    if len(PN) <= n:
        N = max(n, 2 * len(PN))
        v = [1] + [0] * N
        for k in range(1, N + 1):
            for i in range(k, N + 1):
                v[i] += v[i - k]
        PN[:] = v
    return PN[n]


target('enum:partition_list', E.partition_list, g_upto(160, 700), eq(lambda n: [pn(k) for k in range(n + 1)]), bounds='n < 700')
target('enum:partition_number', E.partition_number, lambda R: it.chain(((n,) for n in range(R.n(200, 700))), ((n,) for n in (1000, 2501, R.n(2600, 6000)))), eq(pn), bounds='n <= 6000')


def bipart(m, n):
    v = [[0] * (n + 1) for _ in range(m + 1)]
    v[0][0] = 1
    for a in range(m + 1):
        for b in range(n + 1):
            if a + b:
                for i in range(a, m + 1):
                    for j in range(b, n + 1):
                        v[i][j] += v[i - a][j - b]
    return v[m][n]


target('enum:bipartitions', E.bipartitions, lambda R: ((m, n) for m in range(R.n(10, 18)) for n in range(R.n(10, 18))), eq(bipart), bounds='m, n < 18')


def rpow(r, n):
    v = [1] + [0] * n
    for _ in range(r):
        v = [sum(pn(k) * v[i - k] for k in range(i + 1)) for i in range(n + 1)]
    return v[n]


target('enum:rth_power_partition_number', E.rth_power_partition_number, lambda R: ((r, n) for r in range(1, R.n(7, 12)) for n in range(R.n(22, 45))), eq(rpow), bounds='r < 12, n < 45')


def tilings(shapes, m, n):
    """Number of exact covers of the m x n board, row-major cell order, by bit masks."""
    cells = m * n

    @lru_cache(None)
    def go(mask):
        if mask == (1 << cells) - 1:
            return 1
        c = 0
        while mask >> c & 1:
            c += 1
        i, j = divmod(c, n)
        t = 0
        for s in shapes:
            b = 0
            for di, dj in s:
                if not (0 <= i + di < m and 0 <= j + dj < n):
                    break
                b |= 1 << ((i + di) * n + j + dj)
            else:
                if not mask & b:
                    t += go(mask | b)
        return t
    return go(0)


DOM = [((0, 0), (0, 1)), ((0, 0), (1, 0))]
TRI = [((0, 0), (0, 1), (0, 2)), ((0, 0), (1, 0), (2, 0)), ((0, 0), (0, 1), (1, 0)), ((0, 0), (0, 1), (1, 1)), ((0, 0), (1, 0), (1, 1)), ((0, 0), (1, 0), (1, -1))]
target('enum:number_of_domino_tilings', E.number_of_domino_tilings, lambda R: ((m, n) for m in range(1, 8) for n in range(1, 8) if m * n <= R.n(36, 42)), eq(lambda m, n: tilings(DOM, m, n)), bounds='m n <= 42')
target('enum:triomino_tilings', E.triomino_tilings, lambda R: ((m, n) for m in range(1, 9) for n in range(1, 9) if m * n <= R.n(24, 36)), eq(lambda m, n: tilings(TRI, m, n)), bounds='m n <= 36')


def neck(n, k, w=None):
    """Burnside over the n rotations."""
    t = 0
    for r in range(n):
        c = gcd(r, n)            # cycles, each of length n / c
        if w is None:
            t += k ** c
        elif all(e % (n // c) == 0 for e in w):
            t += multi(c, [e * c // n for e in w])
    return t // n


def g_neck(R):
    for n in range(1, R.n(40, 100)):
        for k in range(2, 7):
            yield n, k
    for _ in range(R.n(150, 2000)):
        g = R.rng.choice([1, 1, 2, 3, 4, 6, 12])
        w = [g * R.rng.randint(1, 4) for _ in range(R.rng.randint(2, 5))]
        yield sum(w), len(w), R.rng.choice([list, tuple])(w)


target('enum:necklaces', E.necklaces, g_neck, eq(neck), bounds='n < 100, k < 7 and weight vectors of up to 5 colours')

# ---- generation --------------------------------------------------------------------------------



def g_tup(R):
    for n in range(0, 6):
        yield (n,)
        for b in range(1, 5):
            if b ** n <= 300:
                yield n, b
    for n in range(1, 5):
        for M in it.product(range(1, 5), repeat=n):
            yield n, list(M)
    for n in range(5, 8):
        for _ in range(R.n(10, 80)):
            yield n, [R.rng.choice([1, 1, 2, 2, 3]) for _ in range(n)]


def tup(n, M=None):
    M = [2] * n if M is None else [M] * n if isinstance(M, int) else M
    return [list(t) for t in it.product(*map(range, M))]


target('gen:n_tuples', lambda *a: list(TU.n_tuples(*a)), g_tup, eq(tup), bounds='n < 8')


def comb_(n, t):
    c = [list(x)[::-1] for x in it.combinations(range(n), t)]
    return sorted(c)


target('gen:combinations', lambda n, t: list(CO.combinations(n, t)), lambda R: ((n, t) for n in range(R.n(11, 15)) for t in range(n + 1)), eq(comb_), bounds='n < 15, all t <= n')



def all_parts(n, m, allowed, distinct):
    if n == 0:
        yield []
        return
    for p in range(min(n, m), 0, -1):
        if p in allowed:
            for r in all_parts(n - p, p - distinct, allowed, distinct):
                yield [p] + r


def pa_ok(n, kws, got):
    al = set(kws['parts']) if 'parts' in kws else set(range(1, n + 1))
    want = [p for p in all_parts(n, n, al, 1 if kws.get('distinct') else 0) if not kws.get('num_parts') or len(p) == kws['num_parts']]
    if sorted(want) != sorted(got):
        return 'expected the partitions %r in some order' % sorted(want)
    return True


def g_part(R):
    for n in range(0, R.n(14, 22)):
        yield n, {}
        yield n, {'distinct': True}
        for m in range(0, n + 3):
            yield n, {'num_parts': m}
            if n < 13:
                yield n, {'num_parts': m, 'distinct': True}
    for _ in range(R.n(400, 4000)):
        n = R.rng.randint(0, 16)
        k = {}
        if R.rng.random() < .85:
            k['parts'] = R.rng.sample(range(1, n + 3), R.rng.randint(1, min(6, n + 2)))
        if R.rng.random() < .5:
            k['distinct'] = R.rng.random() < .8
        if R.rng.random() < .5:
            k['num_parts'] = R.rng.randint(0, 6)
        yield n, k


target('gen:integer_partitions', lambda n, k: [list(p) for p in PA.integer_partitions(n, **k)], g_part, ok_if(lambda got, n, k: pa_ok(n, k, got)), bounds='n < 22 with every combination of constraints')


def g_ms(R):
    for n in range(1, 5):
        for w in it.product(range(4), repeat=n):
            yield (list(w),)
    for n in (5, 6):
        for _ in range(R.n(25, 250)):
            w = [R.rng.randint(-3, 4) for _ in range(n)]
            yield (w,)
    for _ in range(R.n(1, 8)):
        yield ([R.rng.randint(0, 3) for _ in range(7)],)
    yield (list('banana'),)
    yield (['b', 'a', 'c', 'd'],)


perms = lambda w: [list(p) for p in sorted(set(it.permutations(w)))]
pure = lambda f: lambda w, *a: (lambda keep: (lambda r: r if w == keep else 'input was modified')([list(x) for x in f(w, *a)]))(list(w))
target('gen:phillips', pure(PE.phillips), g_ms, eq(perms), bounds='multisets of at most 7 elements')
target('gen:knuth_algorithm_l', pure(PE.knuth_algorithm_l), g_ms, eq(perms), bounds='multisets of at most 7 elements')


def variations(w):
    return [list(p) for p in sorted(set(p for r in range(len(w) + 1) for p in it.permutations(w, r)))]


def g_small(R):
    for n in range(1, 4):
        for w in it.product(range(3), repeat=n):
            yield (list(w),)
    for n in (4, 5):
        for _ in range(R.n(15, 120)):
            yield ([R.rng.randint(-2, 3) for _ in range(n)],)
    yield (list('abca'),)


target('gen:knuth_algorithm_l_variations', pure(PE.knuth_algorithm_l_variations), g_small, eq(variations), bounds='multisets of at most 5 elements')
target('gen:knuth_algorithm_l_rvariations', pure(PE.knuth_algorithm_l_rvariations), lambda R: ((w, r) for (w,) in g_small(R) for r in range(1, len(w) + 1)),
       eq(lambda w, r: [list(p) for p in sorted(set(it.permutations(w, r)))]), bounds='multisets of at most 5 elements, all r')
