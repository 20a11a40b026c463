"""Executable contracts of rosemary.number_theory.primes.prime_counting."""
from bisect import bisect_right
from itertools import accumulate
from replay.base import target, ok_if
from replay.r_sieves import upto
from rosemary.number_theory.primes import prime_counting as C

KNOWN = {10 ** 8: 5761455, 10 ** 9: 50847534, 10 ** 10: 455052511}
_B = []


def primes(n):
    if n <= 1100000:
        return upto(n)
    if not _B:
        m = 12000000
        s = bytearray([1]) * (m + 1)
        s[0:2] = b'\0\0'
        for i in range(2, 3465):
            if s[i]:
                s[i * i::i] = bytes(len(range(i * i, m + 1, i)))
        p = [i for i in range(m + 1) if s[i]]
        _B.extend((p, [0] + list(accumulate(p))))
    return _B[0]


def pi(n):
    return KNOWN[n] if n in KNOWN else bisect_right(primes(n), n)


def psum(n):
    if n > 1100000:
        primes(n)
        return _B[1][bisect_right(_B[0], n)]
    return sum(upto(n))


CUBES = [101 ** 3, 103 ** 3, 113 ** 3, 127 ** 3, 151 ** 3, 199 ** 3, 211 ** 3]
SQ = [1009 ** 2, 1013 ** 2, 1999 ** 2, 2003 ** 2, 3011 ** 2]
FOURTH = [37 ** 4, 41 ** 4, 43 ** 4, 53 ** 4, 32 ** 4]


def near():
    for n in CUBES + SQ + FOURTH:
        for d in (-1, 0, 1):
            if n + d < 12000000:
                yield n + d


def gen(R):
    for n in list(range(-2, 1200)) + [999982, 999983, 999984, 999999, 1000000, 1000001, 1000002, 1000003, 1000004, 1018081]:
        yield (n,)
    for k in range(11, 100):
        for n in (k ** 3 - 1, k ** 3, k * k, k ** 4 if k < 32 else 5):
            yield (n,)
    ns = list(near())
    R.rng.shuffle(ns)
    for n in ns[:R.n(12, 70)]:
        yield (n,)
    for _ in range(R.n(8, 200)):
        yield (R.rng.randint(1000003, R.n(3000000, 11999999)),)
    for _ in range(R.n(200)):
        yield (R.rng.randint(1, 1000000),)


def gen1(R):
    return ((n,) for (n,) in gen(R) if n >= 1)


def genbig(R):
    for n in R.n([10 ** 8], [10 ** 8, 10 ** 9]):
        yield (n,)


def is_pi(v, n):
    e = pi(n)
    return v == e or 'expected %d' % e


B = 'n <= 1200, powers k^2, k^3, k^4 and neighbours, random up to 10^6 and up to 1.2*10^7'
for f in (C.legendre, C.meissel, C.lehmer, C.lmo, C.lmo_bit):
    target('pc:' + f.__name__, f, gen, ok_if(is_pi), limit=30, bounds=B)
for f in (C.meissel, C.lehmer):
    target('pc:%s_large' % f.__name__, f, genbig, ok_if(is_pi), limit=100, bounds='10^8')
for f in (C.prime_sum, C.prime_sum2):
    target('pc:' + f.__name__, f, gen1, ok_if(lambda v, n: v == psum(n) or 'expected %d' % psum(n)), limit=30, bounds=B)


def table(v, n):
    P = upto(n)
    t = [0] * (n + 1)
    for p in P:
        t[p] = 1
    e = (P, list(accumulate(t)))
    return (list(v[0]), list(v[1])) == e or 'expected the %d primes <= %d and their running count' % (len(P), n)


target('pc:pi_table', C.pi_table, lambda R: [(n,) for n in list(range(1, 700)) + [R.rng.randint(700, 40000) for _ in range(R.n(30))]],
       ok_if(table), bounds='1..699, random up to 40000')


def counts(v, n):
    keys = {n // k for k in range(1, n + 1)} if n < 5000 else {n // k for k in range(1, int(n ** .5) + 2)} | set(range(1, int(n ** .5) + 1))
    if not keys <= set(v):
        return 'expected all keys n//k'
    for k in v:
        if v[k] != pi(k):
            return 'expected pi(%d) = %d' % (k, pi(k))
    return True


target('pc:prime_count', C.prime_count, lambda R: ((n,) for (n,) in gen1(R)), ok_if(counts), limit=30, bounds=B)
