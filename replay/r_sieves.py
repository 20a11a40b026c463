"""Executable contracts of rosemary.number_theory.primes.sieves."""
from bisect import bisect_left, bisect_right
from replay.base import target, eq, ok_if
from replay import nt
from rosemary.number_theory.primes import sieves as S

_P = [[], 0]


def upto(n):
    """the primes <= n by an odd-only sieve of its own"""
    if _P[1] < n:
        m = max(n, 1100000)
        s = bytearray([1]) * (m + 1)
        s[0:2] = b'\0\0'
        i = 2
        while i * i <= m:
            if s[i]:
                s[i * i::i] = bytes(len(range(i * i, m + 1, i)))
            i += 1
        _P[0] = [i for i in range(m + 1) if s[i]]
        _P[1] = m
    return _P[0][:bisect_right(_P[0], n)]


def lst(f):
    def o(v, *a):
        e = f(*a)
        return list(v) == e or 'expected %d primes%s' % (len(e), ' %r' % (e,) if len(e) < 12 else ' ending %r' % (e[-3:],))
    return ok_if(o)


def small(R):
    yield from ((n,) for n in range(-3, 1500))
    for p in nt.PRIMES[100:1200:37]:
        for n in (p * p - 1, p * p, p * p + 1, p * p + 2):
            if n < 60000:
                yield (n,)
    for _ in range(R.n(60)):
        yield (R.rng.randint(1500, 40000),)


def large(R):
    yield from small(R)
    for n in (999950, 999982, 999983, 999984, 999999, 1000000, 1000002, 1000003, 1000004, 1018081, 1018080, 1018082):
        yield (n,)


B = 'exhaustive -3..1499, squares of primes and their neighbours, random up to 40000'
target('sieves:primes', S.primes, large, lst(upto), bounds=B + ', 999950..1018082')
target('sieves:eratosthenes1', S.eratosthenes1, large, lst(upto), bounds=B)
target('sieves:eratosthenes2', S.eratosthenes2, large, lst(upto), bounds=B)
target('sieves:luo', S.luo, large, lst(upto), bounds=B)
target('sieves:chartres', S.chartres, small, lst(upto), bounds=B)
target('sieves:pritchard', S.pritchard, small, lst(upto), bounds=B)


def pfn(R):
    yield from ((n,) for n in list(range(-3, 800)) + [78495, 78496, 78497, 78498, 78499, 78500, 78501, 80000, 85000])
    for _ in range(R.n(20, 200)):
        yield (R.rng.randint(800, 85000),)


target('sieves:primes_first_n', S.primes_first_n, pfn, lst(lambda n: upto(1100000)[:n] if n > 0 else []), bounds='n < 800, around 78498, random to 85000')


def pr(R):
    for a in range(-2, 60):
        yield (a,)
        for b in range(-2, 60):
            yield a, b
    r = R.rng
    ps = nt.PRIMES
    for _ in range(R.n(300)):
        a = r.choice([r.randint(0, 2000), r.choice(ps), r.choice(ps) + 1])
        yield a, a + r.choice([0, 1, 2, 3, 10, 100, 1000])
        yield a, r.choice(ps)
        yield (a,)


def pr_big(R):
    r = R.rng
    T = 10 ** 7
    for a in list(range(T - 30, T + 30)) if R.thorough else (T - 19, T - 9, T, T + 1, T + 18, T + 19, T + 20):
        for d in (0, 1, 2, 7, 40):
            if a + d > T or R.thorough or d < 2:
                yield a, a + d
    for _ in range(R.n(60, 600)):
        a = r.randint(T, 10 ** r.randint(8, 10))
        yield a, a + r.choice([1, 2, 5, 64, 500, 3000])
        p = nt.nextprime(a)
        yield p, p + 1
        yield p, p + 2
        yield a, p
        yield a, p + 1
    for p in (3163, 3167, 3169, 9973, 99991, 10007):
        q = p * p
        for a, b in ((q, q + 1), (q - 2, q + 3), (q - 1, q), (q - 64, q + 200)):
            yield a, b


def interval(a, b=None):
    if b is None:
        a, b = 1, max(a, 2)
    if b <= 60 * 10 ** 4:
        ps = upto(max(b, 2))
        return ps[bisect_left(ps, a):bisect_left(ps, b)]
    out = []
    p = nt.nextprime(a - 1)
    while p < b:
        out.append(p)
        p = nt.nextprime(p)
    return out


target('sieves:prime_range', lambda *a: list(S.prime_range(*a)), pr, lst(interval), bounds='all [a, b) with ends below 60, random to 200000')
target('sieves:prime_range_large', lambda *a: list(S.prime_range(*a)), pr_big, lst(interval), limit=60,
       bounds='intervals up to 3000 long around 10^7, up to 10^10, around squares of primes')
target('sieves:prime_range_from_low', lambda a, b: sum(1 for _ in S.prime_range(a, b)),
       lambda R: [(a, b) for a, b in ((2, 10000019), (3162, 10000100), (3163, 10000019), (3164, 10000020))][:4 if R.thorough else 3],
       ok_if(lambda v, a, b: v == bisect_left(upto(10000200), b) - bisect_left(upto(10000200), a)), limit=90)
