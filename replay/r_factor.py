"""Executable contracts of rosemary.number_theory.factorization."""
import itertools
import math
from replay.base import target, eq, ok_if, eq_or_raise, RAISE
from replay import nt
from rosemary.number_theory.factorization import factorization as F, algorithms as A


def nums(R, k=250, bits=52):
    yield from range(1, 2600)
    yield from nt.SPSP[:9] + nt.CARM
    for p in (999983, 1000003, 1000033, 999979, 1000037, 1299709):
        for q in (1, 2, 4, p, 999983, 1000003, 1000033, 1000003 ** 2):
            yield p * q
    yield from nt.interesting(R, R.n(k), bits)


def signed(R):
    for n in nums(R):
        yield n
        yield -n


def one(g):
    return lambda R: ((n,) for n in g(R))


def fac(n):
    return ([(-1, 1)] if n < 0 else []) + nt.factor(abs(n))


target('factor:factor', F.factor, lambda R: itertools.chain([(0,)], one(signed)(R)),
       eq_or_raise(lambda n: RAISE if n == 0 else fac(n)), limit=20)


def facopts(R):
    for n in list(range(2, 300)) + list(nt.interesting(R, R.n(150), 44)):
        for p in (False, True):
            for q in (False, True):
                yield n, p, q
    for b, k in ((2, 10), (6, 5), (12, 3), (30, 2), (999983, 2), (1000003, 2), (1000003, 3), (10, 12), (-2, 5), (-6, 3)):
        yield b ** k, False, False
        yield -b ** k if b > 0 else b ** k, False, False


target('factor:factor_options', lambda n, s, w: F.factor(n, skip_trial_division=s, skip_power_detection=w), facopts,
       eq(lambda n, s, w: fac(n)), limit=20)


def fl(R):
    for n in signed(R):
        yield (fac(n),)
    for _ in range(R.n(200)):
        yield ([(R.rng.randint(-9, 40), R.rng.randint(0, 6)) for _ in range(R.rng.randint(0, 5))],)


target('factor:factor_back', F.factor_back, fl, eq(lambda f: math.prod(p ** e for p, e in f)))
target('factor:factor_back_type', F.factor_back, lambda R: [((),), (12,), (None,)], eq_or_raise(lambda f: RAISE))


def smallish(R):
    yield from range(1, 1500)
    for _ in range(R.n(250)):
        n = 1
        while n < 10 ** R.rng.randint(1, 9):
            n *= R.rng.choice([2, 2, 2, 3, 3, 5, 7, 11, 13, 10007])
        yield n


def ssm(R):
    for n in smallish(R):
        yield (n,)
        yield (-n,)


def pairs(n):
    return [(d, abs(n) // d) for d in nt.divisors(abs(n)) if d * d <= abs(n)]


def unitary(n):
    return [d for d in nt.divisors(abs(n)) if math.gcd(d, abs(n) // d) == 1]


def srt(v):
    return sorted(v)


target('factor:divisors', F.divisors, ssm, eq(lambda n: nt.divisors(abs(n))))
target('factor:xdivisors', lambda n: list(F.xdivisors(n)), ssm, ok_if(lambda v, n: sorted(v) == nt.divisors(abs(n))))
target('factor:prime_divisors', F.prime_divisors, ssm, eq(lambda n: [p for p, e in nt.factor(abs(n))]))
target('factor:divisor_pairs', F.divisor_pairs, ssm, eq(pairs))
target('factor:unitary_divisors', F.unitary_divisors, ssm, eq(unitary))


def fromfac(R):
    for n in smallish(R):
        if n > 1:
            yield n, nt.factor(n)
            yield n, [(-1, 1)] + nt.factor(n)


target('factor:divisor_functions_of_factorization',
       lambda n, f: (F.divisors(factorization=f), sorted(F.xdivisors(factorization=f)), F.prime_divisors(factorization=f),
                     F.divisor_pairs(factorization=f), F.unitary_divisors(factorization=f)), fromfac,
       eq(lambda n, f: (nt.divisors(n), nt.divisors(n), [p for p, e in nt.factor(n)], pairs(n), unitary(n))))


def frange(R):
    for b in range(-1, 60):
        yield None, b
        for a in range(-1, 60):
            yield a, b
    for _ in range(R.n(250)):
        a = R.rng.randint(1, R.rng.choice([50, 1000, 100000, 10 ** 7]))
        yield a, a + R.rng.randint(0, 300)
    for s in (10, 31, 100, 1000):
        for d in (-1, 0, 1):
            yield s * s + d - 40, s * s + d


target('factor:factored_range', lambda a, b: list(F.factored_range(b) if a is None else F.factored_range(a, b)), frange,
       eq(lambda a, b: [(n, nt.factor(n) if n > 1 else [(1, 1)]) for n in range(max(1, a or 1), b)]))


def comp(R, lo=4, bits=44, odd=False):
    for n in itertools.chain(range(lo, 2500), nt.CARM, nt.SPSP[:8], nt.interesting(R, R.n(150), bits)):
        if n >= lo and not nt.isprime(n) and not (odd and n % 2 == 0):
            yield (n,)


def divides(v, n, *a):
    return isinstance(v, int) and 1 <= v <= n and n % v == 0 or 'not a divisor of n'


def nontrivial(v, n, *a):
    return isinstance(v, int) and 1 < v < n and n % v == 0 or 'not a proper factor of the composite n'


def allnums(lo, bits, odd=False):
    def g(R):
        for n in itertools.chain(range(lo, 2000), nt.CARM, nt.interesting(R, R.n(100), bits)):
            if n >= lo and not (odd and n % 2 == 0):
                yield (n,)
    return g


target('factor:pollard_rho_brent', A.pollard_rho_brent, comp, ok_if(lambda v, n: 1 < v <= n and n % v == 0 or 'not a divisor > 1'), limit=20)
target('factor:pollard_rho', A.pollard_rho, comp, ok_if(lambda v, n: 1 < v <= n and n % v == 0 or 'not a divisor > 1'), limit=20)
target('factor:pollard_rho_limited', A.pollard_rho, lambda R: ((n, k) for (n,) in comp(R) for k in (1, 50, 150, 400)),
       ok_if(divides), limit=20)
target('factor:fermat', A.fermat, lambda R: (x for x in allnums(3, 34, False)(R) if x[0] < 10 ** 5 or not nt.isprime(x[0]) and nt.factor(x[0])[0][0] > x[0] ** .46),
       ok_if(lambda v, n: (divides(v, n) if nt.isprime(n) else v == 2 if n % 2 == 0 else nontrivial(v, n)) if n > 2 else True), limit=20)
target('factor:lehman', A.lehman, lambda R: (x for x in allnums(3, 40, True)(R)),
       ok_if(lambda v, n: v == n if nt.isprime(n) else nontrivial(v, n)), limit=20)
target('factor:pollard_p_minus_1', A.pollard_p_minus_1, lambda R: ((n, l) for (n,) in comp(R, 20, 40, True) if n % 13 for l in (20, 1000)),
       ok_if(divides), limit=20)


def cf(R):
    for _ in range(R.n(60)):
        p = nt.nextprime(R.rng.getrandbits(R.rng.randint(10, 22)) + 1000)
        q = nt.nextprime(R.rng.getrandbits(R.rng.randint(10, 22)) + 1000)
        if p != q:
            yield (p * q,)


target('factor:cfrac', A.cfrac, cf, ok_if(lambda v, n: v is None or nontrivial(v, n)), limit=20)


def smf(R):
    fb = [-1, 2, 3, 5, 7, 11, 13]
    for n in list(range(-400, 0)) + list(range(1, 400)):
        yield n, fb
        if n > 0:
            yield n, fb[1:]


def sm_o(n, fb):
    e, m = [], n
    for p in fb:
        k = 0
        if p == -1:
            k = int(m < 0)
            m = abs(m)
        else:
            while m % p == 0:
                m //= p
                k += 1
        e.append(k)
    return e if m == 1 else RAISE


target('factor:smooth_factor', A.smooth_factor, smf, eq_or_raise(sm_o))


def mats(R):
    for _ in range(R.n(400)):
        r, c = R.rng.randint(1, 9), R.rng.randint(1, 7)
        yield ([[R.rng.choice([0, 0, 1, 2, 3]) for _ in range(c)] for _ in range(r)],)


def ker(v, M):
    rows = [sum((x % 2) << j for j, x in enumerate(row)) for row in M]
    basis = []
    for x in rows:
        for b in basis:
            x = min(x, x ^ b)
        if x:
            basis.append(x)
    if len(v) != len(M) - len(basis):
        return 'kernel has dimension %d' % (len(M) - len(basis))
    seen = []
    for vec in v:
        acc = 0
        for bit, row in zip(vec, rows):
            if bit:
                acc ^= row
        if acc:
            return 'a returned vector is not in the kernel'
        x = sum(b << j for j, b in enumerate(vec))
        for b in seen:
            x = min(x, x ^ b)
        if not x:
            return 'dependent vectors'
        seen.append(x)
    return True


target('factor:z2_kernel', A._z2_gaussian_elimination, mats, ok_if(ker))


def aq(n, k):
    g = A._cfrac_aq_pairs(n)
    return [next(g) for _ in range(k)]


def aqo(v, n, k):
    for i, a, q in v:
        if (a * a - (-1) ** i * q) % n:
            return 'A^2 is not (-1)^i Q mod n at %d' % i
        if not 0 < q <= 2 * math.isqrt(n) + 1:
            return 'Q out of range'
    return [i for i, _, _ in v] == list(range(1, k + 1)) or 'indices'


target('factor:cfrac_pairs', aq, lambda R: ((n, 40) for n in list(range(2, 400)) + list(nt.interesting(R, R.n(60), 60)) if math.isqrt(n) ** 2 != n),
       ok_if(aqo))
