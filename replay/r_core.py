"""Executable contracts of rosemary.number_theory.core (oracles use only Python's own integers)."""
import math
from fractions import Fraction
from replay.base import target, eq, eq_or_raise, ok_if, RAISE
from rosemary.number_theory import core as c


def ints(R, k=60, big=True):
    yield from range(-6, 30)
    for _ in range(R.n(k)):
        yield R.int(R.rng.choice([16, 64, 300]))


def pairs(R, k=1500):
    for a in range(-12, 40):
        for b in range(-12, 40):
            yield a, b
    for _ in range(R.n(k)):
        g = R.nat(R.rng.choice([1, 5, 20]))
        yield g * R.int(R.rng.choice([5, 20, 60, 90])), g * R.int(R.rng.choice([5, 20, 60, 90]))
        x = R.int(70)
        yield R.rng.choice([(x, x * R.int(20)), (x * R.int(20), x), (x, x), (x, -x)])


target('core:gcd', c.gcd, pairs, eq(math.gcd), bounds='|x|,|y| <= 40 exhaustively, random up to 2^110')
target('core:lcm', c.lcm, pairs, eq(math.lcm))
target('core:ext_gcd', c.ext_gcd, pairs,
       ok_if(lambda v, x, y: v[2] == math.gcd(x, y) and v[0] * x + v[1] * y == v[2]))


def lists(R):
    import itertools
    for n in (1, 2, 3):
        for t in itertools.product(range(-4, 13) if n < 3 else (-4, 0, 1, 6, 9, 10), repeat=n):
            yield (list(t),)
    for _ in range(R.n(300)):
        g = R.rng.randint(1, 30)
        yield ([g * R.rng.randint(-2000, 2000) for _ in range(R.rng.randint(2, 7))],)


target('core:gcd_list', c.gcd_list, lists, eq(lambda L: math.gcd(*L)))
target('core:lcm_list', c.lcm_list, lists, eq(lambda L: math.lcm(*L)))


def pm(R):
    for a in range(-1, 13):
        for k in range(-1, 12):
            for m in range(-1, 14):
                yield a, k, m
    for _ in range(R.n(400)):
        yield R.nat(R.rng.choice([8, 64, 200])), R.nat(R.rng.choice([4, 20, 128])), R.nat(R.rng.choice([3, 20, 100])) + 1


target('core:power_mod', c.power_mod, pm, eq_or_raise(lambda a, k, m: RAISE if a < 0 or k < 0 or m < 1 else pow(a, k, m)))


def im(R):
    for a in range(-30, 60):
        for m in range(-2, 50):
            yield a, m
    for _ in range(R.n(500)):
        yield R.int(100), R.nat(R.rng.choice([4, 40, 100])) + 2


target('core:inverse_mod', c.inverse_mod, im,
       eq_or_raise(lambda a, m: RAISE if m < 2 or math.gcd(a, m) != 1 else pow(a, -1, m)))
target('core:bit_count', c.bit_count, lambda R: ((n,) for n in list(range(-70, 1100)) + list(ints(R, 400))), eq(lambda n: bin(n).count('1')))


def ilog(b, n):
    if b <= 1 or n <= 0:
        return RAISE
    k, p = 0, b
    while p <= n:
        p *= b
        k += 1
    return k


def near_powers(R):
    for b in range(-1, 14):
        for n in range(-1, 300):
            yield b, n
    for _ in range(R.n(600)):
        b = R.rng.choice([2, 3, 5, 10, R.rng.randint(2, 1000), R.rng.getrandbits(70) + 2])
        k = R.rng.randint(0, 40)
        yield b, max(b ** k + R.rng.choice([-1, 0, 1, 2]), 1)


target('core:integer_log', c.integer_log, near_powers, eq_or_raise(ilog))


def iroot(n, m):
    lo, hi = 0, 1
    while hi ** n <= m:
        hi *= 2
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if mid ** n <= m:
            lo = mid
        else:
            hi = mid
    return lo


def roots(R):
    for n in range(-1, 12):
        for m in range(-1, 400):
            yield n, m
    for _ in range(R.n(900)):
        n = R.rng.choice([2, 3, 3, 4, 5, 7, 11, 20, 64, R.rng.randint(2, 300)])
        x = R.rng.getrandbits(R.rng.choice([2, 5, 10, 27, 40])) + 1
        yield n, max(x ** n + R.rng.choice([-1, 0, 1, R.rng.randint(-9, 9)]), 0)


target('core:integer_nth_root', c.integer_nth_root, roots, eq_or_raise(lambda n, m: RAISE if m < 0 or n < 1 else iroot(n, m)))


def sq(R):
    for n in range(-2, 5000):
        yield (n,)
    for _ in range(R.n(3000)):
        k = R.rng.getrandbits(R.rng.choice([10, 20, 24, 25, 26, 27, 28, 30, 31, 40, 100, 300])) + 1
        yield (k * k + R.rng.choice([-1, 0, 1, R.rng.randint(-3, 2 * k)]),)
        yield (R.nat(300),)


target('core:integer_sqrt', c.integer_sqrt, lambda R: (x for x in sq(R) if x[0] >= -2), eq_or_raise(lambda n: RAISE if n < 0 else math.isqrt(n)))


def val(p, n):
    k = 0
    while n % p == 0:
        n //= p
        k += 1
    return k


def vals(R):
    for p in list(range(-9, -1)) + list(range(2, 14)):
        for n in range(-200, 400):
            if n:
                yield p, n
    for _ in range(R.n(500)):
        p = R.rng.choice([2, 3, 7, -5, 10, 6, 101])
        yield p, R.rng.choice([-1, 1]) * p ** R.rng.randint(0, 60) * R.rng.randint(1, 10 ** 6)


target('core:valuation', c.valuation, vals, eq(val))


def jac(a, m):
    if m % 2 == 0:
        return RAISE
    # from the definition: product of Legendre symbols over the prime factorization
    r, d, x = 1, 3, m
    while x > 1:
        while d * d <= x and x % d:
            d += 2
        p = d if x % d == 0 else x
        x //= p
        e = pow(a, (p - 1) // 2, p)
        r *= 0 if a % p == 0 else (1 if e == 1 else -1)
    return r


def jacs(R):
    for m in range(1, 120):
        for a in range(-30, 130):
            yield a, m
    for _ in range(R.n(4000)):
        yield R.int(R.rng.choice([10, 40, 100])), min(2 * R.nat(20), 10 ** 7) + 1


target('core:jacobi_symbol', c.jacobi_symbol, jacs, eq_or_raise(jac), pre=lambda a, m: 1 <= m < 10 ** 9)


def congs(R, bad=True):
    import itertools
    for n in (1, 2, 3):
        for ms in itertools.product(range(1, 8), repeat=n):
            yield [(R.rng.randint(-20, 20), m) for m in ms]
    for _ in range(R.n(400)):
        pool = [1, 2, 3, 4, 5, 7, 9, 11, 13, 17, 25, 49, 10 ** 9 + 7, 2 ** 61 - 1, 10 ** 6 + 3]
        ms = R.rng.sample(pool, R.rng.randint(1, 6))
        yield [(R.rng.randint(-10 ** 12, 10 ** 12), m) for m in ms]


def pairwise(ms):
    return all(math.gcd(ms[i], ms[j]) == 1 for i in range(len(ms)) for j in range(i))


def crt_ok(args, out):
    cs = args[0]
    if not pairwise([m for _, m in cs]):
        return None if isinstance(out.exc, ValueError) else 'expected ValueError (moduli not coprime)'
    if not out.ok:
        return 'expected a residue'
    if any((out.v - a) % m for a, m in cs):
        return 'not congruent'
    if len(cs) > 1 and not 0 <= out.v < math.prod(m for _, m in cs):
        return 'not reduced modulo the product'


target('core:chinese', c.chinese, lambda R: ((x,) for x in congs(R)), crt_ok,
       pre=lambda cs: len(cs) and all(m >= 1 for _, m in cs))


def precond(cs):
    data = c.crt_preconditioning_data([m for _, m in cs])
    return [c.chinese_preconditioned([(a + t, m) for a, m in cs], data) for t in (0, 1, 5)]


def pre_ok(args, out):
    cs = args[0]
    ms = [m for _, m in cs]
    if not pairwise(ms) or any(m < 2 for m in ms[1:]):
        return None if isinstance(out.exc, ValueError) else 'expected ValueError'
    if not out.ok:
        return 'expected residues'
    for t, v in zip((0, 1, 5), out.v):
        if any((v - a - t) % m for a, m in cs) or not 0 <= v < math.prod(ms):
            return 'wrong residue for shift %d' % t


target('core:chinese_preconditioned', precond, lambda R: ((x,) for x in congs(R)), pre_ok)
