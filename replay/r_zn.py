"""Executable contracts of rosemary.number_theory.zn_arithmetic."""
import math
from functools import lru_cache
from replay.base import target, eq, ok_if, eq_or_raise, RAISE
from replay import nt
from rosemary.number_theory import zn_arithmetic as Z


@lru_cache(None)
def order(a, n):
    """multiplicative order of a modulo n (coprime)"""
    a %= n
    if n == 1:
        return 1
    d = nt.phi(n)
    for p, _ in nt.factor(nt.phi(n)):
        while d % p == 0 and pow(a, d // p, n) == 1:
            d //= p
    return d


def cyclic(n):
    if n in (1, 2, 4):
        return True
    m = n // 2 if n % 2 == 0 else n
    return m % 2 == 1 and m > 1 and len(nt.factor(m)) == 1


def proot(a, n):
    return math.gcd(a, n) == 1 and order(a % n, n) == nt.phi(n)


def an(R, big=10 ** 7):
    r = R.rng
    for n in range(-2, 46):
        for a in range(-3, n + 3):
            yield a, n
    for _ in range(R.n(500)):
        n = r.choice([r.randint(40, 2000), r.choice(nt.PRIMES[:400]) ** r.choice([1, 1, 2, 3]), 2 * r.choice(nt.PRIMES[1:400]) ** r.choice([1, 2]), r.randint(2, big)])
        yield r.randint(0, n), n
    for n in (49, 98, 343, 40487 ** 2, 2 * 40487 ** 2, 6692367337 ** 2, 8, 16, 12, 15, 24, 561):
        for a in (2, 3, 5, 10, 7, 11, n - 1, n + 1):
            yield a, n


target('zn:is_primitive_root', Z.is_primitive_root, an, eq_or_raise(lambda a, n: RAISE if n <= 1 else proot(a, n)))
target('zn:is_primitive_root_given_phi', lambda a, n, k: Z.is_primitive_root(a, n, nt.phi(n), [p for p, _ in nt.factor(nt.phi(n))]) if k else Z.is_primitive_root(a, n, phi=nt.phi(n)),
       lambda R: ((a, n, R.rng.randint(0, 1)) for a, n in an(R) if n > 1), eq(lambda a, n, k: proot(a, n)))


@lru_cache(None)
def least(n):
    if not cyclic(n):
        return RAISE
    return next(g for g in range(1, n + 1) if proot(g, n))


def pr(R):
    for n in range(2, 700):
        yield (n,)
    for p in nt.PRIMES[:60]:
        for e in (1, 2, 3, 4):
            yield (p ** e,)
            yield (2 * p ** e,)
    for _ in range(R.n(200)):
        yield (R.rng.choice(nt.PRIMES[:5000]),)
        yield (R.rng.randint(700, 10 ** 6),)
    yield (40487 ** 2,)
    yield (2 * 40487 ** 2,)


target('zn:primitive_root', Z.primitive_root, pr, eq_or_raise(least))
target('zn:primitive_root_given', lambda n, k: Z.primitive_root(n, **{'n_factorization': nt.factor(n)} if k == 0 else {'phi': nt.phi(n)} if k == 1 else {'phi': nt.phi(n), 'phi_divisors': [p for p, _ in nt.factor(nt.phi(n))]}),
       lambda R: ((n, R.rng.randint(0, 2)) for (n,) in pr(R)), eq_or_raise(lambda n, k: least(n)))


def fib(p):
    if p % 2 == 0 or p < 2:
        return []
    return [x for x in range(1, p) if (x * x - x - 1) % p == 0 and proot(x, p)]


target('zn:fibonacci_primitive_roots', Z.fibonacci_primitive_roots, lambda R: ((p,) for p in nt.PRIMES[:R.n(220, 900)]), eq(fib), bounds='primes up to 1400')


def mo(R):
    for n in range(1, 60):
        for a in range(-3, n + 4):
            yield a, n
    r = R.rng
    for _ in range(R.n(400)):
        n = r.choice([r.randint(40, 2000), r.randint(2, 10 ** 7), r.choice(nt.PRIMES[:400]) ** 2])
        yield r.randint(0, n), n


target('zn:multiplicative_order', Z.multiplicative_order, mo, eq_or_raise(lambda a, n: RAISE if math.gcd(a, n) != 1 else order(a, n)))
target('zn:multiplicative_order_given', lambda a, n: Z.multiplicative_order(a, n, phi=nt.phi(n), phi_divisors=nt.divisors(nt.phi(n))), mo,
       eq_or_raise(lambda a, n: RAISE if math.gcd(a, n) != 1 else order(a, n)))


def sp(R):
    for p in nt.PRIMES[:26]:
        for a in range(-p, 2 * p + 1):
            yield a, p
    r = R.rng
    for p in (17, 97, 193, 257, 769, 12289, 65537, 40961, 114689, 786433, 7340033, 998244353, 2 ** 61 - 1, 10 ** 18 + 9, 3 * 2 ** 41 + 1 if nt.isprime(3 * 2 ** 41 + 1) else 97):
        for _ in range(6):
            x = r.randrange(p)
            yield x * x % p, p
            yield r.randrange(p), p
    for _ in range(R.n(400)):
        p = r.choice(nt.PRIMES[:r.choice([100, 3000])])
        x = r.randrange(p)
        yield x * x % p, p
        yield r.randint(-p, p * p), p


def spo(v, a, p):
    a %= p
    if p == 2:
        e = [a]
    elif a == 0:
        e = [0]
    elif pow(a, (p - 1) // 2, p) != 1:
        e = []
    else:
        e = None
    if e is not None:
        return v == e or 'expected %r' % e
    if len(v) == 2 and 0 < v[0] < v[1] < p and (v[0] ** 2 - a) % p == 0 and v[0] + v[1] == p:
        return True
    return 'expected the two square roots, increasing'


target('zn:sqrts_mod_p', Z.sqrts_mod_p, sp, ok_if(spo))


@lru_cache(None)
def sqs(n):
    d = {}
    for x in range(n):
        d.setdefault(x * x % n, []).append(x)
    return d


def sn(R):
    for n in range(1, 150):
        for a in range(-3 if n % 7 else -n, n):
            yield a, n
    r = R.rng
    for n in (128, 256, 512, 1024, 4096, 243, 729, 2187, 125, 625, 3125, 343, 2401, 17 ** 2, 17 ** 3, 41 ** 2, 97 ** 2, 900, 1800, 3600, 840, 2520, 5040, 2 ** 7 * 27, 32 * 25 * 7):
        for _ in range(8):
            x = r.randrange(n)
            yield x * x % n, n
            yield r.randrange(n), n
        yield 0, n
    for _ in range(R.n(250)):
        n = r.randint(150, 4000)
        x = r.randrange(n)
        yield x * x % n + n * r.randint(-1, 1), n


target('zn:sqrts_mod_n', Z.sqrts_mod_n, sn, eq(lambda a, n: sqs(n).get(a % n, [])), limit=20, bounds='n < 150 exhaustive, random and highly divisible n up to 5040')
target('zn:sqrts_mod_n_given', lambda a, n: Z.sqrts_mod_n(a, n, nt.factor(n)), sn, eq(lambda a, n: sqs(n).get(a % n, [])), limit=20)


def sbig(R):
    r = R.rng
    for _ in range(R.n(60)):
        f = [(p, r.randint(1, 3)) for p in r.sample(nt.PRIMES[1:200], r.randint(1, 3))]
        if r.random() < .4:
            f = [(2, r.randint(1, 8))] + f
        n = math.prod(p ** e for p, e in f)
        x = r.randrange(n)
        while math.gcd(x, n) != 1:
            x = r.randrange(n)
        yield x * x % n, n, sorted(f)


def sbo(v, a, n, f):
    c = 1
    for p, e in f:
        c *= 2 if p > 2 else [1, 1, 2, 4][min(e, 3)]
    if len(v) != c or len(set(v)) != c or v != sorted(v) or not all(0 <= x < n and (x * x - a) % n == 0 for x in v):
        return 'expected %d roots in order' % c
    return True


target('zn:sqrts_mod_n_big', lambda a, n, f: Z.sqrts_mod_n(a, n), sbig, ok_if(sbo), limit=20)


def ru(R):
    for p in nt.PRIMES[:40]:
        for n in range(1, 30):
            yield n, p
    for _ in range(R.n(100)):
        p = R.rng.choice(nt.PRIMES[:600])
        yield R.rng.randint(1, 3 * p), p


target('zn:nth_roots_of_unity_mod_p', Z.nth_roots_of_unity_mod_p, ru, eq(lambda n, p: [x for x in range(1, p) if pow(x, n, p) == 1]), bounds='p <= 4409')
target('zn:nth_roots_of_minus1_mod_p', Z.nth_roots_of_minus1_mod_p, ru, eq(lambda n, p: [x for x in range(1, p) if pow(x, n, p) == p - 1]), bounds='p <= 4409')
target('zn:roots_of_unity_given_root', lambda n, p: (Z.nth_roots_of_unity_mod_p(n, p, least(p)), Z.nth_roots_of_minus1_mod_p(n, p, least(p))), ru,
       eq(lambda n, p: ([x for x in range(1, p) if pow(x, n, p) == 1], [x for x in range(1, p) if pow(x, n, p) == p - 1])))


def dl(R):
    for p in nt.PRIMES[:18]:
        for a in range(1, p):
            for b in range(1, p):
                yield a, b, p
    r = R.rng
    for _ in range(R.n(200)):
        p = r.choice(nt.PRIMES[:r.choice([200, 17000])])
        a = r.randint(1, p - 1)
        yield a, pow(a, r.randint(0, p), p), p
        yield a, r.randint(1, p - 1), p
    for p in (2 ** 31 - 1, 1000000007, 100000000003):
        a = r.randint(2, p - 2)
        yield a, pow(a, r.randint(0, p), p), p


def dlo(args, out):
    a, b, p = args
    if out.ok:
        return None if isinstance(out.v, int) and out.v >= 0 and pow(a, out.v, p) == b % p else 'not a logarithm'
    if not isinstance(out.exc, ValueError):
        return 'expected a logarithm or ValueError'
    o = order(a, p)
    return 'expected a logarithm' if pow(b, o, p) == 1 else None


target('zn:discrete_log', Z.discrete_log, dl, dlo, limit=30, bounds='primes p <= 100000000003')


def lc(R):
    for n in range(-2, 25):
        for a in range(-4, n + 3):
            for b in range(-3, n + 2):
                yield a, b, n
    r = R.rng
    for _ in range(R.n(400)):
        n = r.choice([r.randint(25, 400), 720, 5040])
        yield r.randint(-n, 2 * n), r.randint(-n, 2 * n), n


target('zn:linear_congruence', Z.linear_congruence, lc, eq_or_raise(lambda a, b, n: RAISE if n < 2 else [x for x in range(n) if (a * x - b) % n == 0]), bounds='n <= 5040')


def qc(R):
    for n in range(2, 17):
        for a in range(1, min(n, 7)):
            for b in range(0, n, 1 if n < 9 else 3):
                for c in range(0, n, 1 if n < 9 else 2):
                    yield [a, b, c], n
    r = R.rng
    for _ in range(R.n(250)):
        n = r.randint(2, 600)
        yield [r.randint(1, n), r.randint(-n, n), r.randint(-n, n)], n
    for _ in range(R.n(60)):
        n = r.choice([27, 81, 64, 125, 72, 144, 216, 100, 36, 49 * 4])
        yield [r.randint(1, n), r.randint(-n, n), r.randint(-n, n)], n


target('zn:quadratic_congruence', Z.quadratic_congruence, qc, eq(lambda cs, n: [x for x in range(n) if (cs[0] * x * x + cs[1] * x + cs[2]) % n == 0]), limit=20, bounds='n <= 600')
