"""Executable contracts of rosemary.number_theory.primes.primality."""
import math
from replay.base import target, eq, ok_if, RAISE
from replay import nt
from rosemary.number_theory.primes import primality as P
from rosemary.number_theory.factorization import algorithms as A

BIG = 1000003


def nums(R, k=400, bits=46):
    yield from range(-5, 3000)
    yield from nt.SPSP[:10] + nt.CARM
    yield from range(999900, 1000200)
    for p in nt.PRIMES[168:173] + [99991, 999979, 999983, 1000003, 1000033, 1000037, 4999999, 5000011]:
        for q in (p, 2, 3, 7, 31, 1009):
            yield p * q
    yield from nt.interesting(R, R.n(k), bits)


def big(R):
    for b in (50, 61, 64, 89, 107, 127, 200, 521):
        for _ in range(4):
            yield R.rng.getrandbits(b) | 1
    for e in (61, 89, 107, 127, 521, 607):
        yield 2 ** e - 1
    for s in (1, 2, 3, 5, 8, 16, 20, 32):       # primes with a large even part of p - 1
        for _ in range(R.n(6)):
            yield nt.nextprime_cong(R.rng.getrandbits(30) << s, s) if False else next(
                p for p in (((R.rng.getrandbits(20) | 1) << s) + 1 for _ in iter(int, 1)) if nt.isprime(p))


def one(g):
    return lambda R: ((n,) for n in g(R))


target('primes:is_prime', P.is_prime, one(nums), eq(nt.isprime), limit=30, bounds='-5..3000, the end of the prime table, random up to 2^46')


def mrp(R):
    for n in range(2, 400):
        for a in range(1, n + 3):
            yield n, a
    for n in list(nums(R, 300)) + list(big(R)):
        if n >= 2:
            for _ in range(4):
                yield n, R.rng.randint(1, max(1, n - 1))


def mr_oracle(n, a):
    """a strong probable prime test to base a: (for n even: b = a^(n-1) in {1, n-1})"""
    return nt.sprp(n, a)


target('primes:miller_rabin_base', P.miller_rabin, mrp,
       ok_if(lambda v, n, a: (bool(v) == nt.sprp(n, a)) if n > 2 or a % n else True))


def mr1(R):
    for n in list(range(4, 2000)) + [x for x in nums(R, 400) if x > 3] + [x for x in big(R)]:
        yield (n,)


target('primes:miller_rabin', P.miller_rabin, mr1,
       ok_if(lambda v, n: v in (True, False) and (bool(v) or not nt.isprime(n)) or 'a prime is declared composite'))
target('primes:solovay_strassen', P.solovay_strassen, lambda R: ((n,) for (n,) in mr1(R) if n % 2 and n > 4),
       ok_if(lambda v, n: (bool(v) or not nt.isprime(n)) or 'a prime is declared composite'))
target('primes:solovay_strassen_base', P.solovay_strassen, lambda R: ((n, a) for n, a in mrp(R) if n % 2 and n > 2 and n < 10 ** 12),
       ok_if(lambda v, n, a: bool(v) == (nt.jacobi(a, n) != 0 and nt.jacobi(a, n) % n == pow(a, (n - 1) // 2, n))))
target('primes:is_probable_prime', P.is_probable_prime,
       lambda R: ((n,) for n in list(nums(R, 1500, 48)) + list(big(R)) if n >= 2),
       ok_if(lambda v, n: bool(v) == nt.isprime(n) if n < 341550071728321 else bool(v) or not nt.isprime(n)))
target('primes:miller_rabin_deterministic', P.miller_rabin_deterministic,
       lambda R: ((n,) for n in list(nums(R, 200, 48)) if n < 341550071728321), eq(nt.isprime))
target('primes:lucas_lehmer', P.lucas_lehmer, lambda R: ((p,) for p in list(range(3, R.n(420, 1500))) + [521, 607, 1279]),
       eq(lambda p: nt.isprime(p) and p in MERS), bounds='exponents 3..420 and known Mersenne exponents')
MERS = {2, 3, 5, 7, 13, 17, 19, 31, 61, 89, 107, 127, 521, 607, 1279, 2203, 2281}
target('primes:next_prime', P.next_prime, lambda R: ((n,) for n in nums(R, 120, 40)), eq(nt.nextprime), limit=30)
target('primes:next_probable_prime', P.next_probable_prime, lambda R: ((n,) for n in nums(R, 300, 47)), eq(nt.nextprime))


def rp(R):
    for _ in range(R.n(400)):
        p = nt.nextprime(R.rng.getrandbits(R.rng.randint(1, 30)))
        yield p - R.rng.randint(0, 5), p + R.rng.randint(0, 5)


target('primes:random_prime', P.random_prime, rp, ok_if(lambda v, a, b: a <= v <= b and nt.isprime(v)))
target('primes:trial_division', A.trial_division, lambda R: ((n,) for n in nums(R, 250, 40) if n >= 2),
       eq(lambda n: nt.factor(n)[0][0]), limit=30)


def tdb(R):
    for n in [x for x in nums(R, 250, 40) if x >= 2]:
        yield n, R.rng.randint(1, n)
        yield n, max(1, nt.factor(n)[0][0] + R.rng.randint(-2, 2))
        yield n, R.rng.randint(1, 2000)


target('primes:trial_division_bound', A.trial_division, lambda R: ((n, b) for n, b in tdb(R) if b < 3 * 10 ** 6),
       eq(lambda n, b: nt.factor(n)[0][0] if nt.factor(n)[0][0] <= b else n), limit=30)
