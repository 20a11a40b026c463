"""Reference number theory for the oracles (independent of rosemary)."""
import math
from functools import lru_cache

N = 200000
_spf = list(range(N + 1))
for _i in range(2, int(N ** .5) + 1):
    if _spf[_i] == _i:
        for _j in range(_i * _i, N + 1, _i):
            if _spf[_j] == _j:
                _spf[_j] = _i
PRIMES = [i for i in range(2, N + 1) if _spf[i] == i]


def sprp(n, a):
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    b = pow(a, d, n)
    if b == 1 or b == n - 1:
        return True
    for _ in range(s - 1):
        b = b * b % n
        if b == n - 1:
            return True
    return False


def isprime(n):
    """exact below 3.3e24 (Sorenson, Webster)"""
    if n < 2:
        return False
    if n <= N:
        return _spf[n] == n
    for p in PRIMES[:30]:
        if n % p == 0:
            return False
    return all(sprp(n, p) for p in PRIMES[:13])


def nextprime(n):
    n = max(n + 1, 2)
    while not isprime(n):
        n += 1
    return n


def prevprime(n):
    n -= 1
    while not isprime(n):
        n -= 1
    return n


@lru_cache(None)
def factor(n):
    """[(p, e), ...] of n >= 1"""
    out = []
    if n <= N:
        while n > 1:
            p, e = _spf[n], 0
            while n % p == 0:
                n //= p
                e += 1
            out.append((p, e))
        return out
    for p in PRIMES:
        if p * p > n or n == 1:
            break
        if n % p == 0:
            e = 0
            while n % p == 0:
                n //= p
                e += 1
            out.append((p, e))
            if n > 1 and isprime(n):
                break
    rest = [n] if n > 1 else []
    big = {}
    while rest:
        m = rest.pop()
        if isprime(m):
            big[m] = big.get(m, 0) + 1
            continue
        r = math.isqrt(m)
        if r * r == m:
            rest += [r, r]
            continue
        d = _rho(m)
        rest += [d, m // d]
    return sorted(out + list(big.items()))


def _rho(n):
    c = 1
    while True:
        x = y = 2
        d = 1
        while d == 1:
            x = (x * x + c) % n
            y = (y * y + c) % n
            y = (y * y + c) % n
            d = math.gcd(abs(x - y), n)
        if d != n:
            return d
        c += 1


def divisors(n):
    ds = [1]
    for p, e in factor(n):
        ds = [d * p ** k for d in ds for k in range(e + 1)]
    return sorted(ds)


def phi(n):
    r = n
    for p, _ in factor(n):
        r -= r // p
    return r


def moebius(n):
    f = factor(n)
    return 0 if any(e > 1 for _, e in f) else (-1) ** len(f)


def jacobi(a, n):
    r = 1
    for p, e in factor(n):
        l = pow(a, (p - 1) // 2, p)
        l = -1 if l == p - 1 else l
        if a % p == 0:
            l = 0
        r *= l ** e
    return r


def order(a, n):
    """multiplicative order, gcd(a, n) = 1"""
    k = 1
    for p, e in factor(n):
        k = math.lcm(k, (p - 1) * p ** (e - 1))
    for p, _ in factor(k):
        while k % p == 0 and pow(a, k // p, n) == 1 % n:
            k //= p
    return k


SPSP = [2047, 3277, 4033, 4681, 8321, 1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321]
CARM = [561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 15841, 29341, 41041, 46657, 52633, 62745, 63973, 75361, 101101, 825265,
        321197185, 5394826801, 232250619601, 9746347772161]


def interesting(R, k, bits=40):
    """numbers where primality and factoring go wrong: primes, squares and cubes of primes, products of close primes, smooth, powers"""
    r = R.rng
    for _ in range(k):
        c = r.randint(0, 9)
        h = r.randint(2, bits)
        if c <= 1:
            yield nextprime(r.getrandbits(h))
        elif c == 2:
            yield nextprime(r.getrandbits(max(2, h // 2))) ** 2
        elif c == 3:
            p = nextprime(r.getrandbits(max(2, h // 2)))
            yield p * nextprime(p)
        elif c == 4:
            yield nextprime(r.getrandbits(max(2, h // 2))) * nextprime(r.getrandbits(max(2, h // 2)))
        elif c == 5:
            yield nextprime(r.getrandbits(max(2, h // 3))) ** 3
        elif c == 6:
            yield nextprime(r.getrandbits(max(2, h // 3))) * nextprime(r.getrandbits(max(2, h // 3))) * nextprime(r.getrandbits(max(2, h // 3)))
        elif c == 7:
            n = 1
            while n.bit_length() < h:
                n *= r.choice([2, 2, 3, 3, 5, 7, 11, 13, 101, 9973])
            yield n
        else:
            yield r.getrandbits(h) + 1
