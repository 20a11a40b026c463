"""Executable contracts of rosemary.number_theory.arithmetic_functions."""
import math
from functools import lru_cache
from replay.base import target, eq, ok_if, eq_or_raise, RAISE
from replay import nt
from rosemary.number_theory.arithmetic_functions import functions as F, sieves as S, sums as U, inverse_functions as V


def nums(R, k=250, bits=46):
    yield from range(-3, 2600)
    for p in (2, 3, 5, 7, 31, 999983, 1000003):
        for e in range(1, 7):
            yield p ** e
            yield 6 * p ** e
    yield 2 ** 40
    yield 2 ** 40 * 9
    yield from nt.interesting(R, R.n(k), bits)


def ints(R):
    return ((n,) for n in nums(R))


def facs(R):
    """factorizations, in any order of the primes, including the empty one and ones too big to factor"""
    r = R.rng
    for n in range(1, 400):
        yield (nt.factor(n),)
    for _ in range(R.n(300)):
        ps = r.sample(nt.PRIMES[:r.choice([6, 30, 3000])], r.randint(1, 5))
        if r.random() < .5:
            ps.sort()
        yield ([(p, r.choice([1, 1, 2, 3, r.randint(1, 9)])) for p in ps],)


def val(fac, f):
    out = 1
    for p, e in fac:
        out *= f(p, e)
    return out


PT = {
    'euler_phi': lambda p, e: p ** e - p ** (e - 1),
    'moebius_mu': lambda p, e: -1 if e == 1 else 0,
    'divisor_tau': lambda p, e: e + 1,
    'divisor_sigma': lambda p, e: sum(p ** i for i in range(e + 1)),
}
for _n, _f in PT.items():
    target('arith:' + _n, getattr(F, _n), ints, eq_or_raise(lambda n, f=_f: RAISE if n <= 0 else val(nt.factor(n), f)), limit=20)
    target('arith:%s_of_factorization' % _n, getattr(F, _n), facs, eq(lambda fac, f=_f: val(fac, f)))


from rosemary.number_theory.classification import is_squarefree
target('arith:is_squarefree', is_squarefree, ints, eq_or_raise(lambda n: RAISE if n <= 0 else all(e == 1 for p, e in nt.factor(n))), limit=20)
target('arith:is_squarefree_of_factorization', is_squarefree, facs, eq(lambda fac: all(e == 1 for p, e in fac)))


def sigk(R):
    for n in list(range(-2, 300)) + list(nt.interesting(R, R.n(60), 30)):
        for k in (-1, 0, 1, 2, 3, R.rng.randint(1, 12)):
            yield n, k


target('arith:divisor_sigma_k', F.divisor_sigma, sigk,
       eq_or_raise(lambda n, k: RAISE if n <= 0 or k < 0 else val(nt.factor(n), lambda p, e: sum(p ** (i * k) for i in range(e + 1)))))
target('arith:divisor_sigma_k_of_factorization', F.divisor_sigma, lambda R: ((f, R.rng.randint(0, 6)) for (f,) in facs(R)),
       eq_or_raise(lambda fac, k: val(fac, lambda p, e: sum(p ** (i * k) for i in range(e + 1)))))


def carl(fac):
    out = 1
    for p, e in fac:
        out = math.lcm(out, (1 << max(e - 2, 0) if e > 2 else 1 << (e - 1)) if p == 2 else (p - 1) * p ** (e - 1))
    return out


target('arith:carmichael_lambda', F.carmichael_lambda, ints, eq_or_raise(lambda n: RAISE if n <= 0 else carl(nt.factor(n))), limit=20)
target('arith:carmichael_lambda_of_factorization', F.carmichael_lambda, facs, eq(carl))
target('arith:factorial', F.factorial, lambda R: ((n,) for n in list(range(-3, R.n(700, 3000))) + [1023, 1024, 1025, 2047, 2048, 4096]),
       eq_or_raise(lambda n: RAISE if n < 0 else math.factorial(n)))
target('arith:primorial', F.primorial, lambda R: ((n,) for n in range(-3, R.n(300, 1200))),
       eq_or_raise(lambda n: RAISE if n <= 0 else math.prod(nt.PRIMES[:n])))

# tables
M = 81000


@lru_cache(None)
def phis():
    return [0] + [nt.phi(n) for n in range(1, M)]


@lru_cache(None)
def mus():
    return [0] + [nt.moebius(n) for n in range(1, M)]


@lru_cache(None)
def sigs(k):
    return [0] + [val(nt.factor(n), lambda p, e: sum(p ** (i * k) for i in range(e + 1))) for n in range(1, M)]


def lims(R):
    yield from ((n,) for n in range(-2, 220))
    for p in nt.PRIMES[5:60:6]:
        yield (p * p - 1,)
        yield (p * p,)
        yield (p * p + 1,)
    for n in (9999, 10000, 10001, 10002, 20000):
        yield (n,)
    for _ in range(R.n(30)):
        yield (R.rng.randint(220, 12000),)


def tab(f):
    return eq_or_raise(lambda n, *a: RAISE if n <= 0 or (a and a[0] < 0) else f(*a)[:n + 1])


target('arith:euler_phi_list', S.euler_phi_list, lims, tab(phis), bounds='limits up to 20000')
target('arith:moebius_list', S.moebius_list, lims, tab(mus), bounds='limits up to 20000')
target('arith:tau_list', S.tau_list, lims, tab(lambda: sigs(0)), bounds='limits up to 20000')
target('arith:sigma_list', S.sigma_list, lims, tab(lambda: sigs(1)), bounds='limits up to 20000')
target('arith:sigma_list_k', S.sigma_list, lambda R: ((n, k) for (n,) in lims(R) if n < 2000 for k in (-1, 0, 1, 2, 3, 5)), tab(sigs),
       bounds='limits up to 2000, k <= 5')


def mr(R):
    r = R.rng
    for a in range(-2, 40):
        yield (a,)
        for b in range(-2, 45):
            yield a, b
    for _ in range(R.n(150)):
        a = r.randint(0, 40000)
        yield a, a + r.choice([1, 2, 10, 100, 300, 1000])
        p = r.choice(nt.PRIMES[:60])
        yield p * p, p * p + r.randint(0, 4 * p)
        yield max(1, p * p - r.randint(0, 30)), p * p + r.randint(0, 3)
    for b in (1, 2, 100, 3000, 30000):
        yield (b,)


def mro(a, b=None):
    lo, hi = (1, a) if b is None else (max(a, 1), b)
    return [(n, mus()[n]) for n in range(lo, hi)]


target('arith:moebius_range', lambda *a: list(S.moebius_range(*a)), mr, eq(mro), bounds='[a, b) with ends below 41000')

# sums


@lru_cache(None)
def pref(which):
    out = [0]
    t = {'phi': phis, 'mu': mus, 'sig': lambda: sigs(1)}[which[-3:].strip('_') if which[-3:] != 'phi' else 'phi']()
    for n in range(1, M):
        out.append(out[-1] + (n * t[n] if which.startswith('w') else t[n]))
    return out


def sl(R):
    yield from ((n,) for n in range(-3, 600))
    for p in list(range(25, 260, 9)):
        for d in (-1, 0, 1, p - 1, p, p + 1):
            yield (p * p + d,)
    for _ in range(R.n(60)):
        yield (R.rng.randint(600, M - 1),)


for _n, _f, _w in (('euler_phi_sum', U.euler_phi_sum, 'phi'), ('euler_phi_weighted_sum', U.euler_phi_weighted_sum, 'w_phi'),
                   ('moebius_sum', U.moebius_sum, '_mu'), ('sigma_sum', U.sigma_sum, 'sig')):
    target('arith:' + _n, _f, sl, eq_or_raise(lambda n, w=_w: RAISE if n <= 0 else pref(w)[n]), limit=20,
           bounds='n < 600, squares and oblong numbers and their neighbours up to 67000, random up to 70000')


def sig_sum_exact(n):
    s, t = math.isqrt(n), 0
    for d in range(1, s + 1):
        q = n // d
        t += d * q + (q * (q + 1) - d * (d - 1)) // 2 - d
    # pairs (d, e) with d*e <= n counted once by the smaller: sum over d<=s of e in d..q, adding d + e, minus the diagonal
    return sum(d * (n // d) for d in range(1, n + 1)) if n < 5000 else _ss(n)


def _ss(n):
    t, l = 0, 1
    while l <= n:
        q = n // l
        r = n // q
        t += q * ((l + r) * (r - l + 1) // 2)
        l = r + 1
    return t


target('arith:sigma_sum_large', U.sigma_sum, lambda R: ((R.rng.getrandbits(R.rng.randint(20, 36)) + 1,) for _ in range(R.n(30))),
       eq(_ss), limit=20, bounds='n up to 2^36')


# inverse phi
@lru_cache(None)
def invphi():
    d = {}
    for n in range(1, M):
        d.setdefault(phis()[n], []).append(n)
    return d


def inv_ok(n):
    """all x with phi(x) = n, complete since phi(x) >= sqrt(x / 2)"""
    if n <= 180:
        return sorted(invphi().get(n, []))
    return None


def inv(n):
    if isinstance(n, list):
        n = math.prod(p ** e for p, e in n)
    if n <= 0:
        return RAISE
    if n <= 180:
        return sorted(invphi().get(n, []))
    # search over primes p with p - 1 | n
    ps = [d + 1 for d in nt.divisors(n) if nt.isprime(d + 1)]

    @lru_cache(None)
    def go(m, i):
        if i < 0:
            return (1,) if m == 1 else ()
        out = list(go(m, i - 1))
        p = ps[i]
        t, q = p - 1, p
        while m % t == 0:
            out += [q * x for x in go(m // t, i - 1)]
            t *= p
            q *= p
        return tuple(out)
    return sorted(go(n, len(ps) - 1))


def ip(R):
    yield from ((n,) for n in range(-3, 1500))
    for n in (2 ** 10, 2 ** 16, 5040, 40320, 362880, 3628800, 2 * 3 ** 7, 2 ** 5 * 5 ** 3, 4 * 3 ** 5, 110, 156, 10 ** 6):
        yield (n,)
    for _ in range(R.n(60)):
        yield (nt.phi(R.rng.randint(2, 10 ** 6)),)


target('arith:euler_phi_inverse', V.euler_phi_inverse, ip, eq_or_raise(inv), limit=20, bounds='n < 1500, values of phi up to 10^6, a few highly composite n')
target('arith:euler_phi_inverse_of_factorization', V.euler_phi_inverse, lambda R: ((nt.factor(n),) for (n,) in ip(R) if n > 0), eq_or_raise(inv), limit=20)
target('arith:inverse_phi', V.inverse_phi, lambda R: ((n,) for (n,) in ip(R) if 0 < n < 4000), eq(inv), limit=20)
