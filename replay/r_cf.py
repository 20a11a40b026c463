"""Executable contracts: classification, misc, arithmetic progressions, continued fractions, Pell equations."""
from fractions import Fraction
from itertools import islice
from math import comb, factorial, gcd, isqrt
from replay.base import RAISE, ok_if, target
from replay.nt import factor as fac
from rosemary.number_theory import arithmetic_progressions as AP
from rosemary.number_theory import classification as K
from rosemary.number_theory import misc as M
from rosemary.number_theory.continued_fractions import QuadraticIrrational
from rosemary.number_theory.diophantine_equations import pell as PL


def iroot(k, n):
    lo, hi = 0, 1 << (n.bit_length() // k + 2)
    while lo < hi - 1:
        m = (lo + hi) // 2
        if m ** k <= n:
            lo = m
        else:
            hi = m
    return lo


def sq(n):
    if n < 0:
        return False
    r = isqrt(n)
    return r if r * r == n else False


def same(a, b):
    return a == b and (a is False) == (b is False)


def exact(f):
    return lambda args, o: None if o.ok and same(o.v, f(*args)) else 'expected %r' % (f(*args),)


def g_sq(R):
    for n in range(-50, 3000):
        yield (n,)
    for _ in range(R.n(3000, 60000)):
        r = R.rng.getrandbits(R.rng.randint(5, 220))
        yield (r * r + R.rng.choice([0, 0, 0, -1, 1, R.rng.randint(-50, 50)]),)
    for r in range(0, R.n(22600, 90200), R.n(7, 1)):
        yield (r * r,)
    for _ in range(R.n(3000, 60000)):       # numbers that are squares modulo 64 and 45045
        yield (R.rng.randint(0, 10 ** 9) ** 2 + 64 * 45045 * R.rng.randint(1, 10 ** 6),)


target('cls:is_square', K.is_square, g_sq, exact(sq), bounds='|n| < 2^440')


def prod(f):
    r = 1
    for p, e in f:
        r *= p ** e
    return r


PR = [2, 3, 5, 7, 11, 13, 101, 65537]


def rf(R, emax=6):
    ps = sorted(R.rng.sample(PR, R.rng.randint(0, 4)))
    g = R.rng.choice([1, 1, 2, 3, 4])
    return [(p, g * R.rng.randint(1, emax)) for p in ps]


def g_facs(R):
    yield ([],)
    yield ([(-1, 1), (2, 2)],)
    for _ in range(R.n(800, 8000)):
        yield (rf(R),)


target('cls:is_square_factorization', K.is_square, g_facs, exact(lambda f: False if f and f[0][0] == -1 else sq(prod(f))), bounds='up to 4 primes')


def power(n, k=None):
    if k is not None and k < 1:
        return RAISE
    if n < 1:
        return RAISE
    if k is not None:
        r = iroot(k, n)
        return (r, k) if r ** k == n else False
    for k in range(n.bit_length() + 1, 1, -1):
        r = iroot(k, n)
        if r ** k == n and r > 1:
            return (r, k)
    return False


def chk(f):
    def o(args, out):
        e = f(*args)
        if isinstance(e, RAISE.__class__):
            return None if isinstance(out.exc, ValueError) else 'ValueError'
        return None if out.ok and same(out.v, e) else 'expected %r' % (e,)
    return o


def g_pow(R):
    for n in range(-3, 2200):
        yield (n,)
    for _ in range(R.n(1500, 30000)):
        b = R.rng.randint(2, 60)
        yield (b ** R.rng.randint(1, 24) + R.rng.choice([0, 0, 0, 1, -1]),)
    for b in (2, 3, 6, 10, 12):
        for e in range(2, R.n(40, 70)):
            yield (b ** e,)


target('cls:is_power', K.is_power, g_pow, chk(power), bounds='n < 60^24')


def g_powk(R):
    for n in range(-1, 300):
        for k in (-1, 0, 1, 2, 3, 5, 8):
            yield (n, k)
    for _ in range(R.n(2000, 30000)):
        k = R.rng.randint(1, 12)
        yield (R.rng.randint(1, 3000) ** k + R.rng.choice([0, 0, 1]), R.rng.choice([k, k, R.rng.randint(1, 12)]))


target('cls:is_power_k', lambda n, k: K.is_power(n, k), g_powk, chk(power), bounds='n < 3000^12')
target('cls:is_power_factorization', K.is_power, g_facs, chk(lambda f: RAISE if f and f[0][0] == -1 else power(prod(f))), bounds='up to 4 primes')
target('cls:is_power_factorization_k', lambda f, k: K.is_power(f, k), lambda R: ((rf(R), R.rng.randint(0, 6)) for _ in range(R.n(800, 8000))),
       chk(lambda f, k: power(prod(f), k)), bounds='up to 4 primes')


def power2(n):
    for k in range(2, n.bit_length() + 1):
        r = iroot(k, n)
        if r ** k == n:
            return (r, k)
    return False


target('cls:is_power2', K.is_power2, lambda R: ((x[0],) for x in g_pow(R) if x[0] >= 1), exact(power2), bounds='n < 60^24')
target('cls:is_squarefree', K.is_squarefree, lambda R: [(n,) for n in range(1, R.n(4000, 20000))] + [(R.rng.randint(1, 3000) * R.rng.choice([1, 4, 9, 49, 121, 10201]),) for _ in range(R.n(500, 5000))],
       exact(lambda n: all(e == 1 for p, e in fac(n))), bounds='n < 4*10^7')
target('cls:is_squarefree_factorization', K.is_squarefree, lambda R: ((rf(R, 2),) for _ in range(R.n(300, 3000))), exact(lambda f: all(e == 1 for p, e in f)))
FACTS = {factorial(i) for i in range(1, 60)}
target('cls:is_factorial', K.is_factorial, lambda R: [(n,) for n in range(-5, 6000)] + [(factorial(i) + d,) for i in range(1, 50) for d in (-1, 0, 1)],
       exact(lambda n: n in FACTS), bounds='n <= 49! + 1')


# --- misc
def g_ld(R):
    for n in range(1, R.n(180, 500)):
        for b in range(1, n + 1):
            yield (n, b)
    for _ in range(R.n(2000, 30000)):
        n = prod([(p, R.rng.randint(0, 6 if p < 6 else 1)) for p in (2, 3, 5, 7, 11)])
        yield (n, R.rng.randint(1, n) if R.rng.random() < .5 else R.rng.randint(1, isqrt(n) + 3))


def ldiv(n, b):
    f = fac(n)
    ds = [1]
    for p, e in f:
        ds = [d * p ** i for d in ds for i in range(e + 1)]
    return max(d for d in ds if d <= b)


target('misc:largest_divisor', M.largest_divisor, lambda R: ((n, min(n, b)) for n, b in g_ld(R)), exact(ldiv), bounds='n < 2.7*10^9')
TAU = [0] * 20001
for _i in range(1, 20001):
    for _j in range(_i, 20001, _i):
        TAU[_j] += 1
BEST = [0] * 20001
for _i in range(1, 20001):
    BEST[_i] = max(BEST[_i - 1], TAU[_i])
target('misc:maximize_divisors', M.maximize_divisors, lambda R: [(n,) for n in range(1, R.n(2000, 20001))] + [(R.rng.randint(2000, 20000),) for _ in range(500)],
       ok_if(lambda v, B: isinstance(v, tuple) and len(v) == 2 and 1 <= v[1] <= B and TAU[v[1]] == v[0] == BEST[B]), bounds='B <= 20000')


def bern(n):
    v = []
    for m in range(n + 1):
        v.append(Fraction(1) if m == 0 else -sum(comb(m + 1, k) * v[k] for k in range(m)) / (m + 1))
    return v


target('misc:bernoulli_list', M.bernoulli_list, lambda R: [(n,) for n in range(0, R.n(48, 90))], ok_if(lambda v, n: list(v) == bern(n)), bounds='n < 90')


# --- arithmetic progressions
def g_ap(R):
    yield ([1, 2],)
    yield ([1, 2, 4],)
    yield ([3, 4, 5, 6],)
    for n in range(2, 9):
        for _ in range(R.n(60, 600)):
            yield (sorted(R.rng.sample(range(1, 25), n)),)
    for _ in range(R.n(200, 3000)):
        n = R.rng.randint(3, 24)
        yield (sorted(R.rng.sample(range(1, R.rng.choice([30, 80, 400])), n)),)
    ps = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43]
    for i in range(2, 15):
        yield (ps[:i],)


def three(v, A, *idx):
    S = set(A)
    some = any(2 * b - a in S for i, a in enumerate(A) for b in A[i + 1:])
    if v is False:
        return not some
    if idx:
        i, j, k = v
        return 0 <= i < j < k < len(A) and A[i] + A[k] == 2 * A[j]
    return v[0] < v[1] < v[2] and v[0] + v[2] == 2 * v[1] and all(x in S for x in v)


target('ap:has_three_term_ap', AP.has_three_term_ap, g_ap, ok_if(three), bounds='up to 24 elements')
target('ap:has_three_term_ap_indices', lambda A: AP.has_three_term_ap(A, indices=True), g_ap, ok_if(lambda v, A: three(v, A, 1)), bounds='up to 24 elements')


def laps(A):
    S = set(A)
    best = []
    for i, a in enumerate(A):
        for b in A[i + 1:]:
            d = b - a
            L = [a, b]
            while L[-1] + d in S:
                L.append(L[-1] + d)
            if not best or len(L) > len(best[0]):
                best = []
            if not best or len(L) == len(best[0]):
                best.append(tuple(L))
    return sorted(best)


target('ap:longest_ap', AP.longest_ap, g_ap, ok_if(lambda v, A: list(v) == laps(A)), bounds='up to 24 elements')


# --- continued fractions
def cf_terms(d, p, q, n):
    """first n partial quotients of (p + sqrt(d))/q from rational enclosures"""
    k = 60 + 8 * n
    while True:
        s = 1 << k
        r = isqrt(d * s * s)
        lo, hi = Fraction(p * s + r, q * s), Fraction(p * s + r + 1, q * s)
        if q < 0:
            lo, hi = hi, lo
        out = []
        while len(out) < n:
            a = lo.numerator // lo.denominator
            if hi.numerator // hi.denominator != a or lo == a or hi == a:
                break
            out.append(a)
            lo, hi = 1 / (hi - a), 1 / (lo - a)
        if len(out) == n:
            return out
        k *= 2


def g_qi(R):
    for d in range(2, R.n(160, 500)):
        if isqrt(d) ** 2 != d:
            yield (d, 0, 1)
    for d in (2, 3, 5, 6, 7, 10, 13, 19, 21):
        for p in range(-4, 5):
            for q in (-4, -3, -2, -1, 1, 2, 3, 4, 6):
                yield (d, p, q)
    yield (7, 2, 4)
    yield (9, 1, 2)
    yield (49, 0, 1)
    for _ in range(R.n(250, 3000)):
        yield (R.rng.randint(2, 300), R.rng.randint(-30, 30), R.rng.choice([-1, 1]) * R.rng.randint(1, 25))


def qi_call(d, p, q):
    X = QuadraticIrrational(d, p, q)
    n = len(X.pre_period) + 2 * len(X.fundamental_period) + 3
    return (list(X.pre_period), list(X.fundamental_period), X.period_length, list(islice(X.partial_quotients(), n)),
            list(islice(X.convergents(), min(n, 30))), repr(X))


def qi_oracle(args, o):
    d, p, q = args
    if isqrt(d) ** 2 == d:
        return None if isinstance(o.exc, ValueError) else 'ValueError'
    if not o.ok:
        return 'no exception'
    pre, fund, plen, terms, conv, rep = o.v
    if not fund or plen != len(fund):
        return 'period_length is the length of the period'
    e = cf_terms(d, p, q, len(terms))
    if terms != e:
        return 'partial quotients %r' % (e[:40],)
    if (pre + fund * 7)[:len(terms)] != terms:
        return 'partial quotients repeat the period'
    for t in range(1, plen):
        if plen % t == 0 and fund == fund[:t] * (plen // t):
            return 'the shortest period (%d)' % t
    if pre and pre[-1] == fund[-1]:
        return 'the shortest part before the period'
    for i, (a, b) in enumerate(conv):
        x = Fraction(terms[i])
        for t in reversed(terms[:i]):
            x = t + 1 / x
        if Fraction(a, b) != x or gcd(a, b) != 1 or b <= 0:
            return 'convergent %d is %r' % (i, x)
    m = '(%d + sqrt(%d))/%d' % (p, d, q) if p and q != 1 else '%d + sqrt(%d)' % (p, d) if p else 'sqrt(%d)' % d if q == 1 else 'sqrt(%d)/%d' % (d, q)
    if not rep.endswith(' ' + m):
        return 'text ends with %s' % m
    return None


target('cf:quadratic_irrational', qi_call, g_qi, qi_oracle, bounds='d <= 500, |p| <= 30, |q| <= 25')


# --- Pell equations
def fund(D, n):
    y = 1
    while True:
        t = D * y * y + n
        x = isqrt(t)
        if x * x == t and x > 0:
            return x, y
        y += 1


SMALLU = {}


def unit(D):
    """least solution of x^2 - D y^2 = 1 with y below 3000, else None"""
    if D not in SMALLU:
        SMALLU[D] = next(((isqrt(D * y * y + 1), y) for y in range(1, 3000) if isqrt(D * y * y + 1) ** 2 == D * y * y + 1), None)
    return SMALLU[D]


def cfpell(D, n):
    """fundamental solution through reduced forms (cycle of sqrt(D)): independent recurrences on big integers"""
    m, d, a = 0, 1, isqrt(D)
    a0 = a
    h1, h = 1, a
    k1, k = 0, 1
    per = 0
    while True:
        if h * h - D * k * k == n:
            return h, k
        m = d * a - m
        d = (D - m * m) // d
        a = (a0 + m) // d
        h1, h = h, a * h + h1
        k1, k = k, a * k + k1
        per += 1
        if per > 4000:
            return None


def perlen(D):
    m, d, a0 = 0, 1, isqrt(D)
    a, per = a0, 0
    while True:
        m = d * a - m
        d = (D - m * m) // d
        a = (a0 + m) // d
        per += 1
        if a == 2 * a0:
            return per


def pf_oracle(args, o):
    D, n = args
    if D <= 0 or isqrt(D) ** 2 == D or n not in (1, -1):
        return None if isinstance(o.exc, ValueError) else 'ValueError'
    if n == -1 and perlen(D) % 2 == 0:
        return None if isinstance(o.exc, ValueError) else 'ValueError (no solution)'
    e = None
    for y in range(1, 400):
        t = D * y * y + n
        if t > 0 and isqrt(t) ** 2 == t:
            e = (isqrt(t), y)
            break
    e = e or cfpell(D, n)
    return None if o.ok and tuple(o.v) == e else repr(e)


def g_pf(R):
    for D in range(-3, R.n(400, 2500)):
        yield (D, 1)
        yield (D, -1)
    for D in (2, 7):
        for n in (0, 2, -2, 5):
            yield (D, n)
    for _ in range(R.n(100, 2000)):
        yield (R.rng.randint(2, 10 ** 5), R.rng.choice([1, -1]))


target('pell:pell_fundamental_solution', lambda D, n: PL.pell_fundamental_solution(D, n), g_pf, pf_oracle, bounds='D <= 10^5')
target('pell:resolvent_solution', lambda D, n: PL.PellEquation(D, n).resolvent_solution(), lambda R: ((D, n) for D in range(2, 120) for n in (1, -1, 3)), pf_oracle, bounds='D < 120')


def classes(D, N):
    u, v = unit(D)
    n = abs(N)
    lim = 2 * u * (isqrt((u + 1) * n // 2 + 2) + 2) + 10
    found = []
    y = 1
    while D * y * y + N <= lim * lim:
        t = D * y * y + N
        if t > 0:
            x = isqrt(t)
            if x * x == t and not any((x * a - D * y * b) % n == 0 and (x * b - a * y) % n == 0 for a, b in found):
                found.append((x, y))
        y += 1
    return sorted(found)


def g_pm(R):
    for D in (2, 3, 5, 6, 7, 8, 10, 11, 12, 13, 14, 15, 17, 18, 20, 21, 22, 23, 24, 26, 27, 30, 34, 35, 37, 40, 41):
        u = unit(D)
        for N in list(range(-30, 50)) + [-100, -72, 49, 64, 81, 100, 108, 121, 144, 225, 288, 338, 343, 529]:
            if N and u[0] <= R.n(60, 400):
                yield (D, N)
    for _ in range(R.n(40, 400)):
        D = R.rng.choice([2, 3, 5, 6, 8, 10, 11, 12, 15, 20, 24, 35])
        yield (D, R.rng.choice([-1, 1]) * R.rng.randint(50, 2000))


target('pell:pell_minimal_positive_solutions', PL.pell_minimal_positive_solutions, g_pm, ok_if(lambda v, D, N: True if list(map(tuple, v)) == classes(D, N) else repr(classes(D, N))), bounds='D <= 41, |N| <= 2000')


def big_oracle(args, o):
    D, N, xy = args
    return None if o.ok and xy in [tuple(x) for x in o.v] else 'a list holding %r' % (xy,)


def allsols(D, N, B):
    out = []
    y = 1
    while y <= B:
        t = D * y * y + N
        if t > 0 and isqrt(t) ** 2 == t and isqrt(t) <= B:
            out.append((isqrt(t), y))
        y += 1
    return sorted(out)


def g_ps(R):
    for D, N in list(g_pm(R))[::R.n(5, 1)]:
        yield (D, N, R.rng.choice([1, 10, 100, 1000, 3000]))


target('pell:pell_solution_generator', lambda D, N, B: sorted(PL.pell_solution_generator(D, N, B)), g_ps, ok_if(lambda v, D, N, B: True if [tuple(x) for x in v] == allsols(D, N, B) else repr(allsols(D, N, B))), bounds='D <= 41, |N| <= 2000, B <= 3000')
