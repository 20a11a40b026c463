"""Executable contracts: matrices, polynomials and power series."""
import itertools as it
import random
from fractions import Fraction
from replay.base import RAISE, eq, eq_or_raise, ok_if, target
from rosemary.algebra.matrices.matrices import Matrix
from rosemary.algebra.polynomials import algorithms as PA
from rosemary.algebra.polynomials.polynomials import Polynomial, PolyZZ
from rosemary.algebra.power_series import power_series as PS


def mul(a, b):
    out = [0] * max(0, len(a) + len(b) - 1) if a and b else []
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] += x * y
    return out


def norm(a):
    a = list(a)
    while len(a) > 1 and a[-1] == 0:
        a.pop()
    return a or [0]


def add(a, b, s=1):
    return [x + s * y for x, y in it.zip_longest(a, b, fillvalue=0)]


def power(a, k):
    out = [1]
    for _ in range(k):
        out = mul(out, a)
    return out


def rl(R, lo, hi, m=9, nz=0.3):
    return [0 if R.rng.random() < nz else R.rng.randint(-m, m) for _ in range(R.rng.randint(lo, hi))]


def pairs(R, lo=0):
    for a in it.product((-1, 0, 2), repeat=2):
        for n in range(0, 4):
            for b in it.product((0, 3, -1), repeat=n):
                if n >= lo:
                    yield list(a), list(b)
                    yield list(b), list(a)
    for _ in range(R.n(200, 2000)):
        yield rl(R, max(lo, 0), 12), rl(R, max(lo, 0), 12)
    for _ in range(R.n(60, 400)):
        yield rl(R, 20, 130, 10 ** 6), rl(R, 20, 130, 10 ** 6)
    for n in (29, 30, 31, 39, 40, 41, 60, 61):
        for m in (29, 30, 31, 41, 90):
            yield rl(R, n, n, 99, 0.1), rl(R, m, m, 99, 0.1)


def keep(f):
    def g(a, b):
        x, y = list(a), list(b)
        r = f(x, y)
        assert x == a and y == b, 'an argument was changed'
        return r
    return g


target('pol:list_add', keep(PA.list_add), pairs, eq(lambda a, b: add(a, b)), bounds='lengths at most 130')
target('pol:list_subtract', keep(PA.list_subtract), pairs, eq(lambda a, b: add(a, b, -1)), bounds='lengths at most 130')
target('pol:mul_classical', keep(PA.mul_classical), pairs, eq(mul), bounds='lengths at most 130')
target('pol:mul_karatsuba', keep(lambda a, b: norm(PA.mul_karatsuba(a, b))), pairs, eq(lambda a, b: norm(mul(a, b))), bounds='lengths at most 130')


def g_pow(R):
    for n in range(1, 5):
        for a in it.product((-1, 0, 2), repeat=n):
            for k in range(0, 5):
                yield list(a), k
    for _ in range(R.n(200, 1500)):
        yield rl(R, 1, 7), R.rng.randint(0, 9)


target('pol:power_jcp', lambda a, k: norm(PA.power_jcp(a, k)), g_pow, eq(lambda a, k: norm(power(a, k))), bounds='at most 7 coefficients, exponent at most 9')


def ev(a, x):
    return sum(c * x ** i for i, c in enumerate(a))


def ops(a, b):
    p, q = Polynomial(a), Polynomial(b)
    c = b[0] if b else 3
    out = [r._coefficients for r in (p + q, p - q, p * q, -p, p + c, p - c, p * c, c + p, c - p, c * p)]
    assert p._coefficients == norm(a) == p.coefficients() and q._coefficients == norm(b), 'an operand was changed'
    assert p.degree == len(norm(a)) - 1 and p.lead_coeff == norm(a)[-1]
    return out + [p == q, p != q, p == c, p(3), p(-2), Polynomial().coefficients(), Polynomial(c).coefficients(), [p[i] for i in range(p.degree + 1)]]


def ops_ref(a, b):
    c = b[0] if b else 3
    a1, b1 = norm(a), norm(b)
    return [norm(r) for r in (add(a1, b1), add(a1, b1, -1), mul(a1, b1), [-x for x in a1], add(a1, [c]), add(a1, [-c]), [c * x for x in a1], add(a1, [c]), add([c], a1, -1), [c * x for x in a1])] + [
        a1 == b1, a1 != b1, a1 == [c], ev(a, 3), ev(a, -2), [0, 1], [c], a1]


target('pol:Polynomial', ops, pairs, eq(ops_ref), bounds='lengths at most 130')
target('pol:Polynomial.__pow__', lambda a, k: [(Polynomial(a) ** k)._coefficients, Polynomial(a).power_binary(k)._coefficients], g_pow, eq(lambda a, k: [norm(power(a, k))] * 2), bounds='at most 7 coefficients, exponent at most 9')


def g_div(R):
    for n in range(1, 5):
        for a in it.product((-2, 0, 3), repeat=n):
            for b in ([1], [3], [0, 1], [2, -1], [1, 0, 2], [-3, 2], [0, 0, 1]):
                yield list(a), b
    for _ in range(R.n(300, 3000)):
        yield rl(R, 1, 9), rl(R, 0, 5) + [R.rng.choice([1, -1, 1, 2, -3])]
    for _ in range(R.n(100, 1000)):
        b = rl(R, 0, 4) + [R.rng.choice([1, -1, 2, -3, 4])]
        yield mul(rl(R, 1, 4) + [R.rng.choice([1, -1, 2, -3])], b), b


def pdivides(b, a):
    a = list(a)
    while len(a) >= len(b):
        if a[-1] % b[-1]:
            return False
        q, k = a[-1] // b[-1], len(a) - len(b)
        for i, c in enumerate(b):
            a[k + i] -= q * c
        a.pop()
    return not any(a)


def div_ok(got, a, b):
    a, b = norm(a), norm(b)
    q, r = got
    if add(mul(q, b), r) and norm(add(mul(q, b), r)) != a:
        return 'a != q*b + r'
    if abs(b[-1]) == 1 and not (len(r) < len(b) or r == [0]):
        return 'deg r >= deg b'
    if pdivides(b, a) and r != [0]:
        return 'b divides a but the remainder is not 0'
    return True


def qr(a, b):
    q, r = Polynomial(a).quo_rem(Polynomial(b))
    return q._coefficients, r._coefficients


def qr_spec(a, b):
    a, b = norm(a), norm(b)
    return len(a) >= len(b) and a[-1] % b[-1] != 0


def qr_chk(a, b):
    try:
        got = qr(a, b)
    except ValueError:
        return RAISE
    return got


target('pol:quo_rem', qr_chk, g_div, ok_if(lambda got, a, b: (got is RAISE) if qr_spec(a, b) else got is not RAISE and div_ok(got, a, b)), bounds='at most 9 coefficients')


def pq_ok(got, a, b):
    a, b = norm(a), norm(b)
    q, r = got
    m, n = len(a) - 1, len(b) - 1
    if m < n:
        return q == [0] and r == a
    l = [b[-1] ** (m - n + 1) * x for x in a]
    return norm(add(mul(q, b), r)) == norm(l) and (len(r) <= n or r == [0])


target('pol:pseudo_quo_rem', lambda a, b: tuple(x._coefficients for x in Polynomial(a).pseudo_quo_rem(Polynomial(b))), g_div, ok_if(pq_ok), bounds='at most 9 coefficients')


def fmod(a, b):
    a, b = [Fraction(x) for x in a], [Fraction(x) for x in b]
    while len(a) >= len(b):
        q = a[-1] / b[-1]
        for i in range(len(b)):
            a[len(a) - len(b) + i] -= q * b[i]
        a.pop()
    while a and a[-1] == 0:
        a.pop()
    return a


def pgcd(a, b):
    from math import gcd
    cont = gcd(*a, *b)
    x, y = [Fraction(t) for t in norm(a)], [Fraction(t) for t in norm(b)]
    while y:
        x, y = y, fmod(x, y)
    d = 1
    for t in x:
        d = d * t.denominator // gcd(d, t.denominator)
    x = [int(t * d) for t in x]
    c = gcd(*x) * (1 if x[-1] > 0 else -1)
    return [t // c * cont for t in x]


def g_gcd(R):
    def p(hi):
        return rl(R, 0, hi, 6) + [R.rng.choice([1, 2, -3, 5])]
    for _ in range(R.n(400, 3000)):
        g, a, b = p(3), p(4), p(4)
        yield mul(g, a), mul(g, b)
        yield a, b
    for a, b in [([1], [3]), ([4], [6]), ([0, 4], [6]), ([-2, 0, 2], [2, 2]), ([0, 0, 2], [0, 2]), ([-1, 0, 1], [1, -2, 1])]:
        yield a, b
        yield b, a


target('pol:gcd', lambda a, b: PolyZZ(a).gcd(PolyZZ(b))._coefficients, g_gcd, eq(pgcd), bounds='degree at most 8')
target('pol:content', lambda a: (PolyZZ(a).content(), PolyZZ(a).primitive_part()._coefficients), lambda R: ((p[0],) for p in g_gcd(R)),
       ok_if(lambda got, a: got[0] > 0 and norm([got[0] * (1 if norm(a)[-1] > 0 else -1) * x for x in got[1]]) == norm(a) and pgcd(got[1], got[1]) == list(got[1])), bounds='degree at most 8')

# ---- power series -------------------------------------------------------------------------------


def g_ps(R, k=False, unit=False):
    for n in range(1, 5):
        for a in it.product((-1, 0, 2), repeat=n):
            if a[0] and (not unit or abs(a[0]) == 1):
                yield (list(a),)
    for _ in range(R.n(200, 2000)):
        yield ([R.rng.choice([1, -1]) if unit else R.rng.choice([1, -1, 2, 3, -5])] + rl(R, 0, 30),)


target('ps:ps_invert', PS.ps_invert, lambda R: g_ps(R, unit=True), ok_if(lambda got, a: len(got) == len(a) and mul(a, got)[:len(a)] == [1] + [0] * (len(a) - 1)), bounds='at most 31 coefficients')
target('ps:ps_power', PS.ps_power, lambda R: ((a, R.rng.randint(0, 6)) for (a,) in g_ps(R)), eq(lambda a, k: (power(a, k) + [0] * len(a))[:len(a)]), bounds='at most 31 coefficients, exponent at most 6')
target('ps:ps_mult_classical', keep(PS.ps_mult_classical), lambda R: ((a, b) for a, b in pairs(R, 1) if a and b), eq(mul), bounds='lengths at most 130')
target('ps:ps_mult_karatsuba', keep(lambda a, b: norm(PS.ps_mult_karatsuba(a, b))), lambda R: ((a, b) for a, b in pairs(R, 1) if a and b), eq(lambda a, b: norm(mul(a, b))), bounds='lengths at most 130')
target('ps:ps_mult_karatsuba_small', lambda a, b: norm(PS.ps_mult_karatsuba(a, b, 2)), lambda R: ((a, b) for a, b in pairs(R, 1) if a and b and len(a) < 20 and len(b) < 20), eq(lambda a, b: norm(mul(a, b))), bounds='lengths at most 12, threshold 2')


def eta(n):
    out = [1] + [0] * (n - 1)
    for k in range(1, n):
        for i in range(n - 1, k - 1, -1):
            out[i] -= out[i - k]
    return out


def delta(n):
    e = eta(n)
    out = [1] + [0] * (n - 1)
    for _ in range(24):
        out = mul(out, e)[:n]
    return out


target('ps:eta_series', PS.eta_series, lambda R: ((n,) for n in range(1, R.n(150, 600))), eq(eta), bounds='n < 600')
target('ps:delta_series', PS.delta_series, lambda R: ((n,) for n in range(1, R.n(40, 90))), eq(delta), bounds='n < 90')

# ---- matrices -----------------------------------------------------------------------------------


def rm(R, n, m, b=9, z=0.3):
    return [[0 if R.rng.random() < z else R.rng.randint(-b, b) for _ in range(m)] for _ in range(n)]


def ent(M, n, m):
    assert [[M[i, j] for j in range(m)] for i in range(n)] == [list(M[i]) for i in range(n)]
    assert M._Matrix__nrows == n and M._Matrix__ncols == m and len(M._Matrix__entries) == n and all(len(r) == m for r in M._Matrix__entries)
    return [list(M[i]) for i in range(n)]


def mat_ops(a, b, c):
    n, m, p = len(a), len(a[0]), len(c[0])
    A, B, D = Matrix([list(r) for r in a]), Matrix([list(r) for r in b]), Matrix([list(r) for r in c])
    out = [ent(A + B, n, m), ent(A - B, n, m), ent(-A, n, m), ent(A * D, n, p), ent(A * 3, n, m), ent(-2 * A, n, m), ent(B + A, n, m)]
    for r in range(n):
        if n > 1:
            out.append(ent(A.delete_row(r), n - 1, m))
    for r in range(m):
        if m > 1:
            out.append(ent(A.delete_col(r), n, m - 1))
    bad = []
    for f in (lambda: A + D, lambda: A - D):
        try:
            f()
            bad.append(False)
        except ValueError:
            bad.append(True)
    try:
        A * B
        bad.append(False)
    except ValueError:
        bad.append(True)
    assert ent(A, n, m) == a and ent(B, n, m) == b and ent(D, m, p) == c, 'an operand was changed'
    return out, bad


def mat_ref(a, b, c):
    n, m, p = len(a), len(a[0]), len(c[0])
    z = lambda f, x, y: [[f(s, t) for s, t in zip(u, v)] for u, v in zip(x, y)]
    out = [z(lambda s, t: s + t, a, b), z(lambda s, t: s - t, a, b), [[-s for s in u] for u in a], [[sum(a[i][k] * c[k][j] for k in range(m)) for j in range(p)] for i in range(n)], [[3 * s for s in u] for u in a],
           [[-2 * s for s in u] for u in a], z(lambda s, t: s + t, a, b)]
    if n > 1:
        out += [a[:r] + a[r + 1:] for r in range(n)]
    if m > 1:
        out += [[u[:r] + u[r + 1:] for u in a] for r in range(m)]
    return out, [(n, m) != (m, p)] * 2 + [n != m]


def g_mat(R):
    for _ in range(R.n(600, 6000)):
        n, m, p = (R.rng.randint(1, 5) for _ in range(3))
        b = R.rng.choice([2, 9, 10 ** 12])
        yield rm(R, n, m, b), rm(R, n, m, b), rm(R, m, p, b)


target('mat:arithmetic', mat_ops, g_mat, eq(mat_ref), bounds='at most 5 rows and columns')


def det(a):
    n = len(a)
    if n == 1:
        return a[0][0]
    return sum((-1) ** j * a[0][j] * det([r[:j] + r[j + 1:] for r in a[1:]]) for j in range(n) if a[0][j])


def g_det(R):
    for a in it.product((0, 1, -2), repeat=4):
        yield ([list(a[:2]), list(a[2:])],)
    for a in it.product((0, 1), repeat=9):
        yield ([list(a[:3]), list(a[3:6]), list(a[6:])],)
    for _ in range(R.n(500, 4000)):
        n = R.rng.randint(1, 6)
        yield (rm(R, n, n, R.rng.choice([1, 9, 10 ** 9]), R.rng.choice([0.1, 0.5, 0.7])),)


def det_call(a):
    A = Matrix([list(r) for r in a])
    d = A.determinant()
    assert ent(A, len(a), len(a)) == a, 'the matrix was changed'
    return d


target('mat:determinant', det_call, g_det, eq(det), bounds='order at most 6')


def det_err(a):
    try:
        return Matrix(a).determinant()
    except ValueError:
        return RAISE


target('mat:determinant_nonsquare', det_err, lambda R: ((rm(R, n, m),) for n in range(1, 5) for m in range(1, 5) if n != m), ok_if(lambda got, a: got is RAISE), bounds='at most 4 rows')
target('mat:constructors', lambda n, m: (ent(Matrix(n), n, n), ent(Matrix(n, m), n, m)), lambda R: ((n, m) for n in range(1, 6) for m in range(1, 6)), eq(lambda n, m: ([[0] * n for _ in range(n)], [[0] * m for _ in range(n)])), bounds='at most 5')


def setitem(a, i, j, v):
    A = Matrix([list(r) for r in a])
    A[i, j] = v
    x = ent(A, len(a), len(a[0]))
    A[i] = [v] * len(a[0])
    return x, ent(A, len(a), len(a[0]))


def setref(a, i, j, v):
    x = [list(r) for r in a]
    x[i][j] = v
    y = [list(r) for r in a]
    y[i] = [v] * len(a[0])
    return x, y


target('mat:setitem', setitem, lambda R: ((rm(R, n, m), R.rng.randrange(n), R.rng.randrange(m), R.rng.randint(-9, 9)) for _ in range(R.n(10, 60)) for n in range(1, 4) for m in range(1, 4)), eq(setref), bounds='at most 3 rows')
