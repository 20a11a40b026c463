from pyvc.contract import C, Loop as L
from pyvc.spec import macro
PA = 'algebra.polynomials.algorithms:'
PSM = 'algebra.power_series.power_series:'
macro('zx(X, t)', 'ite(0 <= t and t < len(X), X[t], 0)')
macro('pcv(X, Y, t)', 'pconv(arr(X), len(X), arr(Y), len(Y), t)')
MX = 'ite(len(%s) >= len(%s), len(%s), len(%s))'
for nm, sg in (('list_add', '+'), ('list_subtract', '-')):
    def lp(x, y, s0, s1):
        return L(inv=['len(C) == len(%s)' % x, 'forall(t, 0, len(C), C[t] == %s%s[t] %s ite(t < _i%%d, %s[t], 0), C[t])' % (s0, x, s1, y)])
    l0 = lp('A', 'B', '', sg)
    l1 = lp('B', 'A', '' if sg == '+' else '-', '+')
    l0.inv = [i % 0 if '%d' in i else i for i in l0.inv]
    k = 1 
    l1.inv = [i % k if '%d' in i else i for i in l1.inv]
    C(PA + nm, 'A:list[int], B:list[int] -> list[int]', ensures=['len(result) == ite(len(A) >= len(B), len(A), len(B))', 'forallT(int, t, zx(result, t) == zx(A, t) %s zx(B, t), result[t])' % sg], loops={0: l0, 1: l1})
MC = dict(requires=[], ensures=['len(result) == ite(len(M) == 0 or len(N) == 0, 0, len(M) + len(N) - 1)', 'forall(t, 0, len(result), result[t] == pcv(M, N, t), result[t])'],
  entry=['useall t:int {pconv(arr(M), 0, arr(N), len(N), t)} => pconv_zero(arr(M), 0, arr(N), len(N), t)'],
  loops={0: L(inv=['len(P) == m + n - 1', 'forall(t, 0, len(P), P[t] == pconv(arr(M), _i0, arr(N), n, t), P[t])']),
         1: L(inv=['len(P) == m + n - 1', 'forall(t, 0, len(P), P[t] == pconv(arr(M), _i0, arr(N), n, t) + ite(0 <= t - _i0 and t - _i0 < _i1, M[_i0] * N[t - _i0], 0), P[t])'],
              exit=['useall t:int {pconv(arr(M), _i0 + 1, arr(N), n, t)} => pconv_row(arr(M), _i0, arr(N), n, t)'])})
C(PA + 'mul_classical', 'M:list[int], N:list[int] -> list[int]', **MC)
PCL = 'ite(len(M) + len(N) >= 1, len(M) + len(N) - 1, 0)'
C(PSM + 'ps_mult_classical', 'M:list[int], N:list[int] -> list[int]', **dict(MC, ensures=['len(result) == ' + PCL, MC['ensures'][1]], loops={k: L(inv=['len(P) == ' + PCL] + l.inv[1:], exit=l.exit) for k, l in MC['loops'].items()}))
KARA = 'use kara(arr(M), m, arr(N), n, arr(f0), len(f0), arr(f1), len(f1), arr(g0), len(g0), arr(g1), len(g1), arr(f1_f0), len(f1_f0), arr(g1_g0), len(g1_g0), k, t)'
KAR = dict(ensures=['forallT(int, t, zx(result, t) == pcv(M, N, t), result[t])', 'implies(len(M) >= 1 and len(N) >= 1, len(result) >= len(M) + len(N) - 1)'], types={'recursive': True},
  exit=['useall t:int {pconv(arr(M), m, arr(N), n, t)} => ' + KARA[4:], 'useall t:int {pconv(arr(M), m, arr(N), n, t)} => pconv_out(arr(M), m, arr(N), n, t)'])
C(PA + 'mul_karatsuba', 'M:list[int], N:list[int] -> list[int]', **KAR)
C(PA + 'power_jcp', 'A:list[int], k:int -> list[int]', requires=['len(A) >= 1', 'k >= 0'], ensures=['forallT(int, t, zx(result, t) == pw(arr(A), len(A), k, t), result[t])', 'len(result) >= 1'],
  loops={0: L(inv=['0 <= shift', 'shift < len(A)', 'forall(j, 0, shift, A[j] == 0)']),
         1: L(inv=['len(P) == new_deg', 'n == len(A) - shift', 'new_deg == (n - 1) * k + 1', 'n >= 1', 'a0 != 0', 'forall(t, 0, i, P[t] == pw(arr(B), n, k, t), P[t])', 'i >= 1'],
              pre=['use pw_zero(arr(B), n, k)'], head=['use jcp(arr(B), n, arr(P), k, i)', 'use mul_fdiv(i * a0, pw(arr(B), n, k, i))', 'assert i * a0 != 0']),
         2: L(inv=['ss == jsum(arr(B), arr(P), k, i, j)'], pre=['use jsum_one(arr(B), arr(P), k, i, 1)'], head=['use jsum_row(arr(B), arr(P), k, i, j)'])},
  exit=['useall t:int {pw(arr(A), len(A), k, t)} => pw_null(arr(A), len(A), k, t)', 'useall t:int {pw(arr(B), len(B), k, t)} => pw_out(arr(B), len(B), k, t)', 'useall t:int {pw(arr(A), len(A), k, t)} => pw_shift(arr(A), len(A), arr(B), shift, k, t)'])
C(PSM + 'ps_power', 'A:list[int], k:int -> list[int]', requires=['len(A) >= 1', 'k >= 0', 'A[0] != 0'], ensures=['len(result) == len(A)', 'forall(t, 0, len(A), result[t] == pw(arr(A), len(A), k, t), result[t])'],
  loops={0: L(inv=['len(P) == n', 'forall(t, 0, i, P[t] == pw(arr(A), n, k, t), P[t])', 'i >= 1'], pre=['use pw_zero(arr(A), n, k)'], head=['use jcp(arr(A), n, arr(P), k, i)', 'use mul_fdiv(i * a0, pw(arr(A), n, k, i))', 'assert i * a0 != 0']),
         1: L(inv=['ss == jsum(arr(A), arr(P), k, i, j)'], pre=['use jsum_one(arr(A), arr(P), k, i, 1)'], head=['use jsum_row(arr(A), arr(P), k, i, j)'])})
C(PSM + 'ps_invert', 'A:list[int] -> list[int]', requires=['len(A) >= 1', 'A[0] == 1 or A[0] == -1'], ensures=['len(result) == len(A)', 'forall(t, 0, len(A), pcv(A, result, t) == ite(t == 0, 1, 0), result[t])'],
  loops={0: L(inv=['len(B) == n', 'k >= 1', 'forall(t, 0, k, pconv(arr(A), n, arr(B), n, t) == ite(t == 0, 1, 0), pconv(arr(A), n, arr(B), n, t))', 'forall(t, k, n, B[t] == 0, B[t])'],
              pre=['use pconv_rows(arr(A), n, arr(B), n, 0)', 'use pconv_row(arr(A), 0, arr(B), n, 0)', 'use pconv_zero(arr(A), 0, arr(B), n, 0)'],
              head=['ghost B0 = B', 'ghost kk = k'],
              end=['useall t:int {pconv(arr(A), n, arr(B), n, t)} => pconv_store(arr(A), n, arr(B0), n, kk, B[kk], t)']),
         1: L(inv=['ss == pconv(arr(A), i, arr(B), n, k)'], pre=['use pconv_zero(arr(A), 0, arr(B), n, k)'], head=['use pconv_row(arr(A), i, arr(B), n, k)'], exit=['use pconv_rows(arr(A), n, arr(B), n, k)'])})
PSK = dict(KAR, exit=['assert forallT(int, t, zx(f1_f0, t) == zx(f1, t) + zx(f0, t), f1_f0[t])', 'assert forallT(int, t, zx(g1_g0, t) == zx(g1, t) + zx(g0, t), g1_g0[t])',
  'assert forallT(int, t, zx(z1, t) == zx(xxyy, t) - zx(z2, t) - zx(z0, t), z1[t])', 'assert forallT(int, t, zx(t1, t) == zx(z1, t - k), t1[t])', 'assert forallT(int, t, zx(t2, t) == zx(z2, t - 2 * k), t2[t])',
  'assert forallT(int, t, zx(result, t) == zx(t2, t) + zx(t1, t) + zx(z0, t), result[t])'] + KAR['exit'])
C(PSM + 'ps_mult_karatsuba', 'M:list[int], N:list[int] -> list[int]', 'default', **PSK)
C(PSM + 'ps_mult_karatsuba', 'M:list[int], N:list[int], kthresh:int -> list[int]', **PSK)
from pyvc.contract import ClassSpec
PO = 'algebra.polynomials.polynomials:Polynomial'
ClassSpec(PO, {'degree': 'int', '_coefficients': 'list[int]', 'lead_coeff': 'int', 'variable': 'str'})
def NORM(o):
    c = o + '._coefficients'
    return ['len(%s) >= 1' % c, 'len(%s) == 1 or %s[len(%s) - 1] != 0' % (c, c, c), '%s.degree == len(%s) - 1' % (o, c), '%s.lead_coeff == %s[len(%s) - 1]' % (o, c, c)]
INI = lambda c: dict(modifies=['self'], ensures=NORM('self') + ['forallT(int, t, zx(self._coefficients, t) == %s, self._coefficients[t])' % c, 'self.variable == name'],
  loops={0: L(inv=['num_coeffs == len(coeffs)', 'len(coeffs) >= 1', 'forallT(int, t, zx(coeffs, t) == zx(L, t), coeffs[t])'])})
C(PO + '.__init__', 'self:Polynomial, L:list[int], name:str -> None', **INI('zx(L, t)'))
C(PO + '.__init__', 'self:Polynomial, L:int, name:str -> None', 'int', **dict(INI('ite(t == 0, L, 0)'), loops={}))
RES = lambda c, v='self': NORM('result') + ['forallT(int, t, zx(result._coefficients, t) == %s, result._coefficients[t])' % c, 'result.variable == %s.variable' % v]
SC, OC = 'self._coefficients', 'other._coefficients'
for nm, e, ei in [('__add__', 'zx(%s, t) + zx(%s, t)' % (SC, OC), 'zx(%s, t) + ite(t == 0, other, 0)' % SC), ('__sub__', 'zx(%s, t) - zx(%s, t)' % (SC, OC), 'zx(%s, t) - ite(t == 0, other, 0)' % SC),
                  ('__mul__', 'pcv(%s, %s, t)' % (SC, OC), 'other * zx(%s, t)' % SC)]:
    C(PO + '.' + nm, 'self:Polynomial, other:Polynomial -> Polynomial', requires=NORM('self') + NORM('other'), ensures=RES(e))
    C(PO + '.' + nm, 'self:Polynomial, other:int -> Polynomial', 'int', requires=NORM('self'), ensures=RES(ei))
C(PO + '.__neg__', 'self:Polynomial -> Polynomial', requires=NORM('self'), ensures=RES('-zx(%s, t)' % SC))
C(PO + '.__radd__', 'self:Polynomial, other:int -> Polynomial', requires=NORM('self'), ensures=RES('zx(%s, t) + ite(t == 0, other, 0)' % SC))
C(PO + '.__rsub__', 'self:Polynomial, other:int -> Polynomial', requires=NORM('self'), ensures=RES('ite(t == 0, other, 0) - zx(%s, t)' % SC))
C(PO + '.__rmul__', 'self:Polynomial, other:int -> Polynomial', requires=NORM('self'), ensures=RES('other * zx(%s, t)' % SC))
C(PO + '.__pow__', 'self:Polynomial, k:int -> Polynomial', requires=NORM('self') + ['k >= 0'], ensures=RES('pw(arr(%s), len(%s), k, t)' % (SC, SC)))
C(PO + '.__getitem__', 'self:Polynomial, index:int -> int', requires=NORM('self') + ['0 <= index and index <= self.degree'], ensures=['result == self._coefficients[index]'])
C(PO + '.__eq__', 'self:Polynomial, other:Polynomial -> bool', requires=NORM('self') + NORM('other'), ensures=['iff(result, forallT(int, t, zx(%s, t) == zx(%s, t), %s[t], %s[t]))' % (SC, OC, SC, OC)])
C(PO + '.__ne__', 'self:Polynomial, other:Polynomial -> bool', requires=NORM('self') + NORM('other'), ensures=['iff(not result, forallT(int, t, zx(%s, t) == zx(%s, t), %s[t], %s[t]))' % (SC, OC, SC, OC)])
C(PO + '.__eq__', 'self:Polynomial, other:int -> bool', 'int', requires=NORM('self'), ensures=['iff(result, forallT(int, t, zx(%s, t) == ite(t == 0, other, 0), %s[t]))' % (SC, SC)])
C(PO + '.coefficients', 'self:Polynomial -> list[int]', ensures=['len(result) == len(%s)' % SC, 'forall(t, 0, len(result), result[t] == %s[t], result[t])' % SC])
C(PO + '.__call__', 'self:Polynomial, x:int -> int', requires=NORM('self'), ensures=['result == psuf(arr(%s), len(%s), 0, x)' % (SC, SC)], entry=['use psuf_end(arr(%s), len(%s), x)' % (SC, SC)],
  loops={0: L(inv=['value == psuf(arr(%s), len(%s), len(%s) - _i0, x)' % (SC, SC, SC)], head=['use psuf_step(arr(%s), len(%s), len(%s) - _i0 - 1, x)' % (SC, SC, SC)])})

QA, QB = 'arr(%s)' % SC, 'arr(%s)' % OC
ZA = 'zx(%s, t)' % SC
def PQ(q, t='t'):
    return 'pconv(arr(%s), len(%s), arr(%s), len(%s), %s)' % (q, q, OC, OC, t)
NZ = '(len(%s) >= 2 or %s[0] != 0)' % (OC, OC)
DEG = 'implies(%s[len(%s) - 1] == 1 or %s[len(%s) - 1] == -1, len(result[1]._coefficients) < len(%s) or len(result[1]._coefficients) == 1 and result[1]._coefficients[0] == 0)' % (OC, OC, OC, OC, OC)
BL = ['len(b) == l', 'len(a) == k', 'forall(t, 0, l, b[t] == %s[t], b[t])' % OC, 'len(r) == k', 'len(q) == k - l + 1', 'l == len(%s)' % OC, 'k == len(%s)' % SC, 'lc == %s[l - 1]' % OC, 'lc != 0', 'l >= 1', 'k >= l']
UNIT = 'implies(lc == 1 or lc == -1, forall(t, i + l, k, r[t] == 0, r[t]))'
C(PO + '.quo_rem', 'self:Polynomial, other:Polynomial -> tuple[Polynomial,Polynomial]', requires=NORM('self') + NORM('other') + [NZ], raises=[('ValueError', 'len(%s) >= len(%s) and %s[len(%s) - 1] %% %s[len(%s) - 1] != 0' % (SC, OC, SC, SC, OC, OC))],
  ensures=NORM('result[0]') + NORM('result[1]') + [DEG, 'forallT(int, t, zx(%s, t) == pcv(result[0]._coefficients, %s, t) + zx(result[1]._coefficients, t), %s[t], result[1]._coefficients[t])' % (SC, OC, SC)],
  loops={0: L(inv=BL + ['i >= -1', 'forall(t, 0, k, %s[t] == %s + r[t], r[t])' % (SC, PQ('q')), 'forall(t, 0, i + 1, q[t] == 0, q[t])', UNIT], pre=['useall t:int {%s} => pconv_null(arr(q), len(q), arr(%s), len(%s), t)' % (PQ('q'), OC, OC)], exit=['useall t:int {%s} => pconv_out(arr(q), len(q), %s, len(%s), t)' % (PQ('q'), QB, OC), 'assert forallT(int, t, zx(%s, t) == %s + zx(r, t), %s[t], r[t])' % (SC, PQ('q'), SC)], head=['ghost r0 = r', 'ghost q0 = q', 'ghost ii = i'],
              end=['useall t:int {%s} => pconv_set(arr(q0), len(q0), arr(%s), len(%s), ii, q[ii], t)' % (PQ('q'), OC, OC)]),
         1: L(inv=BL + ['forall(t, 0, k, r[t] == r0[t] - ite(i <= t and t < i + j, q[i] * %s[t - i], 0), r[t])' % OC])},
  exit=['useall t:int {pcv(result[0]._coefficients, %s, t)} => pconv_null(arr(result[0]._coefficients), len(result[0]._coefficients), arr(%s), len(%s), t)' % (OC, OC, OC),
        'useall t:int {pcv(result[0]._coefficients, %s, t)} => pconv_zx(arr(result[0]._coefficients), len(result[0]._coefficients), arr(q), len(q), arr(%s), len(%s), t)' % (OC, OC, OC)])
PB = ['len(u) == m + 1', 'len(v) == n + 1', 'm == len(%s) - 1' % SC, 'n == len(%s) - 1' % OC, 'm >= n', 'n >= 0', 'len(q) == m - n + 1', 'forall(t, 0, n + 1, v[t] == %s[t], v[t])' % OC]
C(PO + '.pseudo_quo_rem', 'self:Polynomial, other:Polynomial -> tuple[Polynomial,Polynomial]', requires=NORM('self') + NORM('other') + [NZ],
  ensures=NORM('result[0]') + NORM('result[1]') + ['implies(len(%s) < len(%s), len(result[0]._coefficients) == 1 and result[0]._coefficients[0] == 0 and forallT(int, t, zx(result[1]._coefficients, t) == zx(%s, t), %s[t]))' % (SC, OC, SC, SC),
    'implies(len(%s) >= len(%s), forallT(int, t, powZ(%s[len(%s) - 1], len(%s) - len(%s) + 1) * zx(%s, t) == pcv(result[0]._coefficients, %s, t) + zx(result[1]._coefficients, t), %s[t], result[1]._coefficients[t]))' % (SC, OC, OC, OC, SC, OC, SC, OC, SC),
    'len(result[1]._coefficients) < len(%s) or len(result[1]._coefficients) == 1 and result[1]._coefficients[0] == 0' % OC],
  loops={0: L(inv=PB + ['k >= -1', 'forall(t, 0, m + 1, powZ(v[n], m - n + 1) * %s[t] == %s + powZ(v[n], k + 1) * ite(t <= n + k, u[t], 0), u[t])' % (SC, PQ('q')), 'forall(t, 0, k + 1, q[t] == 0, q[t])'],
              pre=['useall t:int {%s} => pconv_null(arr(q), len(q), arr(%s), len(%s), t)' % (PQ('q'), OC, OC)], head=['ghost u0 = u', 'ghost q0 = q', 'ghost kk = k', 'use powZ_succ(v[n], k)'],
              end=['useall t:int {%s} => pconv_set(arr(q0), len(q0), arr(%s), len(%s), kk, q[kk], t)' % (PQ('q'), OC, OC), 'useall t:int {u[t]} => pq_ring(powZ(v[n], kk), v[n], u0[t], u0[n + kk], v[t - kk])'],
              exit=['useall t:int {%s} => pconv_out(arr(q), len(q), %s, len(%s), t)' % (PQ('q'), QB, OC), 'use powZ_zero(v[n])', 'assert k == 0', 'assert forall(t, 0, m + 1, powZ(v[n], m - n + 1) * %s[t] == %s + ite(t < n, u[t], 0), u[t])' % (SC, PQ('q')), 'assert forallT(int, t, powZ(v[n], m - n + 1) * zx(%s, t) == %s + ite(t < n, zx(u, t), 0), %s[t], u[t])' % (SC, PQ('q'), SC)]),
         1: L(inv=PB + ['k >= 0 and k <= m - n and j >= -1 and j < n + k', 'forall(t, 0, m + 1, u[t] == ite(t > j and t < n + k, ite(t >= k, v[n] * u0[t] - u0[n + k] * v[t - k], v[n] * u0[t]), u0[t]), u[t])'])},
  exit=['useall t:int {pcv(result[0]._coefficients, %s, t)} => pconv_null(arr(result[0]._coefficients), len(result[0]._coefficients), arr(%s), len(%s), t)' % (OC, OC, OC),
        'useall t:int {pcv(result[0]._coefficients, %s, t)} => pconv_zx(arr(result[0]._coefficients), len(result[0]._coefficients), arr(q), len(q), arr(%s), len(%s), t)' % (OC, OC, OC)])
