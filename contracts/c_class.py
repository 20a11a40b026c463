from pyvc.contract import C, Loop as L, GlobalSpec
K = 'number_theory.classification:'
PI = 'list[tuple[int,int]]'
NF = 'arr(n_factorization)'
for m in (64, 45045):
    GlobalSpec(K + '_IsSquare.q%d' % m, 'list[int]', ['len(self) == %d' % m, 'forall(k, 0, %d, self[sqmod(k, %d)] != 0, sqmod(k, %d))' % (m, m, m)],
               'the class constant is checked on every run to mark every square residue',
               'ok = len(self) == %d and all(self[k * k %% %d] != 0 for k in range(%d))' % (m, m, m))
Q = '_IsSquare.q'
ROOT = ['implies(result is not None, result >= 0 and result * result == $N and issq($N))', 'implies(result is None, not issq($N))']


def root(n):
    return [x.replace('$N', n) for x in ROOT]


C(K + '_IsSquare.is_square', 'n:int -> opt[int]', types={'false': 'none'}, requires=['n >= 0'],
  ensures=root('n'),
  exit=['use sq_res(n, 64)', 'use sq_res(n, 45045)', 'use root_uniq(n, q)', 'use issq_intro(n, q)'])
C(K + 'is_square', 'n:int -> opt[int]', types={'false': 'none'}, ensures=root('n'), exit=['use sq_kpow(n)', 'use issq_intro(n, n)'])
C(K + 'is_square', 'n:%s -> opt[int]' % PI, variant='fac', types={'false': 'none'}, requires=['pfok(arr(n), len(n))'],
  ensures=root('prodPE(arr(n), len(n))'),
  entry=['use pfok_at(arr(n), len(n), 0)', 'use prodPE_zero(arr(n))'],
  loops={0: L(inv=['sqrt >= 0', 'sqrt * sqrt == prodPE(%s, _i0)' % NF], exit=['use issq_intro(prodPE(arr(n), len(n)), sqrt)'],
              head=['use prodPE_succ(%s, _i0)' % NF, 'use pfok_at(arr(n), len(n), _i0)', 'use sq_kpow(prodPE(arr(n), len(n)))', 'use pf_kpow(arr(n), len(n), 2)',
                    'ghost s0 = sqrt', 'use issq_intro(prodPE(%s, _i0), sqrt)' % NF, 'use powZ_add(n[_i0][0], n[_i0][1] // 2, n[_i0][1] // 2)', 'use powZ_pos(n[_i0][0], n[_i0][1] // 2)', 'use pf_div(n[_i0][1], 2)'])})
POW = ['implies(result is not None, result[0] >= 1 and result[1] >= 2 and powZ(result[0], result[1]) == $N)',
       'implies(result is not None, not perfpow(result[0]))',
       'implies(result is None, $N == 1 or not perfpow($N))']
C(K + 'is_power', 'n:int, k:none -> opt[tuple[int,int]]', types={'false': 'none'}, raises=[('ValueError', 'n < 1')],
  ensures=[x.replace('$N', 'n') for x in POW], dec='n',
  entry=['use bitlen_bounds(n)', 'use powZ_mono(2, 1, bitlen(n) - 1)', 'use powZ_one(2)', 'use powZ_mono(2, 0, 0)'],
  loops={2: L(inv=['forall(j, 2, k, not kpow(n, j), kpow(n, j))'], head=['useall r:int {powZ(r, k)} => kpow_root(n, k, r)', 'useall r:int {powZ(r, k)} => kpow_base(r, k, n)'],
              exit=['use perfpow_bound(n)']),
         3: L(inv=['base >= 2', 'base < n', 'exponent >= 2', 'powZ(base, exponent) == n'],
              head=['ghost b0 = base', 'ghost e0 = exponent'],
              end=['use powZ_powZ(base, next_step[1], e0)', 'use kpow_base(base, next_step[1], b0)'], dec='base')})
C(K + 'is_power', 'n:int, k:int -> opt[tuple[int,int]]', variant='k', types={'false': 'none'}, raises=[('ValueError', 'k < 1 or n < 1')],
  ensures=['implies(result is not None, result[1] == k and powZ(result[0], k) == n)', 'implies(result is None, not kpow(n, k))'],
  exit=['useall r:int {powZ(r, k)} => kpow_root(n, k, r)', 'use powZ_one(n)'])
C(K + 'is_power', 'n:%s, k:int -> opt[tuple[int,int]]' % PI, variant='fack', types={'false': 'none'}, requires=['pfok(arr(n), len(n))'], raises=[('ValueError', 'k < 1')],
  ensures=['implies(result is not None, result[1] == k and powZ(result[0], k) == prodPE(arr(n), len(n)))', 'implies(result is None, not kpow(prodPE(arr(n), len(n)), k))'],
  entry=['use pfok_at(arr(n), len(n), 0)', 'use prodPE_zero(arr(n))', 'use powZ_one_base(k)'],
  loops={0: L(inv=['powZ(kth_root, k) == prodPE(%s, _i0)' % NF],
              head=['use prodPE_succ(%s, _i0)' % NF, 'use pfok_at(arr(n), len(n), _i0)', 'use pf_kpow(arr(n), len(n), k)', 'use pf_div(n[_i0][1], k)',
                    'use powZ_powZ(n[_i0][0], n[_i0][1] // k, k)', 'use powZ_mulbase(kth_root, powZ(n[_i0][0], n[_i0][1] // k), k)'])})
C(K + 'is_power', 'n:%s, k:none -> opt[tuple[int,int]]' % PI, variant='fac', types={'false': 'none'}, requires=['pfok(arr(n), len(n))'],
  ensures=[x.replace('$N', 'prodPE(arr(n), len(n))') for x in POW],
  entry=['use pfok_at(arr(n), len(n), 0)', 'use prodPE_zero(arr(n))', 'useall d:int {powZ(1, d)} => powZ_one_base(d)'],
  after={'d': ['use perfpow_def(prodPE(arr(n), len(n)))', 'assert forall(i, 0, len(n), exponents[i] == n[i][1])', 'use gcdA_dvd(arr(exponents), len(n))', 'use gcdA_zero(arr(exponents))', 'use gcdA_succ(arr(exponents), 0)', 'use gcd_zero_left(exponents[0])',
               'useall k:int {kpow(prodPE(arr(n), len(n)), k)} => pf_gcd_one(arr(n), arr(exponents), len(n), k)']},
  loops={1: L(inv=['kth_root >= 1', 'powZ(kth_root, d) == prodPE(%s, _i1)' % NF],
              head=['use prodPE_succ(%s, _i1)' % NF, 'use pfok_at(arr(n), len(n), _i1)', 'use pf_div(n[_i1][1], d)', 'use powZ_pos(n[_i1][0], n[_i1][1] // d)',
                    'use powZ_powZ(n[_i1][0], n[_i1][1] // d, d)', 'use powZ_mulbase(kth_root, powZ(n[_i1][0], n[_i1][1] // d), d)'],
              exit=['use base_notpow(arr(n), arr(exponents), len(n), kth_root, d)'])})
C(K + 'is_power2', 'n:int -> opt[tuple[int,int]]', types={'false': 'none'},
  ensures=['implies(result is not None, result[0] >= 0 and result[1] >= 2 and powZ(result[0], result[1]) == n and forall(j, 2, result[1], not kpow(n, j), kpow(n, j)))',
           'implies(result is None, n <= 1 or not perfpow(n))'],
  loops={0: L(inv=['k >= 2', 'forall(j, 2, k, not kpow(n, j), kpow(n, j))'], head=['use powZ_succ(2, k)', 'use perfpow_pow2(n, k)', 'useall r:int {powZ(r, k)} => kpow_root(n, k, r)', 'use powZ_pos(2, k)'],
              pre=['use powZ_two(2)'], dec='max(n + 1 - powZ(2, k), 0)')})
C(K + 'is_factorial', 'n:int -> bool', ensures=['implies(result, existsT(int, m, m >= 0 and factZ(m) == n))', 'implies(not result, forallT(int, m, implies(m >= 0, factZ(m) != n)))'],
  loops={0: L(inv=['k >= 2', 'product == factZ(k - 1)', 'k == 2 or factZ(k - 2) < n'], pre=['use fact_small()'],
              head=['use fact_pos(k - 1)', 'use fact_pos(k - 2)', 'use fact_gap(n, k)'], exit=['witness m:int | m == k - 1 and factZ(m) == product'], dec='max(n - product, 0)')})
