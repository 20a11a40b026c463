from pyvc.contract import C, Loop as L
from pyvc.spec import macro
M = 'number_theory.core:'

C(M + 'gcd', 'x:int, y:int -> int',
  ensures=['result == gcdZ(x, y)', 'result >= 0'],
  loops={0: L(inv=['x >= 0', 'y >= 0', 'gcdZ(x, y) == gcdZ(old(x), old(y))'],
              head=['use gcd_step(x, y)', 'use gcd_zero(x)'], dec='y')},
  entry=['use gcd_abs(x, y)', 'use gcd_comm(x, y)', 'use gcd_comm(abs(x), abs(y))', 'use gcd_nonneg(x, y)'])

C(M + 'ext_gcd', 'x:int, y:int -> tuple[int, int, int]',
  ensures=['result[2] == gcdZ(x, y)', 'result[0] * x + result[1] * y == result[2]'],
  loops={0: L(inv=['d >= 0', 'w >= 0', 'a * x + b * y == d', 'u * x + v * y == w', 'gcdZ(d, w) == gcdZ(x, y)'],
              head=['use gcd_step(d, w)', 'use gcd_zero(d)'], dec='w')},
  entry=['use gcd_abs(x, y)', 'use gcd_comm(x, y)', 'use gcd_comm(abs(x), abs(y))'])

C(M + 'lcm', 'x:int, y:int -> int',
  ensures=['result == lcmZ(x, y)'],
  entry=['use lcm_def(x, y)', 'use lcm_zero(x, y)', 'use gcd_abs(x, y)', 'use gcd_dvd(x, y)'])

C(M + 'power_mod', 'a:int, k:int, m:int -> int',
  raises=[('ValueError', 'a < 0 or k < 0 or m < 1')],
  ensures=['result == powZ(a, k) % m'],
  loops={0: L(inv=['a >= 0', 'k >= 0', '0 <= t', 'k > 0 or t < m', '(t * powZ(a, k)) % m == powZ(old(a), old(k)) % m', 't < m or t == 1'],
              head=['use pm_odd(a, k, t, m)', 'use pm_even(a, k, t, m)', 'use powZ_zero(a)'], dec='k')},
  entry=['use powZ_zero(a)', 'use powZ_mod(a, k, m)', 'use powZ_zmod(a, k, m)'])

C(M + 'gcd_list', 'L:list[int] -> int',
  requires=['len(L) >= 1'],
  ensures=['result == gcdA(arr(L), len(L))'],
  loops={0: L(inv=['partial == gcdA(arr(L), i)'], head=['use gcdA_succ(arr(L), i)'])},
  entry=['use gcdA_zero(arr(L))', 'use gcdA_succ(arr(L), 0)', 'use gcdA_succ(arr(L), 1)', 'use gcd_zero_left(L[0])',
         'use gcd_abs1(L[0], L[1])'])

C(M + 'lcm_list', 'L:list[int] -> int',
  requires=['len(L) >= 1'],
  ensures=['result == lcmA(arr(L), len(L))'],
  loops={0: L(inv=['partial == lcmA(arr(L), i)'], head=['use lcmA_succ(arr(L), i)'])},
  entry=['use lcmA_zero(arr(L))', 'use lcmA_succ(arr(L), 0)', 'use lcmA_succ(arr(L), 1)', 'use lcm_one_left(L[0])',
         'use lcm_abs(L[0], L[1])'])

C(M + 'inverse_mod', 'a:int, m:int -> int',
  raises=[('ValueError', 'm < 2 or gcdZ(a, m) != 1')],
  ensures=['0 <= result', 'result < m', '(result * a) % m == 1'],
  exit=['use mod_mul(x, old(a), old(m))', 'use mod_add_mul(x * old(a), y, old(m))', 'use mod_add_mul(1, -y, old(m))'])

C(M + 'bit_count', 'n:int -> int',
  ensures=['result == popc(n)'],
  loops={0: L(inv=['n >= 0', 'count + popc(n) == popc(old(n))'],
              head=['use popc_band(n)', 'use popc_zero(n)'], dec='n')},
  entry=['use popc_zero(n)'])

C(M + 'integer_log', 'b:int, n:int -> int',
  raises=[('ValueError', 'b <= 1 or n <= 0')],
  ensures=['result >= 0', 'powZ(b, result) <= n', 'n < powZ(b, result + 1)'],
  loops={0: L(inv=['hi >= 1', 'p == powZ(b, hi)', 'p >= 2', 'hi == 1 or isbound(lo)',
                   'not isbound(lo) or (lo >= 1 and hi == 2 * lo and powZ(b, lo) <= n)'],
              head=['use powZ_add(b, hi, hi)'], dec='max(n + 1 - p, 0)'),
         1: L(inv=['isbound(lo)', '1 <= lo', 'lo < hi', 'powZ(b, lo) <= n', 'n < powZ(b, hi)'],
              head=['use powZ_succ(b, (lo + hi) // 2)', 'use powZ_pos(b, (lo + hi) // 2)'], dec='hi - lo')},
  entry=['use powZ_zero(b)', 'use powZ_one(b)', 'use bitlen_bounds(n)'],
  exit=['use powZ_succ(b, result)', 'use powZ_pos(b, result)'])

C(M + 'integer_sqrt', 'n:int -> int',
  raises=[('ValueError', 'n < 0')],
  ensures=['result >= 0', 'result * result <= n', 'n < (result + 1) * (result + 1)'],
  loops={0: L(inv=['x >= 1', '(x + 1) * (x + 1) > n'],
              head=['use sqrt_newton(x, n)', 'use sqrt_newton_exit(x, n)'], dec='x',
              pre=['use sqrt_newton_start(n)'])},
  entry=['use bitlen_zero(n)'])

C(M + 'integer_nth_root', 'n:int, m:int -> int',
  raises=[('ValueError', 'm < 0 or n < 1')],
  ensures=['result >= 0', 'powZ(result, n) <= m', 'm < powZ(result + 1, n)'],
  loops={0: L(inv=['x >= 1', 'powZ(x + 1, n) > m'],
              head=['use halley_step(x, n, m)', 'use halley_exit(x, n, m)'], dec='x',
              pre=['use nth_root_start(m, n)'])},
  entry=['use powZ_one(m)', 'use powZ_one(m + 1)', 'use powZ_zero_base(n)', 'use powZ_one_base(n)', 'use root_big_exp(m, n)',
         'use powZ_mono(2, 1, n)', 'use powZ_one(2)'],
  exit=['use powZ_two(result)', 'use powZ_two(result + 1)'])

C(M + 'chinese', 'congruences:list[tuple[int,int]] -> int',
  requires=['len(congruences) >= 1', 'forall(i, 0, len(congruences), congruences[i][1] >= 1)'],
  raises=[('ValueError', 'exists(i, 0, len(congruences), exists(j, 0, i, gcdZ(congruences[j][1], congruences[i][1]) != 1))')],
  ensures=['forall(i, 0, len(congruences), (result - congruences[i][0]) % congruences[i][1] == 0)',
           'implies(len(congruences) >= 2, 0 <= result and result < prodM(arr(congruences), len(congruences)))'],
  loops={0: L(inv=['m == prodM(arr(congruences), _i0 + 1)', 'm >= 1',
                   'forall(j, 0, _i0 + 1, (x - congruences[j][0]) % congruences[j][1] == 0)',
                   'forall(i, 0, _i0 + 1, forall(j, 0, i, gcdZ(congruences[j][1], congruences[i][1]) == 1))',
                   '_i0 == 0 or (0 <= x and x < m)'],
              head=['use prodM_succ(arr(congruences), _i0 + 1)', 'use prodM_pos(arr(congruences), _i0 + 2)',
                    'use prodM_gcd(arr(congruences), _i0 + 1, congruences[_i0 + 1][1])',
                    'ghost x0 = x', 'ghost m0 = m'],
              end=['use crt_new(u, v, m0, mi, x0, xi)',
                   'useall j:int {congruences[j]} => crt_old(u, v, m0, mi, x0, xi, congruences[j][1], congruences[j][0])',
                   'useall j:int {congruences[j]} => prodM_mod(arr(congruences), _i0, j)'])},
  entry=['use prodM_zero(arr(congruences))', 'use prodM_succ(arr(congruences), 0)', 'use mod_self_zero(congruences[0][1])',
         'use mod_self_zero(congruences[0][0])'])

C(M + 'crt_preconditioning_data', 'moduli:list[int] -> tuple[int, list[int], list[int], list[int], int]',
  requires=['len(moduli) >= 1', 'forall(i, 0, len(moduli), moduli[i] >= 1)'],
  raises=[('ValueError', 'exists(i, 1, len(moduli), moduli[i] < 2 or exists(j, 0, i, gcdZ(moduli[j], moduli[i]) != 1))')],
  ensures=['result[0] == len(moduli)', 'len(result[1]) == len(moduli)', 'len(result[2]) == len(moduli)', 'len(result[3]) == len(moduli)',
           'forall(i, 0, len(moduli), result[1][i] == moduli[i])',
           'forall(i, 0, len(moduli), result[2][i] == prodA(arr(moduli), i))',
           'forall(i, 1, len(moduli), (result[3][i] * prodA(arr(moduli), i) - 1) % moduli[i] == 0)',
           'result[4] == prodA(arr(moduli), len(moduli))'],
  loops={0: L(inv=['len(partial_products) == r', 'len(inverse_list) == r', 'r == len(moduli)',
                   'forall(j, 0, i, partial_products[j] == prodA(arr(moduli), j))',
                   'forall(j, 1, i, (inverse_list[j] * prodA(arr(moduli), j) - 1) % moduli[j] == 0)',
                   'forall(k, 1, i, moduli[k] >= 2 and forall(j, 0, k, gcdZ(moduli[j], moduli[k]) == 1))'],
              head=['use prodA_succ(arr(moduli), i - 1)', 'use prodA_gcd(arr(moduli), i, moduli[i])'],
              end=['use mod1_sub(inverse_list[i - 1] * prodA(arr(moduli), i - 1), moduli[i - 1])'])},
  entry=['use prodA_zero(arr(moduli))'],
  exit=['use prodA_succ(arr(moduli), len(moduli) - 1)'])

C(M + 'chinese_preconditioned',
  'congruences:list[tuple[int,int]], preconditioning_data:tuple[int, list[int], list[int], list[int], int] -> int',
  requires=['preconditioning_data[0] == len(congruences)', 'len(congruences) >= 1',
            'len(preconditioning_data[1]) == len(congruences)', 'len(preconditioning_data[2]) == len(congruences)',
            'len(preconditioning_data[3]) == len(congruences)',
            'forall(i, 0, len(congruences), preconditioning_data[1][i] == congruences[i][1] and congruences[i][1] >= 1)',
            'forall(i, 0, len(congruences), preconditioning_data[2][i] == prodM(arr(congruences), i))',
            'forall(i, 1, len(congruences), (preconditioning_data[3][i] * prodM(arr(congruences), i) - 1) % congruences[i][1] == 0)',
            'preconditioning_data[4] == prodM(arr(congruences), len(congruences))'],
  ensures=['forall(i, 0, len(congruences), (result - congruences[i][0]) % congruences[i][1] == 0)',
           '0 <= result', 'result < prodM(arr(congruences), len(congruences))'],
  loops={0: L(inv=['forall(j, 0, i, (x - congruences[j][0]) % congruences[j][1] == 0)'],
              head=['ghost x0 = x',
                    'use garner_new(x, inverse_list[i], prodM(arr(congruences), i), congruences[i][0], congruences[i][1])'],
              end=['useall j:int {congruences[j]} => garner_old(x0, u, prodM(arr(congruences), i - 1), congruences[j][0], congruences[j][1])',
                   'useall j:int {congruences[j]} => prodM_mod(arr(congruences), i - 1, j)'])},
  entry=['use prodM_pos(arr(congruences), len(congruences))', 'use mod_self_zero(congruences[0][1])'],
  exit=['useall j:int {congruences[j]} => congr_mod(x, congruences[j][0], congruences[j][1], product)',
        'useall j:int {congruences[j]} => prodM_mod(arr(congruences), len(congruences), j)'])

C(M + 'jacobi_symbol', 'a:int, m:int -> int',
  requires=['m >= 1'],
  raises=[('ValueError', 'm % 2 == 0')],
  ensures=['result == jac(a, m)'],
  loops={0: L(inv=['m >= 1', 'm % 2 == 1', '0 <= a', 'a < m', 't * jac(a, m) == jac(old(a), old(m))', 't == 1 or t == -1'],
              head=['use jac_zero(m)'], end=['use jac_mod(m_prev, m)'], dec='m'),
         1: L(inv=['1 <= a', 'a < m', 't * jac(a, m) == jac(old(a), old(m))', 't == 1 or t == -1'],
              head=['use jac_even(a, m)'], exit=['use jac_rec(a, m)', 'use jac_mod(m, a)', 'ghost m_prev = m'], dec='a')},
  entry=['use jac_mod(a, m)'])

C(M + 'valuation', 'p:int, n:int -> int',
  requires=['abs(p) >= 2', 'n != 0'],
  ensures=['result >= 0', 'n % powZ(abs(p), result) == 0', 'n % powZ(abs(p), result + 1) != 0'],
  loops={0: L(inv=['hi >= 1', 'pk == powZ(p, hi)', 'pk >= 2', 'hi == 1 or isbound(lo)', 'p == abs(old(p))', 'n == abs(old(n))',
                   'not isbound(lo) or (lo >= 1 and hi == 2 * lo and n % powZ(p, lo) == 0)'],
              head=['use powZ_add(p, hi, hi)', 'use pow_dvd_sq(p, hi, n)'], dec='max(n + 1 - pk, 0)'),
         1: L(inv=['isbound(lo)', '1 <= lo', 'lo < hi', 'n % powZ(p, lo) == 0', 'n % powZ(p, hi) != 0'],
              head=['use powZ_pos(p, (lo + hi) // 2)'], dec='hi - lo')},
  entry=['use powZ_one(abs(p))', 'use powZ_zero(abs(p))', 'use mod_neg_zero(n, abs(p))', 'use mod_abs(n, abs(p))'],
  exit=['use mod_abs(old(n), powZ(abs(old(p)), result))', 'use mod_abs(old(n), powZ(abs(old(p)), result + 1))'])
