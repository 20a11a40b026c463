from pyvc.contract import C, Loop as L
from pyvc.spec import macro
A = 'number_theory.factorization.algorithms:'
F = 'number_theory.factorization.factorization:'
BIG = '999968000256'      # 999984 ** 2
PI = 'list[tuple[int,int]]'

C(F + 'factor_back', 'fac:%s -> int' % PI,
  requires=['forall(i, 0, len(fac), fac[i][1] >= 0)'],
  ensures=['result == prodPE(arr(fac), len(fac))'],
  loops={0: L(inv=['pp == prodPE(arr(fac), _i0)'], head=['use prodPE_succ(arr(fac), _i0)'])},
  entry=['use prodPE_zero(arr(fac))'])

# every factoring method returns a divisor > 1 of its argument
DIV = ['result > 1', 'result <= n', 'n % result == 0']
C(A + 'pollard_rho_brent', 'n:int -> int', requires=['n >= 4'], ensures=DIV,
  loops={2: L(brk=['use gcd_dvd(prod, n)', 'use dvd_le(n, g)']),
         4: L(brk=['use gcd_dvd(x - ys, n)', 'use dvd_le(n, g)'])})
C(A + 'pollard_rho', 'n:int, iterations:int=None -> int', requires=['n >= 4'], ensures=DIV,
  exit=['useall q:int {gcdZ(q, n)} => gcd_dvd(q, n)', 'use dvd_le(n, result)', 'use mod_self(n)'])
C(A + 'pollard_rho', 'n:int, iterations:int -> int', variant='limited', requires=['n >= 4'], ensures=DIV,
  exit=['useall q:int {gcdZ(q, n)} => gcd_dvd(q, n)', 'use dvd_le(n, result)', 'use mod_self(n)'])
C(A + 'fermat', 'n:int -> int', requires=['n >= 2'],
  ensures=DIV + ['implies(result == n, isprime(n))'],
  loops={0: L(inv=['ffree(n, _lo0, _lo0 + _i0)', 'n % 2 == 1'],
              head=['use ff_start(n, _lo0)', 'ghost a_prev = _lo0 + _i0', 'use ff_div(n, _lo0 + _i0, b)', 'use ff_done(n, _lo0 - 1, _lo0 + _i0)'],
              pre=['use ff_start(n, _lo0)'], end=['use ff_step(n, _lo0, a_prev, b)'])},
  exit=['use mod_self(n)', 'use ff_div(n, a, b)', 'use dvd_le(n, result)'],
  entry=['use prime_two()'])
C(A + 'lehman', 'n:int -> int', requires=['n >= 2'], entry=['use powZ_one_base(3)'], ensures=['result >= 1', 'result <= n', 'n % result == 0'],
    exit=['useall q:int {gcdZ(q, n)} => gcd_dvd(q, n)', 'use dvd_le(n, result)', 'use mod_self(n)'])
C(A + 'pollard_p_minus_1', 'n:int, limit:int -> int', requires=['n >= 2'], ensures=['result >= 1', 'result <= n', 'n % result == 0'],
  exit=['useall q:int {gcdZ(q, n)} => gcd_dvd(q, n)', 'use dvd_le(n, result)', 'use mod_self(n)'])


FACI = ['finD(dom(fac))', 'prodF(dom(fac), vals(fac)) * n == old(n)', 'n >= 1',
        'forallT(int, k, implies(dom(fac)[k], vals(fac)[k] >= 1 and (k == -1 or k >= 2)), dom(fac)[k])',
        'iff(dom(fac)[-1], old(n) < 0)', 'implies(dom(fac)[-1], vals(fac)[-1] == 1)',
        'forallT(int, k, implies(dom(fac)[k] and k >= 2 and k < 341550071728321, isprime(k)), dom(fac)[k])']


def INC(p):
    return ['use prodF_inc(D0, V0, %s, dom(fac), vals(fac))' % p]


SNAP = ['ghost D0 = dom(fac)', 'ghost V0 = vals(fac)']
C(F + 'factor', 'n:int, skip_trial_division:bool=False, skip_power_detection:bool=True, use_cfrac:bool=False -> %s' % PI,
  raises=[('ValueError', 'n == 0')],
  ensures=['prodPE(arr(result), len(result)) == n',
           'forall2(i, j, 0 <= i and i < j and j < len(result), result[i][0] < result[j][0], result[i], result[j])',
           'forall(i, 0, len(result), result[i][1] >= 1 and (result[i][0] == -1 or result[i][0] >= 2))',
           'forall(i, 0, len(result), implies(result[i][0] >= 2 and result[i][0] < 341550071728321, isprime(result[i][0])))',
           'implies(n > 0, forall(i, 0, len(result), result[i][0] >= 2))',
           'implies(n < 0, len(result) >= 1 and result[0] == (-1, 1))'],
  types={'defaultdict': 'dict[int,int]'},
  loops={0: L(inv=FACI + ['forall(j, 0, _i0, n % nthp(j) != 0)'],
              pre=['use prodF_empty(dom(fac), vals(fac))', 'use prodF_single(dom(fac), vals(fac), -1)'],
              head=['use nthp_prime(_i0)', 'use trial_done(n, _i0)', 'ghost n0 = n'] + SNAP,
              brk=INC('n0'), end=[]),
         1: L(inv=FACI + ['forall(j, 0, _i0, n % nthp(j) != 0)', 'p == nthp(_i0)'],
              head=SNAP + ['use mod_div_mul(n, p)', 'useall q:int {nthp(q)} => div_dvd(n, p, nthp(q))'], end=INC('p'), dec='n'),
         2: L(inv=FACI, head=SNAP + ['ghost n1 = n'], end=INC('n1'), dec='n'),
         3: L(inv=FACI + ['d > 1', 'n % d == 0', 'n > 1', 'not isprime(n)'], head=['ghost d0 = d'], end=['use mod_trans(n, d0, d)']),
         4: L(inv=FACI + ['d > 1', 'n <= n1', 'implies(n == n1, n % d == 0)'], head=SNAP + ['use mod_div_mul(n, d)'], end=INC('d'), dec='n')},
  entry=['use prime_two()', 'useall k:int {isprime(k)} => prime_ge2(k)'],
  exit=['assert forall2(i, j, 0 <= i and i < j and j < len(result), result[i][0] < result[j][0], result[i], result[j])',
        'assert forallT(int, k, implies(dom(fac)[k], exists(i, 0, len(result), result[i][0] == k)), dom(fac)[k])',
        'assert forall(i, 0, len(result), dom(fac)[result[i][0]] and result[i][1] == vals(fac)[result[i][0]])',
        'use prodF_list(dom(fac), vals(fac), arr(result), len(result))'])

PDE = ['forall2(i, j, 0 <= i and i < j and j < len(result), result[i] < result[j], result[i], result[j])']
C(F + 'prime_divisors', 'n:int, factorization:int=None -> list[int]', requires=['n != 0'],
  ensures=PDE + ['forall(i, 0, len(result), result[i] >= 2 and abs(n) % result[i] == 0)',
                 'forall(i, 0, len(result), implies(result[i] < 341550071728321, isprime(result[i])))',
                 'forallT(int, q, implies(isprime(q) and abs(n) % q == 0, exists(i, 0, len(result), result[i] % q == 0)), isprime(q))',
                 'forallT(int, q, implies(isprime(q) and abs(n) % q == 0 and abs(n) < 341550071728321, exists(i, 0, len(result), result[i] == q)), isprime(q))'],
  exit=['useall i:int {result[i]} => prodPE_dvd(arr(now_factorization), len(now_factorization), i)',
        'useall q:int {isprime(q)} => prodPE_prime(arr(now_factorization), len(now_factorization), q)',
        'useall q:int {isprime(q)} => prime_ge2(q)',
        'assert forall(i, 0, len(result), N % result[i] == 0, result[i])',
        'assert forallT(int, q, implies(isprime(q) and abs(n) % q == 0, exists(i, 0, len(result), result[i] % q == 0)), isprime(q))',
        'useall x:int {N % x} => dvd_le(N, x)', 'useall i:int {result[i]} => prime_dvd(result[i], 2)',
        'useall q:int, i:int {isprime(q), result[i]} => prime_dvd(result[i], q)'],
  entry=['witness N:int | N == abs(n)'])
DIVSET = ['forall2(i, j, 0 <= i and i < j and j < len(result), result[i] < result[j], result[i], result[j])',
          'forall(i, 0, len(result), result[i] >= 1 and abs(n) % result[i] == 0, result[i])',
          'forallT(int, d, implies(d >= 1 and abs(n) % d == 0, exists(i, 0, len(result), result[i] == d)), abs(n) % d)']
C(F + 'divisors', 'n:int, factorization:int=None -> list[int]', requires=['n != 0'], ensures=DIVSET,
  trusted='assumed where it is called (itertools.product is outside the translation); checked on concrete inputs by the bounded checks of property C08')
