from pyvc.contract import C, Loop as L, GlobalSpec
from pyvc.spec import macro
P = 'number_theory.primes.primality:'
A = 'number_theory.factorization.algorithms:'

GlobalSpec('number_theory.prime_list:_PRIME_LIST', 'list[int]',
           ['len(self) == 78498', 'forall2(i, j, 0 <= i and i < j and j < 78498, self[i] < self[j], self[i], self[j])', 'forall(j, 0, 78498, self[j] == nthp(j), self[j])', 'self[78497] == 999983', 'self[0] == 2',
            'self[1] == 3', 'self[2] == 5'],
           'the constant is compared on every run with an independent sieve of the primes up to 10**6',
           '''
s = bytearray([1]) * 1000001
s[0] = s[1] = 0
for i in range(2, 1001):
    if s[i]:
        for j in range(i * i, 1000001, i):
            s[j] = 0
ok = self == [i for i in range(1000001) if s[i]] and len(self) == 78498 and self[-1] == 999983
''')

COP30 = '(d % 30 == 1 or d % 30 == 7 or d % 30 == 11 or d % 30 == 13 or d % 30 == 17 or d % 30 == 19 or d % 30 == 23 or d % 30 == 29)'
PL = '_PRIME_LIST'
WE = ['use wheel_step(n, d0, d)']
C(A + 'trial_division', 'n:int, bound:int=None -> int',
  requires=['n >= 2'],
  ensures=['result >= 2', 'n % result == 0', 'isprime(result)', 'forall(q, 2, result, n % q != 0)'],
  loops={0: L(inv=['forall(j, 0, _i0, n % nthp(j) != 0, nthp(j))'],
              head=['use trial_found(n, _i0)', 'use trial_done(n, _i0)', 'use nthp_prime(_i0)', 'use least_div_prime(n, nthp(_i0))'],
              exit=['use trial_found(n, 78498)', 'use nthp_pc(999983)', 'use trial_found(n, 78497)', 'use notprime_dvd(n, 999983)']),
         1: L(inv=['d > 5', COP30, 'n % 2 != 0', 'n % 3 != 0', 'n % 5 != 0', 'forall(q, 2, d, n % q != 0)'],
              head=['ghost d0 = d', 'use least_div_prime(n, d)', 'use sqrt_div_prime(n, d)'], end=WE,
              dec='bound + 1 - d')},
  entry=['use mod_self(n)'],
  exit=['useall q:int {n % q} => prime_dvd(n, q)'])
C(A + 'trial_division', 'n:int, bound:int -> int', variant='bound',
  requires=['n >= 2', 'bound >= 1'],
  ensures=['result >= 2', 'n % result == 0',
           'implies(result != n, isprime(result) and result <= bound and forall(q, 2, result, n % q != 0))',
           'implies(result == n, forall(q, 2, min(bound + 1, n), n % q != 0))'],
  loops={0: L(inv=['forall(j, 0, _i0, n % nthp(j) != 0, nthp(j))'],
              head=['use trial_found(n, _i0)', 'use nthp_prime(_i0)', 'use least_div_prime(n, nthp(_i0))'],
              exit=['use trial_found(n, 78498)', 'use nthp_pc(999983)', 'use trial_found(n, 78497)', 'use notprime_dvd(n, 999983)']),
         1: L(inv=['d > 5', COP30, 'n % 2 != 0', 'n % 3 != 0', 'n % 5 != 0', 'forall(q, 2, d, n % q != 0)'],
              head=['ghost d0 = d', 'use least_div_prime(n, d)'], end=WE,
              dec='bound + 1 - d')},
  entry=['use mod_self(n)'])

for v, extra in (('', 'a:int=None'), ('a', 'a:int')):
    C(P + 'miller_rabin', 'n:int, %s -> bool' % extra, variant=v,
      requires=['n >= 4' if not v else 'n >= 2'],
      ensures=['implies(isprime(n)%s, result)' % (' and a % n != 0' if v else '')] + (['implies(result, sprp(n, a))'] if v else []),
      loops={0: L(inv=['t >= 1', 's >= 0', 'n - 1 == powZ(2, s) * t', 'isbound(a)', 'a % n != 0' if not v else '0 == 0'],
                  head=['use powZ_succ(2, s)'], dec='t', pre=['use powZ_zero(2)', 'use small_mod(a, n)']),
             1: L(inv=['implies(isprime(n) and a % n != 0, powZ(b, powZ(2, s - _i1)) % n == 1)', 'implies(isprime(n) and a % n != 0, b != 1)', 'b != n - 1', '0 <= b', 'b < n',
                       '_i1 <= max(s - 1, 0)', 'b == powZ(a, powZ(2, _i1) * t) % n', 't % 2 == 1', 't >= 1', 's >= 0', 'n - 1 == powZ(2, s) * t'],
                  head=['use mr_step(b, s - _i1, n)', 'use mr_root(b, n)', 'use sprp_sq(b, a, _i1, t, n)', 'use sprp_r(n, a, s, t, _i1 + 1)'],
                  pre=['use mr_start(a, s, t, n)', 'use fermat_little(n, a)', 'use powZ_zero(2)'],
                  exit=['use mr_root(b, n)', 'use powZ_one(2)', 'use powZ_two(b)', 'use powZ_zero(2)', 'use powZ_one(b)', 'use small_mod1(b, n)'])},
      exit=['use sprp_one(n, a, s, t)', 'use sprp_r(n, a, s, t, 0)', 'use powZ_zero(2)'] if v else [])

C(P + 'solovay_strassen', 'n:int, a:int -> bool', variant='a',
  requires=['n >= 3', 'n % 2 == 1'],
  ensures=['implies(isprime(n) and a % n != 0, result)'],
  entry=['use euler_criterion(a, n)', 'use jac_prime_zero(a, n)'])
C(P + 'solovay_strassen', 'n:int, a:int=None -> bool',
  requires=['n >= 5', 'n % 2 == 1'],
  ensures=['implies(isprime(n), result)'],
  exit=['use euler_criterion(now_a, n)', 'use jac_prime_zero(now_a, n)', 'use small_mod(now_a, n)'])

C(P + 'is_probable_prime', 'n:int -> bool',
  ensures=['implies(isprime(n), result)', 'implies(result and 4 <= n and n < 341550071728321, isprime(n))'],
  entry=['useall q:int {q % n} => small_mod(q, n)', 'use psw_bound(n)'])
C(P + 'is_prime', 'n:int -> bool',
  ensures=['result == isprime(n)'],
  entry=['use nthp_pc(n)', 'use pc_iff(n, 78497)', 'useall j:int {nthp(j)} => nthp_prime(j)', 'use pc_iff(n, pc(n))'],
  exit=['use mod_self(n)', 'use prime_dvd(n, d)'])
for f, t in (('next_prime', 'isprime'), ('next_probable_prime', 'implies(result < nextp(n), false) and not isprime')):
    pass
C(P + 'next_prime', 'n:int -> int',
  ensures=['isprime(result)', 'result > n', 'forall(q, n + 1, result, not isprime(q), isprime(q))'],
  loops={0: L(inv=['n > old(n)', 'n >= 3', 'n % 2 == 1', 'forall(q, old(n) + 1, n, not isprime(q), isprime(q))', 'nextp(old(n)) >= n'],
              head=['use notprime_dvd(n + 1, 2)'], dec='nextp(old(n)) + 1 - n',
              pre=['use notprime_dvd(old(n) + 1, 2)'])},
  entry=['use nextp_spec(n)', 'use prime_two()'], uses=['prime_ge2'])
C(P + 'next_probable_prime', 'n:int -> int',
  ensures=['result > n', 'forall(q, n + 1, result, not isprime(q), isprime(q))', 'result >= 2'],
  loops={0: L(inv=['n > old(n)', 'n >= 3', 'n % 2 == 1', 'forall(q, old(n) + 1, n, not isprime(q), isprime(q))', 'nextp(old(n)) >= n'],
              head=['use notprime_dvd(n + 1, 2)'], dec='nextp(old(n)) + 1 - n',
              pre=['use notprime_dvd(old(n) + 1, 2)'])},
  entry=['use nextp_spec(n)', 'use prime_two()'], uses=['prime_ge2'])
C(P + 'random_prime', 'a:int, b:int -> int', requires=['a <= b'], ensures=['a <= result', 'result <= b', 'isprime(result)'])
C(P + 'lucas_lehmer', 'p:int -> bool', requires=['p >= 3'], ensures=['result == isprime(powZ(2, p) - 1)'],
  loops={0: L(inv=['v == llS(p, _i0)'], head=['use ll_succ(p, _i0)'])},
  entry=['use ll_zero(p)'], exit=['use ll_test(p)'])
C(P + 'miller_rabin_deterministic', 'n:int -> bool',
  ensures=['implies(isprime(n), result)', 'implies(n < 2, not result)'],
  loops={0: L(inv=['n >= 2'])}, uses=['prime_ge2'],
  entry=['useall q:int {q % n} => small_mod(q, n)'])
