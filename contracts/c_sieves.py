from pyvc.contract import C, Loop as L
S = 'number_theory.primes.sieves:'
INC = 'forall2(i, j, 0 <= i and i < j and j < len(result), result[i] < result[j], result[i], result[j])'
UPTO = ['len(result) == pc(n + 1)', 'forall(j, 0, len(result), result[j] == nthp(j))', INC]
# result is an increasing list of exactly the primes <= n
ENUM = ['assert ' + INC, 'assert forall(i, 0, len(result), isprime(result[i]) and result[i] <= n, result[i])',
        'assert forallT(int, q, implies(isprime(q) and q <= n, exists(i, 0, len(result), result[i] == q)), isprime(q))',
        'use primes_enum(arr(result), len(result), n)']

C(S + 'eratosthenes2', 'n:int -> list[int]',
  ensures=UPTO,
  loops={0: L(inv=['len(block) == m', 'block[0] == 0', 'forall(j, 0, m, block[j] == 0 or block[j] == 1, block[j])',
                   'forall(j, 1, m, iff(block[j] == 1, surv(k6(j), k6(_i0))), block[j])'],
              head=['use surv_self(_i0)', 'use surv_of_prime(k6(_i0), k6(_i0))', 'use k6_def(_i0)', 'use k6_def(0)', 'ghost i0 = i', 'ghost bi = block[i]'],
              end=['useall j:int {k6(j)} => surv_skip(k6(j), i0)', 'useall j:int {k6(j)} => surv_cross(k6(j), i0)',
                   'useall j:int {k6(j)} => cross_hit(i0, j, k, a, b)', 'assert bi == 0 or k == k6(i0)'],
              pre=['use k6_def(0)', 'useall j:int {k6(j)} => surv_start(k6(j), k6(0))'])},
  entry=['use prime_two()'],
  exit=['useall j:int {k6(j)} => k6_def(j)', 'useall q:int {isprime(q)} => prime_k6(q)', 'useall q:int {isprime(q)} => prime_ge2(q)',
        'witness Q:int | Q == k6(sqrt // 3 + 1)', 'use k6_def(sqrt // 3 + 1)', 'assert Q >= sqrt + 1', 'assert Q * Q >= (sqrt + 1) * (sqrt + 1)',
        'useall j:int {k6(j)} => surv_prime(k6(j), Q)', 'useall q:int {isprime(q)} => surv_of_prime(q, Q)',
        'assert forallT(int, q, implies(isprime(q) and q <= n and q > 3, block[q // 3] == 1), isprime(q))'] + ENUM)
C(S + 'primes', 'n:int -> list[int]', ensures=UPTO,
  exit=['assert nthp(len(result)) == _PRIME_LIST[len(result)]', 'assert len(result) == 0 or nthp(len(result) - 1) == _PRIME_LIST[len(result) - 1]',
        'use pc_small(n + 1)', 'use pc_iff(n + 1, len(result))', 'use pc_iff(n + 1, len(result) - 1)'])

C(S + 'eratosthenes1', 'n:int -> list[int]',
  ensures=UPTO,
  loops={0: L(inv=['len(block) == m', 'forall(j, 0, m, block[j] == 0 or block[j] == 1, block[j])',
                   'forall(j, 1, m, iff(block[j] == 1, surv2(2 * j + 1, 2 * i + 1)), block[j])'],
              head=['use surv2_self(2 * i + 1)', 'ghost i0 = i', 'ghost bi = block[i]', 'use surv2_of_prime(2 * i + 1, 2 * i + 1)'],
              end=['useall v:int {surv2(v, 2 * i0 + 1 + 2)} => surv2_cross(v, 2 * i0 + 1)', 'useall v:int {surv2(v, 2 * i0 + 3)} => surv2_cross(v, 2 * i0 + 1)',
                   'assert bi == 0 or (k == 2 * i0 + 1 and start == k * k // 2)',
                   'useall v:int {surv2(v, 2 * i0 + 3)} => cross_hit2(2 * i0 + 1, v // 2, start)'],
              pre=['useall v:int {surv2(v, 3)} => surv2_start(v, 3)'])},
  entry=['use prime_two()'],
  exit=['useall q:int {isprime(q)} => prime_dvd(q, 2)', 'useall q:int {isprime(q)} => prime_ge2(q)',
        'witness Q:int | Q == 2 * sqrt + 3', 'assert forall(j, 1, m, iff(block[j] == 1, surv2(2 * j + 1, Q)), block[j])',
        'useall v:int {surv2(v, Q)} => surv2_prime(v, Q)', 'useall q:int {isprime(q)} => surv2_of_prime(q, Q)',
        'assert Q * Q > 2 * m',
        'assert forallT(int, q, implies(isprime(q) and q > 2, 2 * (q // 2) + 1 == q), isprime(q))',
        'assert forallT(int, q, implies(isprime(q) and q > 2, surv2(2 * (q // 2) + 1, Q)), isprime(q))',
        'assert forallT(int, q, implies(isprime(q) and q <= n and q > 2, 1 <= q // 2 and q // 2 < m), isprime(q))',
        'assert forallT(int, q, implies(isprime(q) and q <= n and q > 2, block[q // 2] == 1), isprime(q))'] + ENUM)
C(S + 'luo', 'n:int -> list[int]',
  ensures=UPTO,
  loops={0: L(inv=['len(block) == m', 'forall(j, 0, m, block[j] == 0 or block[j] == 1, block[j])',
                   't == 2 * k6(_i0)', '3 * a + 1 == k6(_i0) * k6(_i0)', 'k == 1 + _i0 % 2',
                   'forall(j, 1, m, iff(block[j] == 1, surv(k6(j), k6(_i0 + 1))), block[j])'],
              head=['use surv_self(_i0 + 1)', 'use surv_of_prime(k6(_i0 + 1), k6(_i0 + 1))', 'use k6_def(_i0)', 'use k6_def(_i0 + 1)', 'use luo_step(_i0 + 1)',
                    'ghost i0 = i', 'ghost bi = block[i]', 'ghost a0 = a'],
              end=['useall j:int {k6(j)} => surv_skip(k6(j), i0)', 'useall j:int {k6(j)} => surv_cross(k6(j), i0)',
                   'assert 3 * a + 1 == k6(i0) * k6(i0)', 'assert t == 2 * k6(i0)',
                   'assert bi == 0 or 3 * b + 2 == k6(i0) * k6(i0) + 4 * k6(i0) - 2 * k6(i0) * (i0 % 2)',
                   'useall j:int {k6(j)} => cross_hit(i0, j, k6(i0), a, b)'],
              pre=['use k6_def(0)', 'use k6_def(1)', 'useall j:int {k6(j)} => surv_start(k6(j), k6(1))', 'assert sqrt < m'])},
  entry=['use prime_two()', 'use isprime5()'],
  exit=['useall j:int {k6(j)} => k6_def(j)', 'useall q:int {isprime(q)} => prime_k6(q)', 'useall q:int {isprime(q)} => prime_ge2(q)',
        'witness Q:int | Q == k6(sqrt + 1)', 'use k6_def(sqrt + 1)', 'assert forall(j, 1, m, iff(block[j] == 1, surv(k6(j), Q)), block[j])', 'assert Q >= sqrt + 1', 'assert Q * Q >= (sqrt + 1) * (sqrt + 1)',
        'useall j:int {k6(j)} => surv_prime(k6(j), Q)', 'useall q:int {isprime(q)} => surv_of_prime(q, Q)',
        'assert forallT(int, q, implies(isprime(q) and q <= n and q > 3, block[q // 3] == 1), isprime(q))'] + ENUM)
