from pyvc.contract import C, Loop as L
P = 'number_theory.primes.prime_counting:'

VPRE = ['use rootp_of(n, r)', 'useall i:int {V[i]} => quo_def(n, i + 1)', 'use quo_def(n, r)', 'assert len(V) == r + quo(n, r) - 1',
        'assert forall(j, 0, r, V[j] == quo(n, j + 1), V[j])', 'assert forall(j, r, len(V), V[j] == quo(n, r) - 1 - (j - r), V[j])',
        'assert rootp(n, r)', 'forget nonlinear', 'use quot_all(n, r)', 'use qd_all(n, r)',
        'assert forall2(i, j, 0 <= i and i < j and j < len(V), V[i] > V[j], V[i], V[j])',
        'assert V[0] == n and forall(j, 0, len(V), dom(S)[V[j]] and qd(n, r, V[j]) and 1 <= V[j] and V[j] <= n, V[j])',
        'assert forallT(int, x, implies(x >= 1 and x <= quo(n, r), x == quo(n, r) or V[r + quo(n, r) - 1 - x] == x), qd(n, r, x))',
        'assert V[r - 1] == quo(n, r)', 'assert forall(i, 1, r + 1, V[i - 1] == quo(n, i), quo(n, i))',
        'assert forallT(int, x, implies(qd(n, r, x), exists(j, 0, len(V), V[j] == x)), qd(n, r, x))']
VDOM = ['assert forallT(int, x, implies(dom(S)[x], exists(j, 0, len(V), V[j] == x)), dom(S)[x])']
START = {'S': ['useall x:int {vals(S)[x]} => lucyS_start(x)', 'assert forallT(int, x, implies(dom(S)[x] and x >= 1, vals(S)[x] == lucyS(x, 1)), vals(S)[x])'],
         'D': ['useall x:int {vals(S)[x]} => lucyD_start(x)', 'assert forallT(int, x, implies(dom(S)[x] and x >= 1, vals(S)[x] == lucyD(x, 2)), vals(S)[x])', 'use lucyD_two()']}
DOM = 'forallT(int, x, iff(dom(S)[x], qd(n, r, x)), dom(S)[x])'
for f, F, k, pr in (('prime_sum', 'S', '1 + _i0', 'lucy_prime(p)'), ('prime_count', 'D', 'max(2, 1 + _i0)', 'lucyD_prime(p)')):
    l = 'lucy' + F
    C(P + f, 'n:int -> ' + ('int' if F == 'S' else 'dict[int,int]'), requires=['n >= 1'],
      ensures=['result == prsum(n)'] if F == 'S' else ['forall(i, 1, n + 1, dom(result)[n // i])', 'forallT(int, x, implies(dom(result)[x], 1 <= x and x <= n and vals(result)[x] == pc(x + 1)), dom(result)[x])'],
      loops={0: L(inv=[DOM, 'forall(j, 0, len(V), vals(S)[V[j]] == %s(V[j], %s), V[j])' % (l, k)],
                  pre=VDOM + START[F] + VPRE,
                  head=['use ' + pr, 'assert implies(p <= r, qd(n, r, p) and qd(n, r, p - 1))'],
                  end=['useall j:int {V[j]} => %s_same(V[j], 1 + _i0)' % ('lucy' if F == 'S' else l)],
                  exit=['use lucy_root(n, r)'] if F == 'S' else ['ghost m = max(2, 1 + _i0)', 'name m', 'use lucyD_root(n, r, m)', 'assert forall(j, 0, len(V), vals(S)[V[j]] == lucyD(V[j], m), V[j])', 'assert forallT(int, x, implies(dom(S)[x] and x >= 2, x <= n and vals(S)[x] == pc(x + 1)), dom(S)[x])', 'useall i:int {n // i} => qd_any(n, r, i)']),
             1: L(inv=[DOM, 'forall(j, 0, len(V), vals(S)[V[j]] == ite(j < _i1, %s(V[j], p), %s(V[j], p - 1)), V[j])' % (l, l),
                       'forall(j, 0, _i1, V[j] >= p * p, V[j])'],
                  pre=['assert p >= 3 or isprime(p)' if F == 'S' else 'assert p >= 3', 'assert isprime(p)'],
                  head=['use qd_quo(n, r, v, p)', 'assert forall(j, 0, _i1 + 1, V[j] >= v, V[j])', 'assert implies(p * p <= v, qd(n, r, v // p) and p - 1 >= 1)', 'assert implies(p * p <= v, exists(j, _i1 + 1, len(V), V[j] == v // p))', 'assert implies(p * p <= v, vals(S)[v // p] == %s(v // p, p - 1))' % l,
                        'assert vals(S)[p - 1] == %s(p - 1, p - 1)' % l, 'use %s_stepd(v, p, vals(S)[v // p] - sp)' % l, 'use %s_stepd(v, p, vals(S)[v // p] - vals(S)[p - 1])' % l],
                  end=['assert vals(S)[v] == %s(v, p)' % l],
                  brk=['assert forall(j, 0, len(V), vals(S)[V[j]] == ite(V[j] >= p * p, %s(V[j], p), %s(V[j], p - 1)), V[j])' % (l, l)],
                  exit=['assert forall(j, 0, len(V), vals(S)[V[j]] == ite(V[j] >= p * p, %s(V[j], p), %s(V[j], p - 1)), V[j])' % (l, l)])})
C(P + 'pi_table', 'n:int -> tuple[list[int],list[int]]', requires=['n >= 0'],
  ensures=['len(result[0]) == pc(n + 1)', 'forall(j, 0, len(result[0]), result[0][j] == nthp(j))', 'len(result[1]) == n + 1',
           'forall(j, 0, n + 1, result[1][j] == pc(j + 1), result[1][j])'],
  loops={0: L(inv=['len(table) == n + 1', '0 <= last and last <= n', 'last == ite(_i0 == 0, 0, nthp(_i0 - 1))', 'forall(j, 0, last, table[j] == pc(j + 1), table[j])'],
              head=['useall j:int {table[j]} => pc_between(j + 1, _i0)', 'use nthp_lt(_i0 - 1, _i0)', 'use pc_iff(n + 1, _i0)', 'use nthp_prime(_i0)'],
              end=['useall j:int {table[j]} => pc_between(j + 1, i)'],
              exit=['use pc_iff(n + 1, _i0)'])},
  exit=['useall j:int {table[j]} => pc_between(j + 1, len(primes))'])
