from pyvc.contract import C, Loop as L
EN = 'combinatorics.enumeration.enumeration:'
C(EN + 'binomial', 'n:int, k:int -> int', requires=['n >= 0', 'k >= 0'], ensures=['result == chooseZ(n, k)'],
  entry=['use choose_big(n, k)', 'use choose_fact(n, k)', 'use choose_fact(n, n - k)', 'use fact_small()'],
  loops={0: L(inv=['pp * factZ(n - k) == factZ(n - k + _i0)', 'pp >= 1', '0 <= k and k <= n', 'chooseZ(n, k) == chooseZ(n, old(k))'], head=['use fact_next(n - k + _i0 + 1)', 'ghost p0 = pp'],
              exit=['assert pp * factZ(n - k) == factZ(n)', 'assert factZ(n - k) >= 1', 'use choose_fact(n, k)', 'use div_exact(factZ(n), factZ(n - k), pp)', 'assert pp == factZ(n) // factZ(n - k)']),
         1: L(pre=['use fact_small()', 'use fact_next(1)'], inv=['pp == factZ(n) // factZ(n - k) // factZ(1 + _i1)'], head=['use div_next(factZ(n) // factZ(n - k), _i1 + 2)'])})
C(EN + 'bell_number', 'n:int -> int', raises=[('ValueError', 'n < 0')], ensures=['result == bellZ(n)'],
  entry=['use bell_zero()'],
  loops={0: L(inv=['len(B) == n + 1', 'forall(j, 0, 1 + _i0, B[j] == bellZ(j), B[j])'], head=['ghost i1 = _i0 + 1'], end=['use bell_done(i)']),
         1: L(pre=['use bell_step(i, 1)', 'use choose_step(i, 1)'], inv=['len(B) == n + 1', 'value == bellsum(i, _i1)', 'coeff == chooseZ(i - 1, _i1)'], head=['use bell_step(i, _i1 + 1)', 'use choose_step(i, _i1 + 1)'], exit=['use bell_done(i)'])})
C(EN + 'stirling_number2', 'm:int, n:int -> int', requires=['m >= 0', 'n >= 0'], ensures=['result == stir2(m, n)'], types={'S': 'dict[tuple[int,int],int]'}, locals={'S': 'dict[tuple[int,int],int]'},
  entry=['use stir_edge(m, n)', 'use stir_edge(0, 0)'],
  loops={0: L(inv=['vals(S)[(0, 0)] == 1', 'forall(a, 0, _i0 + 1, dom(S)[(a, 0)] and vals(S)[(a, 0)] == stir2(a, 0), stir2(a, 0))'], head=['use stir_edge(_i0 + 1, 0)']),
         1: L(inv=['forall(a, 0, m + 1, dom(S)[(a, 0)] and vals(S)[(a, 0)] == stir2(a, 0), stir2(a, 0))', 'forall(a, 0, _i1, dom(S)[(a, a + 1)] and vals(S)[(a, a + 1)] == stir2(a, a + 1), stir2(a, a + 1))'], head=['use stir_edge(_i1, _i1 + 1)']),
         2: L(inv=['forall(a, 0, m + 1, dom(S)[(a, 0)] and vals(S)[(a, 0)] == stir2(a, 0), stir2(a, 0))', 'forall(a, 0, m + 1, dom(S)[(a, a + 1)] and vals(S)[(a, a + 1)] == stir2(a, a + 1), stir2(a, a + 1))',
                   'forall(a, 0, _i2 + 1, forall(b, 0, min(a, n) + 1, dom(S)[(a, b)] and vals(S)[(a, b)] == stir2(a, b), stir2(a, b)))'], head=['use stir_rec(i, i)']),
         3: L(inv=['forall(a, 0, m + 1, dom(S)[(a, 0)] and vals(S)[(a, 0)] == stir2(a, 0), stir2(a, 0))', 'forall(a, 0, m + 1, dom(S)[(a, a + 1)] and vals(S)[(a, a + 1)] == stir2(a, a + 1), stir2(a, a + 1))',
                   'forall(a, 0, i, forall(b, 0, min(a, n) + 1, dom(S)[(a, b)] and vals(S)[(a, b)] == stir2(a, b), stir2(a, b)))', 'forall(b, 0, _i3 + 1, dom(S)[(i, b)] and vals(S)[(i, b)] == stir2(i, b), stir2(i, b))'], head=['use stir_rec(i, _i3 + 1)'])})
C(EN + 'multinomial', 'n:int, k:list[int] -> int', requires=['forall(i, 0, len(k), k[i] >= 0, k[i])'], raises=[('ValueError', 'sumZ(arr(k), len(k)) > n or len(k) == 0')],
  ensures=['result * prodfact(arr(k), len(k)) == factZ(n)'], entry=['use prodfact_dvd(arr(k), len(k), n)', 'use prodfact_succ(arr(k), 1)', 'use sumZ_succ(arr(k), 0)'],
  loops={0: L(inv=['den == prodfact(arr(k), _i0)'], head=['use prodfact_succ(arr(k), _i0 + 1)'])})
PTS = 'forall(j, 0, $ + 1, values[j] == partZ(j), values[j])'
C(EN + 'partition_list', 'n:int -> list[int]', requires=['n >= 0', 'n <= %d' % 2 ** 40], ensures=['len(result) == n + 1', 'forall(j, 0, n + 1, result[j] == partZ(j), result[j])'],
  entry=['use part_zero()'],
  loops={0: L(inv=['len(values) == n + 1', PTS.replace('$', '_i0')], head=['ghost m0 = _i0 + 1']),
         1: L(pre=['use pent_idx(m, max_idx)', 'use pent_step(m, max_idx, max_idx)'], inv=['len(values) == n + 1', PTS.replace('$', '_i0'), 'total == pentsum(m, max_idx - _i1, max_idx)', 'sign == powZ(0 - 1, max_idx - _i1 + 1)'],
              head=['use pent_bounds(m, k, max_idx)', 'use pent_step(m, k, max_idx)'], exit=['use pent_done(m, max_idx)'])})
C(EN + 'partition_number', 'n:int -> int', requires=['n >= 0', 'n <= %d' % 2 ** 40], ensures=['result == partZ(n)'])
PW = 'forall(j, 0, $, Pr[j] == powc(arr(P), r, j), Pr[j])'
C(EN + 'rth_power_partition_number', 'r:int, n:int -> int', requires=['r >= 0', 'n >= 0', 'n <= %d' % 2 ** 40], ensures=['result == rpart(r, n)'],
  entry=['use rpart_edge(r, n)', 'use part_zero()'], after={'P': ['use powc_zero(arr(P), r)']},
  loops={0: L(inv=['len(Pr) == n + 1', 'len(P) == n + 1', PW.replace('$', '_i0 + 1')], exit=['use powc_part(arr(P), r, n)'], head=['use jcs_step(arr(P), arr(Pr), r, k, 0)']),
         1: L(inv=['ss == jcs(arr(P), arr(Pr), r, k, _i1)'], head=['use jcs_step(arr(P), arr(Pr), r, k, i)'], exit=['use jcp_done(arr(P), arr(Pr), r, k)'])})
