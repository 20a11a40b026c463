from pyvc.contract import C, Loop as L
GN = 'combinatorics.generation.'
CO = 'forall(k, 0, len(XX), len(XX[k]) == t and crankR(arr(XX[k]), t) == k and forall(i, 0, t, 0 <= XX[k][i] and XX[k][i] < n, XX[k][i]) and forall(i, 0, t - 1, XX[k][i + 1] < XX[k][i], XX[k][i]), XX[k])'
C(GN + 'combinations:combinations', 'n:int, t:int -> list[list[int]]', requires=['0 <= t', 't <= n'],
  ensures=['len(result) == chooseZ(n, t)', CO.replace('XX', 'result')], types={'_out': 'list[list[int]]'},
  loops={0: L(pre=['use crank_start(arr(c), t)'], inv=['len(c) == t + 3', 'c[t + 1] == n', 'c[t + 2] == 0', 'c[1] >= 0', 'forall(i, 1, t + 1, c[i] < c[i + 1], c[i])', 'forall(i, 1, t + 2, 0 <= c[i] and c[i] <= n, c[i])',
                    'len(_out) == crank(arr(c), t)', CO.replace('XX', '_out')], head=['ghost c0 = arr(c)'],
              end=['use crank_inc(c0, arr(c), t, j)']),
         1: L(pre=['use crank_rev(arr(c), arr(_out[len(_out) - 1]), t)'], inv=['len(c) == t + 3', '1 <= j and j <= t + 1', 'forall(i, 1, j + 1, c0[i] == c0[1] + i - 1, c0[i])', 'forall(i, 1, j, c[i] == i - 1, c[i])', 'forall(i, j, t + 3, c[i] == c0[i], c[i])'],
              exit=['use crank_last(c0, n, t)'], dec='t + 2 - j')})


TU = 'forall(k, 0, len(XX), len(XX[k]) == n and %s == k and forall(i, 0, n, 0 <= XX[k][i] and XX[k][i] < %s, XX[k][i]), XX[k])'


def tuples(variant, sig, req, rank, bd, cnt, shift):
    T = TU % (rank, bd)
    old = T.replace('M[i]', 'old(M)[i]').replace('arr(M)', 'arr(old(M))').replace(', M,', ', old(M),') if variant == 'list' else T.replace('mrvc(M', 'mrvc(old(M)').replace('< M', '< old(M)')
    C(GN + 'tuples:n_tuples', sig, variant=variant, requires=['n >= 0'] + req, ensures=['len(result) == ' + cnt, T.replace('XX', 'result')],
      loops={0: L(pre=['use mrv_zero(arr(M), arr(A), 1, n)'], inv=['len(A) == n + 1', 'A[0] == 0', 'len(M) == n + 1', 'M[0] == 2', 'forall(i, 1, n + 1, M[i] == %s and M[i] >= 1, M[i])' % (bd.replace('[i]', '[i - 1]').replace('M', 'old(M)')),
                    'forall(i, 1, n + 1, 0 <= A[i] and A[i] < M[i], A[i])', 'len(_out) == mrv(arr(M), arr(A), 1, n)', old.replace('XX', '_out')], head=['ghost A0 = arr(A)'],
                  end=['use mrv_inc(arr(M), A0, arr(A), 1, n, j)']),
             1: L(pre=['use ' + shift], inv=['len(A) == n + 1', '0 <= j and j <= n', 'forall(i, j + 1, n + 1, A[i] == 0 and A0[i] == M[i] - 1, A[i], A0[i])', 'forall(i, 0, j + 1, A[i] == A0[i], A[i])'],
                  exit=['use mrv_max(arr(M), A0, 1, n)'], dec='j')})


tuples('list', 'n:int, M:list[int] -> list[list[int]]', ['len(M) == n', 'forall(i, 0, n, M[i] >= 1, M[i])'], 'mrv(arr(M), arr(XX[k]), 0, n)', 'M[i]', 'prodO(arr(M), 0, n)',
       'mrv_shift(arr(M), arr(A), arr(old(M)), arr(_out[len(_out) - 1]), n)')
tuples('int', 'n:int, M:int -> list[list[int]]', ['M >= 1'], 'mrvc(M, arr(XX[k]), n)', 'M', 'powZ(M, n)', 'mrvc_shift(arr(M), arr(A), old(M), arr(_out[len(_out) - 1]), n)')
tuples('', 'n:int, M:none=None -> list[list[int]]', [], 'mrvc(2, arr(XX[k]), n)', '2', 'powZ(2, n)', 'mrvc_shift(arr(M), arr(A), 2, arr(_out[len(_out) - 1]), n)')
PE = GN + 'permutations:'
N1 = 'len(elements)'
PEO = ['forall(k, 0, len(XX), len(XX[k]) == len(elements) and permI(arr(XX[k]), arr(elements), len(elements)), XX[k])',
       'forall(k, 0, len(XX) - 1, nextpm(arr(XX[k]), arr(XX[k + 1]), len(elements)), XX[k])']
PRS = ['len(result) >= 1', 'firstpm(arr(result[0]), len(elements))', 'lastpm(arr(result[len(result) - 1]), len(elements))']
POI = ['len(entries) == len(elements)', 'n == len(elements) - 1', 'permI(arr(entries), arr(elements), len(elements))', 'implies(len(_out) == 0, firstpm(arr(entries), len(elements)))',
       'implies(len(_out) >= 1, firstpm(arr(_out[0]), len(elements)) and nextpm(arr(_out[len(_out) - 1]), arr(entries), len(elements)))'] + [x.replace('XX', '_out') for x in PEO]
C(PE + 'knuth_algorithm_l', 'elements:list[int] -> list[list[int]]', ensures=PRS + [x.replace('XX', 'result') for x in PEO],
  loops={0: L(pre=['use first_intro(arr(entries), len(elements))'], inv=POI, head=['ghost A0 = arr(entries)'],
              end=['use perm_trans(A0, arr(elements), arr(entries), len(elements))', 'use perm_trans(arr(entries), arr(elements), A0, len(elements))', 'use perm_trans(arr(elements), A0, arr(elements), len(elements))', 'use perm_trans(A0, arr(elements), arr(elements), len(elements))', 'use next_intro(A0, arr(entries), n + 1, j, l0)']),
         1: L(inv=['j <= n - 1', 'j >= -1 or n == -1', 'forall(i, j + 1, n, entries[i] >= entries[i + 1], entries[i])'], exit=['use last_intro(arr(entries), n + 1)'], dec='j + 2'),
         2: L(inv=['l <= n', 'l > j', 'forall(i, l + 1, n + 1, entries[j] >= entries[i], entries[i])'], dec='l', exit=['ghost l0 = l']),
         3: L(pre=['use perm_swap(A0, arr(entries), j, l0, n + 1)', 'use perm_trans(A0, arr(entries), arr(elements), len(elements))', 'use perm_trans(arr(entries), A0, arr(elements), len(elements))', 'ghost S0 = arr(entries)'],
              inv=['len(entries) == n + 1', 'k + l == n + j + 1', 'k >= j + 1', 'l >= j', 'permI(arr(entries), arr(elements), len(elements))', 'forall(i, 0, j + 1, entries[i] == S0[i], entries[i])', 'forall(i, k, l + 1, entries[i] == S0[i], entries[i])',
                   'forall(i, j + 1, k, entries[i] == S0[n + j + 1 - i], entries[i])', 'forall(i, l + 1, n + 1, entries[i] == S0[n + j + 1 - i], entries[i])'], head=['ghost E1 = arr(entries)'],
              end=['use perm_swap(E1, arr(entries), k - 1, l + 1, n + 1)', 'use perm_trans(E1, arr(entries), arr(elements), n + 1)', 'use perm_trans(arr(entries), E1, arr(elements), n + 1)'], dec='l - k + 1')})
NI = 'use next_intro(A0, arr(entries), n + 1, %s, %s)'
TR = ['use perm_trans(A0, arr(elements), arr(entries), len(elements))', 'use perm_trans(arr(entries), arr(elements), A0, len(elements))', 'use perm_trans(arr(elements), A0, arr(elements), len(elements))', 'use perm_trans(A0, arr(elements), arr(elements), len(elements))']
SW = ['use perm_swap(A0, arr(entries), n - 1, n, n + 1)', 'use perm_trans(A0, arr(entries), arr(elements), n + 1)', 'use perm_trans(arr(entries), A0, arr(elements), n + 1)']
PH = ['use perm_phil(A0, arr(entries), n - 2, n, n)', 'use perm_phil(A0, arr(entries), n - 2, n - 1, n)']
C(PE + 'phillips', 'elements:list[int] -> list[list[int]]', requires=['len(elements) >= 1'], ensures=PRS + [x.replace('XX', 'result') for x in PEO],
  exit=['use last_intro(arr(entries), n + 1)', 'use first_intro(arr(entries), n + 1)', 'use perm_trans(arr(elements), arr(elements), arr(elements), n + 1)',
        'use last_intro(arr(result[len(result) - 1]), n + 1)', 'use perm_swap(arr(entries), arr(result[1]), 0, 1, 2)', 'use next_intro(arr(entries), arr(result[1]), 2, 0, 1)', 'use next_intro(arr(result[0]), arr(result[1]), 2, 0, 1)', 'use first_intro(arr(result[0]), n + 1)',
        'use perm_congr(arr(result[0]), arr(entries), n + 1)', 'use perm_trans(arr(result[0]), arr(entries), arr(elements), n + 1)', 'use perm_trans(arr(result[1]), arr(entries), arr(elements), n + 1)', 'use perm_trans(arr(entries), arr(result[1]), arr(elements), n + 1)',
        'use perm_swap(arr(elements), arr(result[1]), 0, 1, 2)', 'use perm_congr(arr(entries), arr(result[0]), n + 1)', 'use perm_trans(arr(entries), arr(result[0]), arr(result[1]), n + 1)', 'use perm_trans(arr(result[0]), arr(entries), arr(result[1]), n + 1)'],
  loops={0: L(pre=['use first_intro(arr(entries), len(elements))'], inv=POI, head=['ghost A0 = arr(entries)'],
              end=SW + PH + TR + [NI % ('n - 1', 'n'), NI % ('n - 2', 'n'), NI % ('n - 2', 'n - 1')]),
         1: L(inv=['j <= n - 3', 'j >= -1', 'x == entries[j + 1]', 'implies(j >= 0, y == entries[j])', 'forall(i, j + 1, n, entries[i] >= entries[i + 1], entries[i])'], exit=['use last_intro(arr(entries), n + 1)'], dec='j + 2'),
         2: L(pre=['ghost l0 = n'], inv=['l0 == n', 'len(entries) == n + 1', 'forall(i, 0, n + 1, entries[i] == A0[i], entries[i])']),
         3: L(inv=['l <= n - 1', 'l > j', 'forall(i, l + 1, n + 1, y >= entries[i] and y >= A0[i], entries[i], A0[i])'], dec='l', exit=['ghost l0 = l']),
         4: L(pre=['use perm_phil(A0, arr(entries), j, l0, n)', 'use perm_trans(A0, arr(entries), arr(elements), len(elements))', 'use perm_trans(arr(entries), A0, arr(elements), len(elements))', 'ghost S0 = arr(entries)'],
              inv=['len(entries) == n + 1', 'k + l == n + j + 1', 'k >= j + 2', 'l >= j + 1', 'permI(arr(entries), arr(elements), len(elements))', 'forall(i, 0, j + 2, entries[i] == S0[i], entries[i])', 'forall(i, k, l + 1, entries[i] == S0[i], entries[i])', 'entries[n] == S0[n]',
                   'forall(i, j + 2, k, entries[i] == S0[n + j + 1 - i], entries[i])', 'forall(i, l + 1, n, entries[i] == S0[n + j + 1 - i], entries[i])'], head=['ghost E1 = arr(entries)'],
              end=['use perm_swap(E1, arr(entries), k - 1, l + 1, n + 1)', 'use perm_trans(E1, arr(entries), arr(elements), n + 1)', 'use perm_trans(arr(entries), E1, arr(elements), n + 1)'], dec='l - k + 1',
              exit=TR + ['assert entries[j] == A0[l0]', 'assert forall(i, 0, j, entries[i] == A0[i], entries[i])', 'assert forall(i, j + 1, n + 1, A0[j] >= A0[i] or i <= l0, A0[i])', 'assert A0[j] < A0[l0]', 'assert forall(i, j + 1, n, A0[i] >= A0[i + 1], A0[i])',
                         'assert forall(i, j + 1, n + 1, entries[i] == ite(n + 1 + j - i == l0, A0[j], A0[n + 1 + j - i]), entries[i])', NI % ('j', 'l0')])})
