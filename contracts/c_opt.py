from pyvc.contract import C, Loop as L
KN = 'combinatorics.optimization.knapsack:'
NW = 'forall(j, 0, len(items), items[j][1] >= 0, items[j])'
MI = ['len(M) == capacity + 1', 'forall(k, 0, capacity + 1, len(M[k]) == n + 1 and M[k][0] == 0, M[k])']
KP = 'forall2(j, k, 1 <= j and j < %s and 0 <= k and k <= capacity, ite((k, j) in keep, k >= items[j - 1][1] and M[k][j] == items[j - 1][0] + M[k - items[j - 1][1]][j - 1], M[k][j] == M[k][j - 1]), (k, j) in keep)'
C(KN + 'dynamic_programming', 'items:list[tuple[int,int]], capacity:int -> tuple[int, list[tuple[int,int]]]', requires=['capacity >= 0', NW],
  ensures=['kbest(arr(items), len(items), capacity, result[0])', 'existsT(int, w0, w0 <= capacity and kfrom(arr(items), 0, len(items), arr(result[1]), len(result[1]), w0, result[0]))'],
  locals={'keep': 'set[tuple[int,int]]', 'used': 'list[tuple[int,int]]'},
  exit=['use kf_perm(arr(items), 0, n, arr(used), arr(result[1]), len(used), ws, vs)', 'assert kfrom(arr(items), 0, len(items), arr(result[1]), len(result[1]), ws, result[0])'],
  loops={0: L(inv=MI + ['forall(k, 0, capacity + 1, kbest(arr(items), _i0, k, M[k][_i0]), M[k])', 'forallT(tuple[int,int], q, implies(q in keep, q[1] <= _i0), q in keep)', KP % '_i0 + 1'],
              pre=['useall k:int {M[k]} => kb_zero(arr(items), k)']),
         1: L(inv=MI + ['forall(k, 0, capacity + 1, kbest(arr(items), i, k, M[k][i]), M[k])',
                   'forall(k, 0, _i1, kbest(arr(items), i + 1, k, M[k][i + 1]), M[k])',
                   'forallT(tuple[int,int], q, implies(q in keep, q[1] <= i or q[1] == i + 1 and q[0] < _i1), q in keep)', KP % 'i + 1',
                   'forall(k, 0, _i1, ite((k, i + 1) in keep, k >= w and M[k][i + 1] == v + M[k - w][i], M[k][i + 1] == M[k][i]), M[k][i + 1])'], head=['use kb_step(arr(items), i, k, M[k][i], M[k - w][i])']),
         2: L(pre=['ghost ws = 0', 'ghost vs = 0', 'use kf_zero(arr(items), n, arr(used))'],
              inv=['0 <= w and w <= capacity', 'w + ws == capacity', 'M[w][n - _i2] + vs == M[capacity][n]', 'kfrom(arr(items), n - _i2, n, arr(used), len(used), ws, vs)'],
              head=['ghost w0 = w', 'ghost U0 = arr(used)', 'ghost m0 = len(used)', 'ghost ii = i', 'use kf_skip(arr(items), i, n, arr(used), len(used), ws, vs)'],
              end=['use kf_take(arr(items), ii, n, U0, arr(used), m0, ws, vs)', 'ghost vs = vs + M[w0][ii] - M[w][ii - 1]', 'ghost ws = ws + w0 - w'])})
