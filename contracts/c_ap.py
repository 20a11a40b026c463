from pyvc.contract import C, Loop as L
AP = 'number_theory.arithmetic_progressions:'
SORTED = 'forall2(i, j, 0 <= i and i < j and j < len(A), A[i] <= A[j], A[i], A[j])'
NONE = 'forall(j, 0, len(A), forall(i, 0, j, forall(k, j + 1, len(A), A[i] + A[k] != 2 * A[j])))'
LOOPS = {0: L(inv=['forall(j0, 0, %s, forall(i0, 0, j0, forall(k0, j0 + 1, len(A), A[i0] + A[k0] != 2 * A[j0], A[k0]), A[i0]), A[j0])' % '1 + _i0']),
         1: L(inv=['-1 <= i', 'i < j', 'j < k', 'k <= n', 'forall(i0, i + 1, j, forall(k0, j + 1, len(A), A[i0] + A[k0] != 2 * A[j], A[k0]), A[i0])',
                   'forall(i0, 0, j, forall(k0, j + 1, k, A[i0] + A[k0] != 2 * A[j], A[k0]), A[i0])'], dec='n - k + i + 1')}
C(AP + 'has_three_term_ap', 'A:list[int] -> opt[tuple[int,int,int]]', types={'false': 'none'}, requires=[SORTED], loops=LOOPS,
  ensures=['implies(result is not None, exists(j, 0, len(A), exists(i, 0, j, exists(k, j + 1, len(A), result == (A[i], A[j], A[k]) and A[i] + A[k] == 2 * A[j]))))', 'implies(result is None, %s)' % NONE],
  exit=['witness a:int | a == j', 'witness b:int | b == i', 'witness c:int | c == k'])
C(AP + 'has_three_term_ap', 'A:list[int], indices:bool=True -> opt[tuple[int,int,int]]', variant='ind', types={'false': 'none'}, requires=[SORTED], loops=LOOPS,
  ensures=['implies(result is not None, 0 <= result[0] and result[0] < result[1] and result[1] < result[2] and result[2] < len(A) and A[result[0]] + A[result[2]] == 2 * A[result[1]])', 'implies(result is None, %s)' % NONE])
