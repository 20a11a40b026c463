from pyvc.contract import C, ClassSpec, Loop as L
MA = 'algebra.matrices.matrices:Matrix'
ClassSpec(MA, {'__entries': 'list[list[int]]', '__nrows': 'int', '__ncols': 'int'})
def WF(o):
    return ['len(%s.__entries) == %s.__nrows' % (o, o), '%s.__nrows >= 1' % o, 'forall(i, 0, %s.__nrows, len(%s.__entries[i]) == %s.__ncols, %s.__entries[i])' % (o, o, o, o)]
RECT = 'forall(i, 0, len(m), len(m[i]) == len(m[0]), m[i])'
C(MA + '.__init__', 'self:Matrix, m:list[list[int]], n:none=None -> None', types={'retains': True}, modifies=['self'], requires=['len(m) >= 1', RECT],
  ensures=WF('self') + ['self.__nrows == len(m)', 'self.__ncols == len(m[0])', 'forall(i, 0, len(m), forall(j, 0, len(m[0]), self.__entries[i][j] == m[i][j], self.__entries[i][j]), self.__entries[i])'])
def EL(e, r='self.__nrows', c='self.__ncols'):
    return WF('result') + ['result.__nrows == %s' % r, 'result.__ncols == %s' % c, 'forall(i, 0, %s, forall(j, 0, %s, result.__entries[i][j] == %s, result.__entries[i][j]), result.__entries[i])' % (r, c, e)]
def LP(e, r='nrows', c='ncols', k=0):
    shp = ['len(result) == %s' % r, 'forall(i, 0, %s, len(result[i]) == %s, result[i])' % (r, c)]
    return {k: L(inv=shp + ['forall(i, 0, _i%d, forall(j, 0, %s, result[i][j] == %s, result[i][j]), result[i])' % (k, c, e)]),
            k + 1: L(inv=shp + ['forall(i, 0, _i%d + 1, forall(j, 0, %s, implies(i < _i%d or j < _i%d, result[i][j] == %s), result[i][j]), result[i])' % (k, c, k, k + 1, e)])}
SE, OE = 'self.__entries[i][j]', 'other.__entries[i][j]'
DIM = [('ValueError', 'self.__ncols != other.__ncols or self.__nrows != other.__nrows')]
C(MA + '.__add__', 'self:Matrix, other:Matrix -> Matrix', requires=WF('self') + WF('other'), raises=DIM, ensures=EL('%s + %s' % (SE, OE)), loops=LP('%s + %s' % (SE, OE), 'self_nrows', 'self_ncols'))
C(MA + '.__neg__', 'self:Matrix -> Matrix', requires=WF('self'), ensures=EL('-' + SE), loops=LP('-' + SE))

MAB = '_A:fn[tuple[int,int],int]=_A, _B:fn[tuple[int,int],int]=_B'
TIE = ['forall2(i, j, 0 <= i and i < self.__nrows and 0 <= j and j < self.__ncols, _A[(i, j)] == self.__entries[i][j], _A[(i, j)], self.__entries[i][j])',
       'forall2(i, j, 0 <= i and i < other.__nrows and 0 <= j and j < other.__ncols, _B[(i, j)] == other.__entries[i][j], _B[(i, j)], other.__entries[i][j])']
C(MA + '.__mul__', 'self:Matrix, other:Matrix, %s -> Matrix' % MAB, requires=WF('self') + WF('other') + TIE, raises=[('ValueError', 'self.__ncols != other.__nrows')],
  ensures=EL('dot(_A, _B, i, j, self.__ncols)', c='other.__ncols'), loops={**LP('dot(_A, _B, i, j, ncols)', c='other_ncols', k=2),
    4: L(inv=['total == dot(_A, _B, i, j, _i4)'], head=['use dot_step(_A, _B, i, j, _i4)'], pre=['use dot_zero(_A, _B, i, j)'])})
C(MA + '.__mul__', 'self:Matrix, other:int -> Matrix', 'int', requires=WF('self'), ensures=EL('other * ' + SE), loops=LP('other * ' + SE))
C(MA + '.__rmul__', 'self:Matrix, other:int -> Matrix', requires=WF('self'), ensures=EL('other * ' + SE), loops=LP('other * ' + SE))
C(MA + '.__init__', 'self:Matrix, m:int, n:none=None -> None', 'square', modifies=['self'], requires=['m >= 1'], ensures=WF('self') + ['self.__nrows == m', 'self.__ncols == m', 'forall(i, 0, m, forall(j, 0, m, self.__entries[i][j] == 0, self.__entries[i][j]), self.__entries[i])'])
C(MA + '.__init__', 'self:Matrix, m:int, n:int -> None', 'zero', modifies=['self'], requires=['m >= 1', 'n >= 1'], ensures=WF('self') + ['self.__nrows == m', 'self.__ncols == n', 'forall(i, 0, m, forall(j, 0, n, self.__entries[i][j] == 0, self.__entries[i][j]), self.__entries[i])'])
C(MA + '.__getitem__', 'self:Matrix, key:tuple[int,int] -> int', requires=WF('self') + ['0 <= key[0] and key[0] < self.__nrows', '0 <= key[1] and key[1] < self.__ncols'], ensures=['result == self.__entries[key[0]][key[1]]'])
C(MA + '.__setitem__', 'self:Matrix, key:tuple[int,int], value:int -> None', modifies=['self'], requires=WF('self') + ['0 <= key[0] and key[0] < self.__nrows', '0 <= key[1] and key[1] < self.__ncols'],
  ensures=WF('self') + ['self.__nrows == old(self.__nrows)', 'self.__ncols == old(self.__ncols)', 'forall(i, 0, self.__nrows, forall(j, 0, self.__ncols, self.__entries[i][j] == ite(i == key[0] and j == key[1], value, old(self.__entries[i][j])), self.__entries[i][j]), self.__entries[i])'])
C(MA + '.delete_col', 'self:Matrix, idx:int -> Matrix', requires=WF('self') + ['0 <= idx and idx < self.__ncols', 'self.__ncols >= 2'], ensures=EL('self.__entries[i][ite(j < idx, j, j + 1)]', c='self.__ncols - 1'),
  locals={'result': 'list[list[int]]', 'new_row': 'list[int]'},
  loops={0: L(inv=['len(result) == _i0', 'forall(i, 0, _i0, len(result[i]) == self.__ncols - 1, result[i])', 'forall(i, 0, _i0, forall(j, 0, self.__ncols - 1, result[i][j] == self.__entries[i][ite(j < idx, j, j + 1)], result[i][j]), result[i])']),
         1: L(inv=['len(new_row) == _i1 - ite(idx < _i1, 1, 0)', 'forall(j, 0, len(new_row), new_row[j] == row[ite(j < idx, j, j + 1)], new_row[j])'])})
