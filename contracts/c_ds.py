from pyvc.contract import C, ClassSpec, Loop as L
from pyvc.spec import macro
U = 'data_structures.unionfind:UnionFind'
ClassSpec(U, {'rank': 'dict[int,int]', 'parent': 'dict[int,int]'})
INV = ['finD(dom(self.parent))', 'forallT(int, x, iff(dom(self.parent)[x], dom(self.rank)[x]), dom(self.parent)[x], dom(self.rank)[x])',
       'forallT(int, x, implies(dom(self.parent)[x], dom(self.parent)[vals(self.parent)[x]]), vals(self.parent)[x])',
       'forallT(int, x, implies(dom(self.parent)[x], vals(self.parent)[x] == x or vals(self.rank)[x] < vals(self.rank)[vals(self.parent)[x]]), vals(self.parent)[x])']
SAMED = 'forallT(int, y, iff(dom(self.parent)[y], old(dom(self.parent))[y]), dom(self.parent)[y])'
C(U + '.__init__', 'self:UnionFind, elements:list[int] -> None', ensures=INV + ['forallT(int, x, iff(dom(self.parent)[x], exists(j, 0, len(elements), elements[j] == x)))',
   'forallT(int, x, implies(dom(self.parent)[x], leads(vals(self.parent), x, x)))'], modifies=['self'],
  locals={'rank': 'dict[int,int]', 'parent': 'dict[int,int]'},
  loops={0: L(pre=['use finD_none(dom(parent))'],
     inv=['finD(dom(parent))', 'forallT(int, x, iff(dom(parent)[x], exists(j, 0, _i0, elements[j] == x)), dom(parent)[x])', 'forallT(int, x, iff(dom(parent)[x], dom(rank)[x]), dom(parent)[x])',
     'forallT(int, x, implies(dom(parent)[x], vals(parent)[x] == x), vals(parent)[x])'],
     head=['use finD_upd(dom(parent), u)', 'witness w:int | w == _i0 and elements[w] == u']
     )},
  exit=['useall x:int {vals(self.parent)[x]} => leads_root(vals(self.parent), x, x)'])
LEQ = 'forallT(int, y, forallT(int, r, iff(leads(vals(parent), y, r), leads(old(vals(self.parent)), y, r)), leads(vals(parent), y, r)))'
def cur(l): return [s.replace('self.parent', 'parent') for s in l]
C(U + '.find', 'self:UnionFind, x:int -> int', requires=INV + ['dom(self.parent)[x]'],
  ensures=INV + ['leads(old(vals(self.parent)), x, result)', 'dom(self.parent)[result]', SAMED, LEQ.replace('(parent)', '(self.parent)')], modifies=['self.parent'],
  loops={0: L(inv=['dom(parent)[x]', 'forall(j, 0, len(path), dom(parent)[path[j]] and vals(self.rank)[path[j]] < vals(self.rank)[x], path[j])',
                   'forallT(int, r, iff(leads(vals(parent), x, r), leads(vals(parent), old(x), r)), leads(vals(parent), x, r))',
                   'forall(j, 0, len(path), forallT(int, r, iff(leads(vals(parent), path[j], r), leads(vals(parent), old(x), r)), leads(vals(parent), path[j], r)))'],
              head=['use rmax_ge(dom(self.rank), vals(self.rank), x)', 'useall r:int {leads(vals(parent), x, r)} => leads_step(vals(parent), x, r)'],
              dec='rmax(dom(self.rank), vals(self.rank)) - self.rank[x]',
              exit=['use leads_root(vals(parent), x, x)', 'use rmax_ge(dom(self.rank), vals(self.rank), x)']),
         1: L(inv=cur(INV) + [SAMED.replace('(self.parent)[y]', '(parent)[y]'), LEQ, 'vals(parent)[x] == x',
                  'forall(j, 0, len(path), leads(vals(parent), path[j], x), path[j])'],
              head=['useall y:int, r:int {leads(upd(vals(parent), v, x), y, r)} => leads_compress(vals(parent), v, x, y, r)'])})

C(U + '.union', 'self:UnionFind, x:int, y:int -> None', requires=INV + ['dom(self.parent)[x]', 'dom(self.parent)[y]', 'vals(self.parent)[x] == x', 'vals(self.parent)[y] == y'],
  ensures=INV + [SAMED, """forallT(int, u, forallT(int, v, implies(old(dom(self.parent))[u] and old(dom(self.parent))[v], iff(existsT(int, r, leads(vals(self.parent), u, r) and leads(vals(self.parent), v, r)),
     existsT(int, r, leads(old(vals(self.parent)), u, r) and leads(old(vals(self.parent)), v, r)) or
     (leads(old(vals(self.parent)), u, x) and leads(old(vals(self.parent)), v, y)) or (leads(old(vals(self.parent)), u, y) and leads(old(vals(self.parent)), v, x))))))"""],
  modifies=['self'],
  exit=['useall u:int, r:int {leads(vals(self.parent), u, r)} => leads_link(old(vals(self.parent)), x, y, u, r)',
        'useall u:int, r:int {leads(vals(self.parent), u, r)} => leads_link(old(vals(self.parent)), y, x, u, r)'])
B = 'data_structures.bit_sieve:BITSieveArray'
ClassSpec(B, {'A': 'list[list[int]]', 'n': 'int'})
def binv(A='self.A', n='self.n', top='len(self.A)'):
    return [x.replace('AA', A).replace('NN', n) for x in
            ('NN >= 0', 'len(AA) >= 1', 'forall(i, 0, len(AA), len(AA[i]) == NN // powZ(2, i) + 1, AA[i])',
             'forall(i, 1, len(AA), forall(j, 1, len(AA[i]), AA[i][j] == AA[i - 1][2 * j - 1] + AA[i - 1][2 * j], AA[i][j]))',
             'forall(j, 1, NN + 1, 0 <= AA[0][j] and AA[0][j] <= 1, AA[0][j])')]
BI = binv() + ['self.n // powZ(2, len(self.A)) == 0', 'len(self.A[0]) == self.n + 1']
C(B + '.__init__', 'self:BITSieveArray, n:int -> None', requires=['n >= 0'], modifies=['self'],
  ensures=BI + ['self.n == n', 'forall(j, 1, n + 1, self.A[0][j] == 1, self.A[0][j])'],
  loops={0: L(pre=['use powZ_zero(2)'], inv=binv('A', 'n') + ['i == len(A)', 'len(A[0]) == n + 1', 'forall(j, 1, n + 1, A[0][j] == 1, A[0][j])'],
              head=['use shr_step(n, i)', 'use shr_step(n, i - 1)'], dec='n // powZ(2, i)', exit=[]),
         1: L(inv=binv('A', 'n', 'i')[:1] + ['len(A) == i + 1', 'len(A[0]) == n + 1', 'forall(k, 0, i + 1, len(A[k]) == n // powZ(2, k) + 1, A[k])',
                   'forall(k, 1, i, forall(l, 1, len(A[k]), A[k][l] == A[k - 1][2 * l - 1] + A[k - 1][2 * l], A[k][l]))', 'forall(l, 1, j, A[i][l] == A[i - 1][2 * l - 1] + A[i - 1][2 * l], A[i][l])',
                   'forall(l, 1, n + 1, A[0][l] == 1, A[0][l])'])})
C(B + '.partial_sum', 'self:BITSieveArray, m:int -> int', requires=BI + ['0 <= m', 'm <= self.n'], ensures=['result == sum1(arr(self.A[0]), m)'],
  loops={0: L(pre=['use powZ_zero(2)'], inv=['i >= 0', 'm >= 0', 'm <= self.n // powZ(2, i)', 'm == 0 or i < len(A)', 'total + ite(m == 0, 0, sum1(arr(A[i]), m)) == sum1(arr(A[0]), old(m))'],
              head=['use shr_step(self.n, i)', 'use sum1_step(arr(A[i]), m)', 'use sum1_half(arr(A[i]), arr(A[i + 1]), m // 2)', 'use sum1_zero(arr(A[i]))'],
              dec='m', exit=[])},
  entry=['use sum1_zero(arr(self.A[0]))'])
SH = ['len(A) == len(old(self.A))', 'forall(k, 0, len(A), len(A[k]) == self.n // powZ(2, k) + 1, A[k])', 'len(A[0]) == self.n + 1']
C(B + '.mark_multiples', 'self:BITSieveArray, p:int -> None', requires=BI + ['p >= 1'], modifies=['self.A'],
  ensures=BI + ['len(self.A) == len(old(self.A))', 'forall(j, 1, self.n + 1, self.A[0][j] == ite(j % p == 0, 0, old(self.A)[0][j]), self.A[0][j])'],
  loops={0: L(inv=binv('A') + ['self.n // powZ(2, len(A)) == 0'] + SH + ['forall(j, 1, self.n + 1, A[0][j] == ite(hit(j, p, _i0), 0, old(self.A)[0][j]), A[0][j])'],
              pre=['useall j:int {A[0][j]} => hit_start(j, p)'], head=['assert i == p + p * _i0', 'useall j:int {A[0][j]} => hit_step(j, p, _i0)', 'use hit_self(p, _i0)'], exit=['useall j:int {A[0][j]} => hit_end(j, p, _i0, self.n)']),
         1: L(inv=SH + ['y >= 1', 'i >= 1', 'i <= self.n', 'implies(_i1 == 0, y == i and A[0][i] != 0)', 
                        'forall(k, 1, len(A), forall(l, 1, len(A[k]), A[k][l] + ite(k == _i1 and l == y, -1, 0) == A[k - 1][2 * l - 1] + A[k - 1][2 * l], A[k][l]))',
                        'forall(l, 1, self.n + 1, A[0][l] == ite(l == i and _i1 >= 1, 0, ite(hit(l, p, _i0), 0, old(self.A)[0][l])), A[0][l])'],
              end=[])})
C(B + '.entries', 'self:BITSieveArray -> list[int]', requires=BI, ensures=['len(result) == self.n + 1', 'forall(j, 0, self.n + 1, result[j] == self.A[0][j])'], types={'alias': True})
S = 'data_structures.bit_sieve:BITSieve'
ClassSpec(S, {'A': 'dict[tuple[int,int],int]', 'n': 'int', 'parent': 'dict[tuple[int,int],tuple[int,int]]'})
fld = lambda l, A='self.A', n='self.n', P='self.parent': [x.replace('AA', A).replace('NN', n).replace('PP', P) for x in l]
SD = ['forall2(u, j, True, iff(dom(AA)[(u, j)], u >= 0 and 1 <= j and j <= NN // powZ(2, u)), dom(AA)[(u, j)])']
SA = ['forall2(u, j, u >= 1 and dom(AA)[(u, j)], vals(AA)[(u, j)] == vals(AA)[(u - 1, 2 * j - 1)] + vals(AA)[(u - 1, 2 * j)], vals(AA)[(u, j)])']
SB = ['forall(j, 1, NN + 1, 0 <= vals(AA)[(0, j)] and vals(AA)[(0, j)] <= 1, vals(AA)[(0, j)])']
SP = ['forall2(u, j, True, iff(dom(PP)[(u, j)], u >= 0 and j >= 1 and (j + 1) // 2 <= NN // powZ(2, u + 1)), dom(PP)[(u, j)])',
      'forall2(u, j, dom(PP)[(u, j)], vals(PP)[(u, j)] == (u + 1, (j + 1) // 2), vals(PP)[(u, j)])']
SI = fld(['NN >= 0'] + SD + SA + SB + SP)
LD = lambda g: fld(['forall2(u, j, True, iff(dom(AA)[(u, j)], u >= 0 and 1 <= j and j <= NN // powZ(2, u) and (%s)), dom(AA)[(u, j)])' % g], 'A', 'n')
LP = lambda g: fld(['forall2(u, j, True, iff(dom(PP)[(u, j)], u >= 0 and j >= 1 and (j + 1) // 2 <= NN // powZ(2, u + 1) and (%s)), dom(PP)[(u, j)])' % g, SP[1]], 'A', 'n', 'parent')
C(S + '.__init__', 'self:BITSieve, n:int -> None', requires=['n >= 0'], modifies=['self'], locals={'A': 'dict[tuple[int,int],int]', 'parent': 'dict[tuple[int,int],tuple[int,int]]'},
  ensures=SI + ['self.n == n', 'forall(j, 1, n + 1, vals(self.A)[(0, j)] == 1, vals(self.A)[(0, j)])'],
  loops={0: L(pre=['use powZ_zero(2)'], inv=LD('u == 0 and j < 1 + _i0') + ['forall(k, 1, 1 + _i0, vals(A)[(0, k)] == 1, vals(A)[(0, k)])']),
         1: L(inv=['i >= 1'] + LD('u < i') + fld(SA + SB, 'A', 'n') + LP('u < i - 1') + ['forall(k, 1, n + 1, vals(A)[(0, k)] == 1, vals(A)[(0, k)])'],
              dec='n // powZ(2, i)', head=['use shr_step(n, i)', 'use shr_step(n, i - 1)'],
              exit=['useall u:int, j:int {dom(A)[(u, j)]} => shr_zero(n, i, u)', 'useall u:int, j:int {dom(parent)[(u, j)]} => shr_zero(n, i, u + 1)']),
         2: L(inv=LD('u < i or (u == i and j < 1 + _i2)') + fld(SA + SB, 'A', 'n') + LP('u < i - 1 or (u == i - 1 and (j + 1) // 2 < 1 + _i2)') + ['forall(k, 1, n + 1, vals(A)[(0, k)] == 1, vals(A)[(0, k)])'])})
C(S + '.mark_multiples', 'self:BITSieve, p:int -> None', requires=SI + ['p >= 1'], modifies=['self.A'],
  ensures=SI + ['forall(j, 1, self.n + 1, vals(self.A)[(0, j)] == ite(j % p == 0, 0, old(vals(self.A))[(0, j)]), vals(self.A)[(0, j)])'],
  loops={0: L(pre=['use powZ_zero(2)', 'useall j:int {vals(A)[(0, j)]} => hit_start(j, p)'], inv=fld(SD + SA + SB, 'A') + ['forall(j, 1, self.n + 1, vals(A)[(0, j)] == ite(hit(j, p, _i0), 0, old(vals(self.A))[(0, j)]), vals(A)[(0, j)])'],
              head=['assert i == p + p * _i0', 'useall j:int {vals(A)[(0, j)]} => hit_step(j, p, _i0)', 'use hit_self(p, _i0)'],
              exit=['useall j:int {vals(A)[(0, j)]} => hit_end(j, p, _i0, self.n)']),
         1: L(inv=fld(SD, 'A') + ['i >= 1', 'i <= self.n', 'dom(A)[pos]',
                   'forall2(u, j, u >= 1 and dom(A)[(u, j)], vals(A)[(u, j)] + ite(u == pos[0] + 1 and j == (pos[1] + 1) // 2, -1, 0) == vals(A)[(u - 1, 2 * j - 1)] + vals(A)[(u - 1, 2 * j)], vals(A)[(u, j)])',
                   'forall(j, 1, self.n + 1, vals(A)[(0, j)] == ite(j == i, 0, ite(hit(j, p, _i0), 0, old(vals(self.A))[(0, j)])), vals(A)[(0, j)])'],
              dec='self.n // powZ(2, pos[0])', head=['use shr_step(self.n, pos[0])'], exit=['useall u:int, j:int {vals(A)[(u, j)]} => shr_step(self.n, u - 1)'])})
C(S + '.update', 'self:BITSieve -> None', requires=fld(['NN >= 0'] + SD + SB + SP), modifies=['self.A'],
  ensures=SI + ['forall(j, 1, self.n + 1, vals(self.A)[(0, j)] == old(vals(self.A))[(0, j)], vals(self.A)[(0, j)])'],
  loops={0: L(pre=['use powZ_zero(2)'], inv=['i >= 1'] + fld(SD + SB, 'A', 'n') + ['forall2(u, j, u >= 1 and u < i and dom(A)[(u, j)], vals(A)[(u, j)] == vals(A)[(u - 1, 2 * j - 1)] + vals(A)[(u - 1, 2 * j)], vals(A)[(u, j)])',
                  'forall(j, 1, n + 1, vals(A)[(0, j)] == old(vals(self.A))[(0, j)], vals(A)[(0, j)])'],
              head=['use shr_step(n, i)', 'use shr_step(n, i - 1)'], dec='n // powZ(2, i)', exit=['useall u:int, j:int {dom(A)[(u, j)]} => shr_zero(n, i, u)']),
         1: L(inv=fld(SD + SB, 'A', 'n') + ['forall2(u, j, u >= 1 and (u < i or (u == i and j < 1 + _i1)) and dom(A)[(u, j)], vals(A)[(u, j)] == vals(A)[(u - 1, 2 * j - 1)] + vals(A)[(u - 1, 2 * j)], vals(A)[(u, j)])',
                  'forall(j, 1, n + 1, vals(A)[(0, j)] == old(vals(self.A))[(0, j)], vals(A)[(0, j)])'])})
C(S + '.partial_sum', 'self:BITSieve, m:int -> int', requires=SI + ['0 <= m', 'm <= self.n'], ensures=['result == sumrow(vals(self.A), 0, m)'],
  loops={0: L(pre=['use powZ_zero(2)'], inv=['i >= 0', 'm >= 0', 'm <= self.n // powZ(2, i)', 'total + sumrow(vals(A), i, m) == sumrow(vals(A), 0, old(m))'],
              head=['use shr_step(self.n, i)', 'use sumrow_step(vals(A), i, m)', 'use sumrow_half(vals(A), i, m // 2)'],
              dec='m', exit=['use sumrow_zero(vals(A), i)'])},
  entry=[])
C(S + '.entries', 'self:BITSieve -> list[int]', requires=SI, ensures=['len(result) == self.n', 'forall(j, 0, self.n, result[j] == vals(self.A)[(0, j + 1)])'], entry=['use powZ_zero(2)'])
NU = 'data_structures.unionfind:NamedUnionFind'
ClassSpec(NU, {'count': 'dict[int,int]', 'name': 'dict[int,int]', 'father': 'dict[int,opt[int]]', 'root': 'dict[int,int]'})
NI = ['finD(dom(self.count))', 'forallT(int, x, iff(dom(self.father)[x], dom(self.count)[x]), dom(self.father)[x], dom(self.count)[x])',
      'forallT(int, x, iff(dom(self.father)[x], dom(self.name)[x]), dom(self.father)[x], dom(self.name)[x])',
      'forallT(int, x, implies(dom(self.father)[x], vals(self.father)[x] is None or (dom(self.father)[val(vals(self.father)[x])] and vals(self.count)[x] < vals(self.count)[val(vals(self.father)[x])])), vals(self.father)[x])',
      'forallT(int, x, implies(dom(self.father)[x], vals(self.count)[x] >= 1), vals(self.count)[x])',
      'forallT(int, x, implies(dom(self.father)[x] and vals(self.father)[x] is None, dom(self.root)[vals(self.name)[x]] and vals(self.root)[vals(self.name)[x]] == x), vals(self.father)[x], vals(self.name)[x])']
NL = ['count', 'name', 'father', 'root']
def loc(l):
    for f in NL:
        l = [x.replace('self.%s' % f, f) for x in l]
    return l
C(NU + '.__init__', 'self:NamedUnionFind, node_list:list[int] -> None', modifies=['self'], locals={'count': 'dict[int,int]', 'name': 'dict[int,int]', 'father': 'dict[int,opt[int]]', 'root': 'dict[int,int]'},
  ensures=NI + ['forallT(int, x, iff(dom(self.father)[x], exists(j, 0, len(node_list), node_list[j] == x)))', 'forallT(int, x, implies(dom(self.father)[x], vals(self.father)[x] is None and vals(self.name)[x] == x))'],
  loops={0: L(pre=['use finD_none(dom(count))'], inv=loc(NI) + ['forallT(int, x, iff(dom(father)[x], exists(j, 0, _i0, node_list[j] == x)), dom(father)[x])',
     'forallT(int, x, implies(dom(father)[x], vals(father)[x] is None and vals(name)[x] == x), vals(father)[x])'],
     head=['use finD_upd(dom(count), u)', 'witness w:int | w == _i0 and node_list[w] == u'])})
NEQ = 'forallT(int, y, forallT(int, r, iff(leadsN(vals(father), y, r), leadsN(old(vals(self.father)), y, r)), leadsN(vals(father), y, r)))'
C(NU + '.find', 'self:NamedUnionFind, u:int -> int', locals={'u': 'int'}, requires=NI + ['dom(self.father)[u]'], modifies=['self.father'],
  ensures=NI + ['existsT(int, s, leadsN(old(vals(self.father)), u, s) and dom(self.father)[s] and result == vals(self.name)[s])',
   'forallT(int, y, iff(dom(self.father)[y], old(dom(self.father))[y]), dom(self.father)[y])', NEQ.replace('(father)', '(self.father)')],
  loops={0: L(inv=['dom(father)[u]', 'forall(j, 0, len(path), dom(father)[path[j]] and vals(self.count)[path[j]] < vals(self.count)[u], path[j])',
                   'forallT(int, r, iff(leadsN(vals(father), u, r), leadsN(vals(father), old(u), r)), leadsN(vals(father), u, r))',
                   'forall(j, 0, len(path), forallT(int, r, iff(leadsN(vals(father), path[j], r), leadsN(vals(father), old(u), r)), leadsN(vals(father), path[j], r)))'],
              head=['use rmax_ge(dom(self.count), vals(self.count), u)', 'useall r:int {leadsN(vals(father), u, r)} => leadsN_step(vals(father), u, val(vals(father)[u]), r)'],
              dec='rmax(dom(self.count), vals(self.count)) - self.count[u]',
              exit=['use leadsN_root(vals(father), u, u)', 'use rmax_ge(dom(self.count), vals(self.count), u)']),
         1: L(inv=[x.replace('self.father', 'father') for x in NI] + ['forallT(int, y, iff(dom(father)[y], old(dom(self.father))[y]), dom(father)[y])', NEQ, 'vals(father)[u] is None',
                  'forall(j, 0, len(path), leadsN(vals(father), path[j], u), path[j])'],
              head=['useall y:int, r:int {leadsN(upd(vals(father), v, some(u)), y, r)} => leadsN_compress(vals(father), v, u, y, r)'])})
OR = 'old(vals(self.root))'
C(NU + '.union', 'self:NamedUnionFind, u:int, v:int, w:int -> None', modifies=['self'],
  requires=NI + ['u != v'] + ['dom(self.root)[%s] and dom(self.father)[vals(self.root)[%s]] and vals(self.father)[vals(self.root)[%s]] is None and vals(self.name)[vals(self.root)[%s]] == %s' % ((z,) * 5) for z in 'uv'] +
    ['forallT(int, x, implies(dom(self.father)[x] and vals(self.father)[x] is None and vals(self.name)[x] == w, x == vals(self.root)[u] or x == vals(self.root)[v]), vals(self.name)[x])'],
  ensures=NI + ['forallT(int, y, iff(dom(self.father)[y], old(dom(self.father))[y]), dom(self.father)[y])',
    'dom(self.root)[w] and vals(self.name)[vals(self.root)[w]] == w',
    """forallT(int, x, forallT(int, s, implies(leadsN(old(vals(self.father)), x, s), ite(s == %s[u] or s == %s[v], leadsN(vals(self.father), x, vals(self.root)[w]),
       leadsN(vals(self.father), x, s) and vals(self.name)[s] == old(vals(self.name))[s]))))""" % (OR, OR)],
  exit=['useall x:int, s:int {leadsN(vals(self.father), x, s)} => leadsN_link(old(vals(self.father)), %s[u], %s[v], x, s)' % (OR, OR),
        'useall x:int, s:int {leadsN(vals(self.father), x, s)} => leadsN_link(old(vals(self.father)), %s[v], %s[u], x, s)' % (OR, OR)])
