from pyvc.contract import C, ClassSpec, Loop as L
from pyvc.spec import macro
G = 'graphs.graphs:Graph'
ClassSpec(G, {'graph_dict': 'dict[int,dict[int,int]]'})
macro('E(D, u, v)', 'dom(D)[u] and dom(vals(D)[u])[v]')
macro('W(D, u, v)', 'vals(vals(D)[u])[v]')
macro('symm(D)', 'forall2(u, v, E(D, u, v), E(D, v, u) and W(D, v, u) == W(D, u, v), dom(vals(D)[u])[v])')
SY = ['symm(self.graph_dict)']
ST = 'self.graph_dict'
def upd(d, e, w='True'):
    """the vertices are those with d(x), the edges those with e(a, b), and their weights w"""
    return SY + ['forallT(int, x, iff(dom(self.graph_dict)[x], %s), dom(self.graph_dict)[x])' % d,
                 'forall2(a, b, True, iff(E(self.graph_dict, a, b), %s), dom(vals(self.graph_dict)[a])[b])' % e,
                 'forall2(a, b, E(self.graph_dict, a, b), %s, dom(vals(self.graph_dict)[a])[b])' % w]
OD = 'old(self.graph_dict)'
OW = 'W(self.graph_dict, a, b) == W(%s, a, b)' % OD
C(G + '.__init__', 'self:Graph -> None', modifies=['self'], ensures=SY + ['forallT(int, x, not (dom(self.graph_dict)[x]))'])
C(G + '.__getitem__', 'self:Graph, key:int -> dict[int,int]', requires=['dom(self.graph_dict)[key]'], ensures=['result == vals(self.graph_dict)[key]'], types={'alias': 'inline'})
C(G + '.add_vertex', 'self:Graph, u:int -> None', requires=SY, modifies=['self'], ensures=upd('dom(%s)[x] or x == u' % OD, 'E(%s, a, b)' % OD, OW))
C(G + '.add_vertices', 'self:Graph, vertex_list:list[int] -> None', requires=SY, modifies=['self'],
  ensures=upd('dom(%s)[x] or exists(j, 0, len(vertex_list), vertex_list[j] == x)' % OD, 'E(%s, a, b)' % OD, OW),
  loops={0: L(inv=[x.replace('self.graph_dict)', 'graph_dict)').replace('old(graph_dict)', OD) for x in upd('dom(%s)[x] or exists(j, 0, _i0, vertex_list[j] == x)' % OD, 'E(%s, a, b)' % OD, 'W(graph_dict, a, b) == W(%s, a, b)' % OD)])})
DEL1 = ('dom(%s)[x] and x != u' % OD, 'E(%s, a, b) and a != u and b != u' % OD, OW)
GD = lambda l, o=OD: [x.replace('self.graph_dict', 'graph_dict').replace('old(graph_dict)', o) for x in l]
C(G + '.delete_vertex', 'self:Graph, u:int -> None', requires=SY, modifies=['self'], ensures=upd(*DEL1),
  loops={0: L(inv=GD(['forallT(int, x, iff(dom(self.graph_dict)[x], dom(%s)[x] and x != u), dom(self.graph_dict)[x])' % OD,
     'forall2(a, b, dom(%s)[a] and a != u, iff(dom(vals(self.graph_dict)[a])[b], dom(vals(%s)[a])[b] and not (b == u and _rk0[a] < _i0)), dom(vals(self.graph_dict)[a])[b])' % (OD, OD),
     'forall2(a, b, E(self.graph_dict, a, b), %s, dom(vals(self.graph_dict)[a])[b])' % OW]))})
EDG = lambda u, v, w: ('dom(%s)[x] or x == %s or x == %s' % (OD, u, v), 'E(%s, a, b) or a == %s and b == %s or a == %s and b == %s' % (OD, u, v, v, u),
     'W(self.graph_dict, a, b) == ite(a == %s and b == %s or a == %s and b == %s, %s, W(%s, a, b))' % (u, v, v, u, w, OD))
EI = lambda w: {0: L(inv=EDI('u', 'v', w))}
def EDI(u, v, w):
    p, q = '(_i0 >= 1 and a == %s and b == %s)' % (u, v), '(_i0 >= 2 and a == %s and b == %s)' % (v, u)
    return ['forallT(int, x, iff(dom(self.graph_dict)[x], dom(%s)[x] or _i0 >= 1 and x == %s or _i0 >= 2 and x == %s), dom(self.graph_dict)[x])' % (OD, u, v),
            'forall2(a, b, True, iff(E(self.graph_dict, a, b), E(%s, a, b) or %s or %s), dom(vals(self.graph_dict)[a])[b])' % (OD, p, q),
            'forall2(a, b, E(self.graph_dict, a, b), W(self.graph_dict, a, b) == ite(%s or %s, %s, W(%s, a, b)), dom(vals(self.graph_dict)[a])[b])' % (p, q, w, OD)]
C(G + '.add_edge', 'self:Graph, u:int, v:int, weight:int=1 -> None', requires=SY, modifies=['self'], ensures=upd(*EDG('u', 'v', 'weight')), loops=EI('weight'))
C(G + '.add_edge', 'self:Graph, u:int, v:int, weight:int -> None', 'w', requires=SY, modifies=['self'], ensures=upd(*EDG('u', 'v', 'weight')), loops=EI('weight'))
C(G + '.add_edge', 'self:Graph, u:tuple[int,int] -> None', 'pair', requires=SY, modifies=['self'], ensures=upd(*EDG('u[0]', 'u[1]', '1')), loops=EI('weight'))
C(G + '.add_edge', 'self:Graph, u:tuple[int,int,int] -> None', 'triple', requires=SY, modifies=['self'], ensures=upd(*EDG('u[0]', 'u[1]', 'u[2]')), loops=EI('weight'))
def res(l):
    """the same for the result and the graph as it was"""
    return [x.replace('self.graph_dict', 'RESULT').replace('old(RESULT)', 'self.graph_dict').replace('RESULT', 'result.graph_dict') for x in l]
INL = 'exists(j, 0, %s, vertex_list[j] == %s)'
def delset(n):
    return ('dom(%s)[x] and not %s' % (OD, INL % (n, 'x')), 'E(%s, a, b) and not %s and not %s' % (OD, INL % (n, 'a'), INL % (n, 'b')), OW)
C(G + '.delete_vertices', 'self:Graph, vertex_list:list[int] -> None', requires=SY, modifies=['self'], ensures=upd(*delset('len(vertex_list)')),
  loops={0: L(inv=GD(upd(*delset('_i0')))),
         1: L(pre=['ghost D0 = graph_dict'], inv=GD(['forallT(int, x, iff(dom(self.graph_dict)[x], dom(%s)[x] and not %s), dom(self.graph_dict)[x])' % (OD, INL % ('_i0 + 1', 'x')),
             'forall2(a, b, dom(self.graph_dict)[a], iff(dom(vals(self.graph_dict)[a])[b], dom(vals(%s)[a])[b] and not %s and not (b == u and _rk1[a] < _i1)), dom(vals(self.graph_dict)[a])[b])' % (OD, INL % ('_i0', 'b')),
             'forall2(a, b, E(self.graph_dict, a, b), %s, dom(vals(self.graph_dict)[a])[b])' % OW]))})
NOT_ = lambda g: ('dom(%s)[x] and not (%s)' % (OD, g.replace('Z', 'x')), 'E(%s, a, b) and not (%s) and not (%s)' % (OD, g.replace('Z', 'a'), g.replace('Z', 'b')), OW)
SETZ = '(Z in vertex_list and _rk0[Z] < %s)'
C(G + '.delete_vertices', 'self:Graph, vertex_list:set[int] -> None', 'set', requires=SY, modifies=['self'], ensures=upd(*NOT_('Z in vertex_list')),
  loops={0: L(inv=GD(upd(*NOT_(SETZ % '_i0')))),
         1: L(inv=GD(['forallT(int, x, iff(dom(self.graph_dict)[x], dom(%s)[x] and not %s), dom(self.graph_dict)[x])' % (OD, (SETZ % '_i0 + 1').replace('Z', 'x')),
             'forall2(a, b, dom(self.graph_dict)[a], iff(dom(vals(self.graph_dict)[a])[b], dom(vals(%s)[a])[b] and not %s and not (b == u and _rk1[a] < _i1)), dom(vals(self.graph_dict)[a])[b])' % (OD, (SETZ % '_i0').replace('Z', 'b')),
             'forall2(a, b, E(self.graph_dict, a, b), %s, dom(vals(self.graph_dict)[a])[b])' % OW]))})
C(G + '.remove_vertices', 'self:Graph, vertex_list:set[int] -> Graph', 'set', requires=SY, ensures=res(upd(*NOT_('Z in vertex_list'))))
DELE = lambda u, v: ('dom(%s)[x]' % OD, 'E(%s, a, b) and not (a == %s and b == %s) and not (a == %s and b == %s)' % (OD, u, v, v, u), OW)
C(G + '.delete_edge', 'self:Graph, u:int, v:int -> None', requires=SY, modifies=['self'], ensures=upd(*DELE('u', 'v')))
C(G + '.delete_edge', 'self:Graph, u:tuple[int,int] -> None', 'pair', requires=SY, modifies=['self'], ensures=upd(*DELE('u[0]', 'u[1]')))
C(G + '.delete_edge', 'self:Graph, u:tuple[int,int,int] -> None', 'triple', requires=SY, modifies=['self'], ensures=upd(*DELE('u[0]', 'u[1]')))
SAME = ('dom(%s)[x]' % OD, 'E(%s, a, b)' % OD, OW)
C(G + '.copy', 'self:Graph -> Graph', requires=SY, ensures=res(upd(*SAME)))
C(G + '.remove_vertex', 'self:Graph, u:int -> Graph', requires=SY, ensures=res(upd(*DEL1)))
C(G + '.remove_vertices', 'self:Graph, vertex_list:list[int] -> Graph', requires=SY, ensures=res(upd(*delset('len(vertex_list)'))))
C(G + '.remove_edge', 'self:Graph, u:int, v:int -> Graph', requires=SY, ensures=res(upd(*DELE('u', 'v'))))
C(G + '.remove_edge', 'self:Graph, u:tuple[int,int] -> Graph', 'pair', requires=SY, ensures=res(upd(*DELE('u[0]', 'u[1]'))))
C(G + '.remove_edge', 'self:Graph, u:tuple[int,int,int] -> Graph', 'triple', requires=SY, ensures=res(upd(*DELE('u[0]', 'u[1]'))))
C(G + '.num_vertices', 'self:Graph -> int', ensures=['result == len(self.graph_dict)'])
C(G + '.vertex_set', 'self:Graph -> set[int]', ensures=['forallT(int, x, iff(x in result, dom(self.graph_dict)[x]), x in result)', 'len(result) == len(self.graph_dict)'])
C(G + '.leaves', 'self:Graph -> set[int]', ensures=['forallT(int, x, iff(x in result, dom(self.graph_dict)[x] and len(vals(self.graph_dict)[x]) == 1), x in result)'])
C(G + '.degree', 'self:Graph, u:int -> int', requires=['dom(self.graph_dict)[u]'], ensures=['result == len(vals(self.graph_dict)[u])'])
C(G + '.neighbors', 'self:Graph, u:int -> set[int]', requires=['dom(self.graph_dict)[u]'], ensures=['forallT(int, x, iff(x in result, dom(vals(self.graph_dict)[u])[x]), x in result)'])
C(G + '.closed_neighborhood', 'self:Graph, u:int -> set[int]', requires=['dom(self.graph_dict)[u]'], ensures=['forallT(int, x, iff(x in result, x == u or dom(vals(self.graph_dict)[u])[x]), x in result)'])
C(G + '.remove_neighborhood', 'self:Graph, u:int -> Graph', requires=SY + ['dom(self.graph_dict)[u]'], ensures=res(upd(*NOT_('E(%s, u, Z)' % OD))))
C(G + '.remove_closed_neighborhood', 'self:Graph, u:int -> Graph', requires=SY + ['dom(self.graph_dict)[u]'], ensures=res(upd(*NOT_('Z == u or E(%s, u, Z)' % OD))))
# an enumeration of the vertices
ENUMS = lambda l: ['forall(i, 0, len(%s), dom(self.graph_dict)[%s[i]], %s[i])' % (l, l, l), 'len(%s) == len(self.graph_dict)' % l,
    'forall2(i, j, 0 <= i and i < j and j < len({0}), {0}[i] != {0}[j], {0}[i], {0}[j])'.format(l), 'forallT(int, x, implies(dom(self.graph_dict)[x], exists(i, 0, len(%s), %s[i] == x)), dom(self.graph_dict)[x])' % (l, l)]
C(G + '.__iter__', 'self:Graph -> list[int]', ensures=ENUMS('result'))
C(G + '.vertices', 'self:Graph -> list[int]', ensures=ENUMS('result') + ['forall2(i, j, 0 <= i and i < j and j < len(result), result[i] < result[j], result[i], result[j])'])
C(G + '.vertices', 'self:Graph, order:str="degree" -> list[int]', 'degree', ensures=ENUMS('result'))
C(G + '.vertices', 'self:Graph, reverse:bool=True -> list[int]', 'reverse', ensures=ENUMS('result') + ['forall2(i, j, 0 <= i and i < j and j < len(result), result[i] > result[j], result[i], result[j])'])
def IND(d, e):
    return ['symm(induced.graph_dict)', 'forallT(int, x, iff(dom(induced.graph_dict)[x], %s), dom(induced.graph_dict)[x])' % d,
            'forall2(a, b, True, iff(E(induced.graph_dict, a, b), %s), dom(vals(induced.graph_dict)[a])[b])' % e,
            'forall2(a, b, E(induced.graph_dict, a, b), W(induced.graph_dict, a, b) == W(self.graph_dict, a, b), dom(vals(induced.graph_dict)[a])[b])']
IE = '(E(self.graph_dict, a, b) and a in vertex_set and b in vertex_set and (_rk1[a] < _i1 or _rk1[b] < _i1))'
C(G + '.induced_subgraph', 'self:Graph, vertex_list:list[int] -> Graph', requires=SY + ['forall(j, 0, len(vertex_list), dom(self.graph_dict)[vertex_list[j]], vertex_list[j])'],
  ensures=res(upd(INL % ('len(vertex_list)', 'x'), 'E(%s, a, b) and %s and %s' % (OD, INL % ('len(vertex_list)', 'a'), INL % ('len(vertex_list)', 'b')), OW)),
  loops={0: L(inv=IND('x in vertex_set and _rk0[x] < _i0', 'False')), 1: L(inv=IND('x in vertex_set', IE)),
         2: L(inv=IND('x in vertex_set', '(%s or (a == u and _rk2[b] < _i2 or b == u and _rk2[a] < _i2) and E(self.graph_dict, a, b) and a in vertex_set and b in vertex_set)' % IE))})
CMP = lambda d, e: [x.replace('induced.', 'complement_graph.').replace('== W(self.graph_dict, a, b)', '== 1') for x in IND(d, e)]
CE = '(not E(self.graph_dict, a, b) and exists(j, 0, %s, exists(k, 0, %s, vertices[j] == a and vertices[k] == b and j != k)))'
C(G + '.complement', 'self:Graph -> Graph', requires=SY,
  ensures=res(upd('dom(%s)[x]' % OD, 'dom(%s)[a] and dom(%s)[b] and a != b and not E(%s, a, b)' % (OD, OD, OD), 'W(self.graph_dict, a, b) == 1')),
  loops={0: L(inv=CMP('exists(j, 0, _i0, vertices[j] == x)', 'False')),
         1: L(inv=CMP('dom(self.graph_dict)[x]', CE % ('_i1', '_i1'))),
         2: L(inv=CMP('dom(self.graph_dict)[x]', '(%s or not E(self.graph_dict, a, b) and (a == u and exists(k, 0, _i2, vertices[k] == b) or b == u and exists(k, 0, _i2, vertices[k] == a)))' % (CE % ('i', 'i'))))})
C(G + '.edge_set', 'self:Graph, weights:bool=False -> set[tuple[int,int]]', requires=SY, ensures=['forall2(a, b, True, iff((a, b) in result, E(self.graph_dict, a, b) and a <= b), (a, b) in result)'], locals={'edge_set': 'set[tuple[int,int]]'},
  loops={0: L(inv=['forall2(a, b, True, iff((a, b) in edge_set, E(graph_dict, a, b) and a <= b and _rk0[a] < _i0), (a, b) in edge_set)']), 1: L(inv=['forall2(a, b, True, iff((a, b) in edge_set, E(graph_dict, a, b) and a <= b and (_rk0[a] < _i0 or a == u and _rk1[b] < _i1)), (a, b) in edge_set)'])})
C(G + '.edge_set', 'self:Graph, weights:bool=True -> set[tuple[int,int,int]]', 'weights', requires=SY,
   ensures=['forallT(tuple[int,int,int], q, iff(q in result, E(self.graph_dict, q[0], q[1]) and q[0] <= q[1] and W(self.graph_dict, q[0], q[1]) == q[2]), q in result)'], locals={'edge_set': 'set[tuple[int,int,int]]'},
  loops={0: L(inv=['forallT(tuple[int,int,int], q, iff(q in edge_set, E(graph_dict, q[0], q[1]) and q[0] <= q[1] and W(graph_dict, q[0], q[1]) == q[2] and _rk0[q[0]] < _i0), q in edge_set)']), 1: L(inv=['forallT(tuple[int,int,int], q, iff(q in edge_set, E(graph_dict, q[0], q[1]) and q[0] <= q[1] and W(graph_dict, q[0], q[1]) == q[2] and (_rk0[q[0]] < _i0 or q[0] == u and _rk1[q[1]] < _i1)), q in edge_set)'])})
C(G + '.maximum_degree', 'self:Graph -> int', raises=[('ValueError', 'len(self.graph_dict) == 0')], ensures=['forallT(int, x, implies(dom(self.graph_dict)[x], len(vals(self.graph_dict)[x]) <= result), dom(self.graph_dict)[x])',
   'existsT(int, x, dom(self.graph_dict)[x] and len(vals(self.graph_dict)[x]) == result)'])
C(G + '.minimum_degree', 'self:Graph -> int', raises=[('ValueError', 'len(self.graph_dict) == 0')], ensures=['forallT(int, x, implies(dom(self.graph_dict)[x], len(vals(self.graph_dict)[x]) >= result), dom(self.graph_dict)[x])',
   'existsT(int, x, dom(self.graph_dict)[x] and len(vals(self.graph_dict)[x]) == result)'])
C(G + '.maximum_degree_vertex', 'self:Graph -> int', raises=[('ValueError', 'len(self.graph_dict) == 0')], ensures=['dom(self.graph_dict)[result]', 'forallT(int, x, implies(dom(self.graph_dict)[x], len(vals(self.graph_dict)[x]) <= len(vals(self.graph_dict)[result])), dom(self.graph_dict)[x])'])
C(G + '.minimum_degree_vertex', 'self:Graph -> int', raises=[('ValueError', 'len(self.graph_dict) == 0')], ensures=['dom(self.graph_dict)[result]', 'forallT(int, x, implies(dom(self.graph_dict)[x], len(vals(self.graph_dict)[x]) >= len(vals(self.graph_dict)[result])), dom(self.graph_dict)[x])'])
GR = 'graphs.graphs:'
def gen(d, e, k):
    f = lambda l, o: [x.replace('self.', o) for x in l]
    return f(['symm(self.graph_dict)', 'forallT(int, x, iff(dom(self.graph_dict)[x], %s), dom(self.graph_dict)[x])' % d, 'forall2(a, b, True, iff(E(self.graph_dict, a, b), %s), dom(vals(self.graph_dict)[a])[b])' % e,
              'forall2(a, b, E(self.graph_dict, a, b), W(self.graph_dict, a, b) == 1, dom(vals(self.graph_dict)[a])[b])'], k + '.')
C(GR + 'complete_graph', 'n:int -> Graph', requires=['n >= 0'], ensures=gen('n >= 2 and 0 <= x and x < n', '0 <= a and a < n and 0 <= b and b < n and a != b', 'result'),
  loops={0: L(inv=gen('_i0 >= 2 and 0 <= x and x < _i0', '0 <= a and a < _i0 and 0 <= b and b < _i0 and a != b', 'Kn')),
         1: L(inv=gen('(u >= 2 or _i1 >= 1) and 0 <= x and x < u + ite(_i1 >= 1, 1, 0)', '0 <= a and 0 <= b and a != b and (a < u or a == u and b < _i1) and (b < u or b == u and a < _i1)', 'Kn'))})
TR = 'graphs.algorithms.traversal:'
RG = 'fn[tuple[int,int],bool]'
def ADJ(g):
    return ['symm(%s.graph_dict)' % g, 'forall2(a, b, True, iff(_R[(a, b)], E(%s.graph_dict, a, b)), _R[(a, b)], dom(vals(%s.graph_dict)[a])[b])' % (g, g)]
DIST = 'forall(i, 0, len(result), forall(j, 0, i, result[i] != result[j]))'
BORD = 'forall(j, 0, len(result), forall(i, 0, j, forallT(int, d, implies(near(_R, start, result[j], d), near(_R, start, result[i], d)), near(_R, start, result[j], d))))'
def BFI(md):
    return ['1 <= len(_out)', '_out[0] == start', 'dep[0] == 0', '0 <= h and h <= len(_out)', 'len(stack) == len(_out) - h', 'forall(j, 0, len(stack), stack[j][0] == _out[h + j] and stack[j][1] == dep[h + j], stack[j])',
      'forallT(int, x, implies(x in visited, 0 <= pos[x] and pos[x] < len(_out) and _out[pos[x]] == x), x in visited)', 'forall(i, 0, len(_out), _out[i] in visited and pos[_out[i]] == i and dom(graph.graph_dict)[_out[i]], _out[i])',
      'forall(j, 0, len(_out), forall(i, 0, j, dep[i] <= dep[j], dep[i]), dep[j])', 'forall(i, 0, len(_out), 0 <= dep[i] and near(_R, start, _out[i], dep[i]) and not near(_R, start, _out[i], dep[i] - 1), dep[i], _out[i])'] + ([
      'forall(i, 0, len(_out), dep[i] <= max_depth, dep[i])'] if md else [])
BFC = lambda md, n: 'forall(i, 0, %s, %s, _out[i])' % (n, ('implies(dep[i] < max_depth, %s)' if md else '%s') % 'forallT(int, y, implies(_R[(_out[i], y)], y in visited), _R[(_out[i], y)])')
def BFS(var, ty, reach, md):
    C(TR + 'breadth_first_search', 'graph:Graph, start:int, max_depth:%s, _R:%s=_R -> list[int]' % (ty, RG), var, requires=ADJ('graph') + ['dom(graph.graph_dict)[start]'] + (['max_depth >= 0'] if md else []), types={'_out': 'list[int]'},
      ensures=['forall(i, 0, len(result), %s and dom(graph.graph_dict)[result[i]], result[i])' % reach('result[i]'), 'forallT(int, x, implies(%s, exists(i, 0, len(result), result[i] == x)), %s)' % (reach('x'), reach('x')), DIST, BORD, 'len(result) > 0 and result[0] == start'],
      entry=['ghost h = 0', 'ghost dep = fnconst(0)', 'ghost pos = fnconst(0)', 'use near_zero(_R, start, start)'],
      exit=[],
      loops={0: L(inv=BFI(md) + [BFC(md, 'h'), 'implies(h < len(_out), forall(i, 0, len(_out), dep[i] <= dep[h] + 1, dep[i]))'],
        head=['ghost V0 = mem(visited)', 'useall x:int {near(_R, start, x, dep[h] - 1)} => near_mono(_R, start, x, dep[h] - 1, dep[pos[x]] - 1)', 'use near_closed(_R, start, V0, dep[h])', 'ghost h0 = h', 'ghost h = h + 1'], end=[],
        exit=['useall x:int, d:int {near(_R, start, x, d)} => near_mono(_R, start, x, d, dep[pos[x]] - 1)', 'useall x:int, d:int {near(_R, start, x, d)} => near_mono(_R, start, x, dep[pos[x]], d)'] + (['use near_closed(_R, start, mem(visited), max_depth)', 'useall x:int {near(_R, start, x, max_depth - 1)} => near_mono(_R, start, x, max_depth - 1, dep[pos[x]] - 1)'] if md else ['use reach_closed(_R, start, mem(visited))', 'useall x:int, d:int {near(_R, start, x, d)} => near_reach(_R, start, x, d)'])),
        1: L(inv=BFI(md) + [BFC(md, 'h0'), 'h == h0 + 1', 'u == _out[h0]', 'depth == dep[h0]', 'forall(i, 0, len(_out), dep[i] <= dep[h0] + 1, dep[i])',
             'forallT(int, x, implies(near(_R, start, x, dep[h0]), x in visited), near(_R, start, x, dep[h0]))', 'forallT(int, y, implies(_R[(u, y)] and _rk1[y] < _i1, y in visited), _R[(u, y)])'],
             head=['use near_step(_R, start, u, v, depth)', 'ghost n0 = len(_out)', 'ghost vv = v', 'ghost dep1 = upd(dep, n0, depth + 1)', 'ghost pos1 = upd(pos, v, n0)', 'ghost nw = not v in visited'],
             end=['ghost dep = ite(nw, dep1, dep)', 'ghost pos = ite(nw, pos1, pos)'])})
BFS('', 'none=None', lambda x: 'reach(_R, start, %s)' % x, False)
BFS('depth', 'int', lambda x: 'near(_R, start, %s, max_depth)' % x, True)
BTI = ['1 <= q', 'Q[0] == start', 'dep[0] == 0', '0 <= h and h <= q', 'len(stack) == q - h', 'forall(j, 0, len(stack), stack[j] == Q[h + j], stack[j])',
  'forallT(int, x, implies(dom(previous)[x], 0 <= pos[x] and pos[x] < q and Q[pos[x]] == x), dom(previous)[x])', 'forall(i, 0, q, dom(previous)[Q[i]] and pos[Q[i]] == i and dom(graph.graph_dict)[Q[i]], Q[i])',
  'forall(j, 0, q, forall(i, 0, j, dep[i] <= dep[j], dep[i]), dep[j])', 'forall(i, 0, q, 0 <= dep[i] and near(_R, start, Q[i], dep[i]) and not near(_R, start, Q[i], dep[i] - 1), dep[i], Q[i])',
  'vals(previous)[start] is None', 'forallT(int, x, implies(dom(previous)[x] and x != start, vals(previous)[x] is not None and dom(previous)[val(vals(previous)[x])] and _R[(val(vals(previous)[x]), x)] and dep[pos[x]] == dep[pos[val(vals(previous)[x])]] + 1 and pos[val(vals(previous)[x])] < pos[x]), dom(previous)[x])']
BTC = 'forall(i, 0, %s, forallT(int, y, implies(_R[(Q[i], y)], dom(previous)[y]), _R[(Q[i], y)]), Q[i])'
# breadth first tree: previous[x] is one step closer to the start
C(TR + 'breadth_first_search_tree', 'graph:Graph, start:int, _R:%s=_R -> dict[int,opt[int]]' % RG, requires=ADJ('graph') + ['dom(graph.graph_dict)[start]'], locals={'previous': 'dict[int,opt[int]]'},
  ensures=['forallT(int, x, iff(dom(result)[x], reach(_R, start, x)), dom(result)[x], reach(_R, start, x))', 'vals(result)[start] is None', 'forallT(int, x, implies(dom(result)[x] and x != start, vals(result)[x] is not None), dom(result)[x])',
    'forallT(int, x, implies(dom(result)[x] and x != start, _R[(val(vals(result)[x]), x)]), dom(result)[x])',
    'forallT(int, x, forallT(int, d, implies(x != start and near(_R, start, x, d), near(_R, start, val(vals(result)[x]), d - 1)), near(_R, start, x, d)), dom(result)[x])',
    'forallT(int, x, implies(dom(result)[x], leadsN(vals(result), x, start)), dom(result)[x])'],
  entry=['ghost h = 0', 'ghost dep = fnconst(0)', 'ghost pos = fnconst(0)', 'use near_zero(_R, start, start)', 'ghost Q = fnconst(start)', 'ghost q = 1'],
  loops={0: L(inv=BTI + [BTC % 'h', 'implies(h < q, forall(i, 0, q, dep[i] <= dep[h] + 1, dep[i]))'],
     head=['ghost V0 = dom(previous)', 'useall x:int {near(_R, start, x, dep[h] - 1)} => near_mono(_R, start, x, dep[h] - 1, dep[pos[x]] - 1)', 'use near_closed(_R, start, V0, dep[h])', 'ghost h0 = h', 'ghost h = h + 1'],
     exit=['useall x:int, d:int {near(_R, start, x, d)} => near_mono(_R, start, x, d, dep[pos[x]] - 1)', 'useall x:int, d:int {near(_R, start, val(vals(previous)[x]), d)} => near_mono(_R, start, val(vals(previous)[x]), dep[pos[val(vals(previous)[x])]], d)',
           'use leadsN_rank(vals(previous), dom(previous), pos, start)', 'use reach_closed(_R, start, dom(previous))', 'useall x:int, d:int {near(_R, start, x, d)} => near_reach(_R, start, x, d)']),
    1: L(inv=BTI + [BTC % 'h0', 'h == h0 + 1', 'u == Q[h0]', 'forall(i, 0, q, dep[i] <= dep[h0] + 1, dep[i])',
        'forallT(int, x, implies(near(_R, start, x, dep[h0]), dom(previous)[x]), near(_R, start, x, dep[h0]))', 'forallT(int, y, implies(_R[(u, y)] and _rk1[y] < _i1, dom(previous)[y]), _R[(u, y)])'],
      head=['use near_step(_R, start, u, v, dep[h0])', 'ghost nw = not dom(previous)[v]', 'ghost dep1 = upd(dep, q, dep[h0] + 1)', 'ghost pos1 = upd(pos, v, q)', 'ghost Q1 = upd(Q, q, v)'],
      end=['ghost dep = ite(nw, dep1, dep)', 'ghost pos = ite(nw, pos1, pos)', 'ghost Q = ite(nw, Q1, Q)', 'ghost q = ite(nw, q + 1, q)'])})

# depth first: the stack and the visited vertices
DFC = 'forallT(int, x, forallT(int, y, implies(%s and _R[(x, y)], %s or exists(j, 0, len(stack), stack[j]%s == y)), _R[(x, y)]), %s)'
def DFI(vis, k, out=True):
    return ['forall(j, 0, len(stack), dom(graph.graph_dict)[stack[j][%d]] and reach(_R, start, stack[j][%d]), stack[j])' % (k, k), 'forallT(int, x, implies(%s, dom(graph.graph_dict)[x] and reach(_R, start, x)), %s)' % (vis('x'), vis('x'))] + (
      ['forallT(int, x, implies(%s, 0 <= pos[x] and pos[x] < len(_out) and _out[pos[x]] == x), %s)' % (vis('x'), vis('x')), 'forall(i, 0, len(_out), %s and pos[_out[i]] == i, _out[i])' % vis('_out[i]'), 'implies(len(_out) > 0, _out[0] == start)', 'implies(len(_out) == 0, len(stack) == 1 and stack[0][0] == start)'] if out else [])
INV_ = lambda y: '(%s in visited)' % y
def DFS(var, ty):
    C(TR + 'depth_first_search', 'graph:Graph, start:int, max_depth:%s, _R:%s=_R -> list[int]' % (ty, RG), var, requires=ADJ('graph') + ['dom(graph.graph_dict)[start]'], types={'_out': 'list[int]'},
      ensures=['forall(i, 0, len(result), reach(_R, start, result[i]) and dom(graph.graph_dict)[result[i]], result[i])', 'forallT(int, x, implies(reach(_R, start, x), exists(i, 0, len(result), result[i] == x)), reach(_R, start, x))', DIST, 'len(result) > 0 and result[0] == start'],
      locals={'stack': 'list[tuple[int,int]]', 'visited': 'set[int]'}, entry=['ghost pos = fnconst(0)', 'use reach_refl(_R, start)'],
      loops={0: L(inv=DFI(INV_, 0) + ['start in visited or len(stack) > 0 and stack[0][0] == start', DFC % (INV_('x'), INV_('y'), '[0]', INV_('x'))], end=[],
               head=['ghost n0 = len(_out)', 'ghost t = stack[len(stack) - 1][0]', 'ghost pos0 = pos', 'ghost pos = ite(t in visited, pos, upd(pos, t, n0))'], exit=['use reach_closed(_R, start, mem(visited))']),
             1: L(inv=DFI(INV_, 0)[:-1] + ['u in visited and len(_out) > 0', 'forallT(int, x, forallT(int, y, implies(x in visited and _R[(x, y)] and (x != u or _rk1[y] < _i1), y in visited or exists(j, 0, len(stack), stack[j][0] == y)), _R[(x, y)]), x in visited)'],
                 head=['use reach_step(_R, start, u, v)'])})
DFS('', 'none=None')
DTI = ['n >= 0', 'implies(dom(previous)[start], vals(previous)[start] is None)', 'forall(j, 0, len(stack), stack[j][1] == start or stack[j][0] is not None and dom(previous)[val(stack[j][0])] and _R[(val(stack[j][0]), stack[j][1])], stack[j])',
  'forallT(int, x, implies(dom(previous)[x], 0 <= pos[x] and pos[x] < n), dom(previous)[x])',
  'forallT(int, x, implies(dom(previous)[x] and x != start, vals(previous)[x] is not None and dom(previous)[val(vals(previous)[x])] and _R[(val(vals(previous)[x]), x)] and pos[val(vals(previous)[x])] < pos[x]), dom(previous)[x])']
DOMP = lambda y: 'dom(previous)[%s]' % y
C(TR + 'depth_first_search_tree', 'graph:Graph, start:int, _R:%s=_R -> dict[int,opt[int]]' % RG, requires=ADJ('graph') + ['dom(graph.graph_dict)[start]'], locals={'stack': 'list[tuple[opt[int],int]]', 'previous': 'dict[int,opt[int]]'},
  ensures=['forallT(int, x, iff(dom(result)[x], reach(_R, start, x)), dom(result)[x], reach(_R, start, x))', 'vals(result)[start] is None', 'forallT(int, x, implies(dom(result)[x] and x != start, vals(result)[x] is not None), dom(result)[x])',
    'forallT(int, x, implies(dom(result)[x] and x != start, dom(result)[val(vals(result)[x])] and _R[(val(vals(result)[x]), x)]), dom(result)[x])',
    'forallT(int, x, implies(dom(result)[x], leadsN(vals(result), x, start)), dom(result)[x])'],
  entry=['use reach_refl(_R, start)', 'ghost pos = fnconst(0)', 'ghost n = 0'],
  exit=['use leadsN_rank(vals(previous), dom(previous), pos, start)'],
  loops={0: L(inv=DFI(DOMP, 1, False) + DTI + ['dom(previous)[start] or len(stack) > 0 and stack[0][1] == start and stack[0][0] is None', 'implies(not dom(previous)[start], len(stack) == 1)', DFC % (DOMP('x'), DOMP('y'), '[1]', DOMP('x'))], exit=['use reach_closed(_R, start, dom(previous))'],
           head=['ghost t = stack[len(stack) - 1][1]', 'ghost pos = ite(dom(previous)[t], pos, upd(pos, t, n))', 'ghost n = n + 1']),
         1: L(inv=DFI(DOMP, 1, False) + DTI + ['dom(previous)[v]', 'dom(previous)[start]', 'forallT(int, x, forallT(int, y, implies(dom(previous)[x] and _R[(x, y)] and (x != v or _rk1[y] < _i1), dom(previous)[y] or exists(j, 0, len(stack), stack[j][1] == y)), _R[(x, y)]), dom(previous)[x])'],
                 head=['use reach_step(_R, start, v, w)'])})
CN = 'graphs.algorithms.connectivity:'
C(CN + 'connected_component', 'graph:Graph, u:int, _R:%s=_R -> list[int]' % RG, requires=ADJ('graph') + ['dom(graph.graph_dict)[u]'],
  ensures=['forall(i, 0, len(result), reach(_R, u, result[i]), result[i])', 'forallT(int, x, implies(reach(_R, u, x), exists(i, 0, len(result), result[i] == x)), reach(_R, u, x))', DIST])
C(CN + 'is_connected', 'graph:Graph, _R:%s=_R -> bool' % RG, requires=ADJ('graph'),
  exit=['assert implies(isbound(u) and result, forallT(int, x, implies(dom(graph.graph_dict)[x], reach(_R, u, x)), dom(graph.graph_dict)[x]))', 'assert implies(isbound(u) and not result, existsT(int, x, dom(graph.graph_dict)[x] and not reach(_R, u, x)))',
   'useall a:int {reach(_R, u, a)} => reach_symm(_R, u, a)', 'useall a:int, b:int {reach(_R, a, u), reach(_R, u, b)} => reach_trans(_R, a, u, b)'],
  entry=['assert forall2(a, b, _R[(a, b)], _R[(b, a)], _R[(a, b)])'], ensures=['iff(result, forall2(a, b, dom(graph.graph_dict)[a] and dom(graph.graph_dict)[b], reach(_R, a, b), reach(_R, a, b)))'])
CC = lambda c: [x.replace('result', c) for x in ['forall(i, 0, len(result), len(result[i]) > 0 and forall(j, 0, len(result[i]), dom(graph.graph_dict)[result[i][j]] and reach(_R, result[i][0], result[i][j]), result[i][j]), result[i])',
     'forall(i, 0, len(result), forallT(int, x, implies(reach(_R, result[i][0], x), exists(j, 0, len(result[i]), result[i][j] == x)), reach(_R, result[i][0], x)), result[i])',
     'forall(i, 0, len(result), forall(j, 0, len(result[i]), forall(k, 0, j, result[i][j] != result[i][k], result[i][k]), result[i][j]), result[i])',
     'forall(i, 0, len(result), forall(k, 0, i, not reach(_R, result[i][0], result[k][0]), result[k]), result[i])']]
C(CN + 'connected_components', 'graph:Graph, _R:%s=_R -> list[list[int]]' % RG, requires=ADJ('graph'), locals={'components': 'list[list[int]]', 'visited': 'set[int]'},
  ensures=CC('result') + ['forallT(int, x, implies(dom(graph.graph_dict)[x], exists(i, 0, len(result), exists(j, 0, len(result[i]), result[i][j] == x))), dom(graph.graph_dict)[x])'],
  entry=['assert forall2(a, b, _R[(a, b)], _R[(b, a)], _R[(a, b)])'],
  loops={0: L(inv=CC('components') + ['forallT(int, x, implies(dom(graph.graph_dict)[x] and _rk0[x] < _i0, x in visited), x in visited)', 'forallT(int, x, implies(x in visited, exists(i, 0, len(components), reach(_R, components[i][0], x))), x in visited)',
      'forall(i, 0, len(components), forallT(int, x, implies(reach(_R, components[i][0], x), x in visited), reach(_R, components[i][0], x)), components[i])'],
     head=['use reach_refl(_R, u)', 'useall x:int {reach(_R, u, x)} => reach_symm(_R, u, x)', 'assert implies(not u in visited, forall(k, 0, len(components), not reach(_R, u, components[k][0]), components[k]))'], end=[])})
