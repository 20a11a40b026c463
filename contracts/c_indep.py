from pyvc.contract import C, Loop as L
from pyvc.spec import macro
IN = 'graphs.algorithms.independent_sets:'
DG = 'graph.graph_dict'
ND = 'new_graph.graph_dict'
SYM = ['symm(graph.graph_dict)', 'forallT(int, x, not (E(graph.graph_dict, x, x)), dom(vals(graph.graph_dict)[x])[x])']
def indset(l, n=None):
    n = n or 'len(%s)' % l
    return ['forall(i, 0, %s, dom(graph.graph_dict)[%s[i]], %s[i])' % (n, l, l),
            'forall2(i, j, 0 <= i and i < j and j < %s, %s[i] != %s[j] and not (E(graph.graph_dict, %s[i], %s[j])) and not (E(graph.graph_dict, %s[j], %s[i])), %s[i], %s[j])' % (n, l, l, l, l, l, l, l, l)]
C(IN + 'greedy', 'graph:Graph -> tuple[int,list[int]]', requires=SYM,
  ensures=['result[0] == len(result[1])'] + indset('result[1]') + ['forall(i, 1, len(result[1]), result[1][i - 1] <= result[1][i], result[1][i])',
    'forallT(int, x, implies(dom(graph.graph_dict)[x], exists(j, 0, len(result[1]), result[1][j] == x or E(graph.graph_dict, result[1][j], x))), dom(graph.graph_dict)[x])'],
  locals={'independent_set': 'list[int]', 'degree': 'dict[int,int]'},
  loops={0: L(inv=['symm(%s)' % ND, 'forallT(int, x, iff(x in new_vertex_set, dom(%s)[x]), x in new_vertex_set)' % ND, 'len(new_vertex_set) == len(%s)' % ND,
                   'forallT(int, x, implies(dom(%s)[x], dom(%s)[x] and forall(j, 0, len(independent_set), independent_set[j] != x and not (E(%s, independent_set[j], x)), independent_set[j])), dom(%s)[x])' % (ND, DG, DG, ND),
                   'forall2(a, b, True, iff(E(%s, a, b), E(%s, a, b) and dom(%s)[a] and dom(%s)[b]), dom(vals(%s)[a])[b])' % (ND, DG, ND, ND, ND)] + indset('independent_set') + [
                   'forallT(int, x, implies(dom(%s)[x] and not (dom(%s)[x]), exists(j, 0, len(independent_set), independent_set[j] == x or E(%s, independent_set[j], x))), dom(%s)[x])' % (DG, ND, DG, DG)]),
         1: L(inv=['forallT(int, x, iff(dom(degree)[x], x in new_vertex_set and _rk1[x] < _i1), dom(degree)[x])', 'forallT(int, x, implies(dom(degree)[x], vals(degree)[x] == len(vals(%s)[x]) and min_degree <= vals(degree)[x]), dom(degree)[x])' % ND,
                   'min_degree <= len(new_vertex_set)', 'implies(min_degree < len(new_vertex_set), existsT(int, x, dom(degree)[x] and vals(degree)[x] == min_degree))'],
              exit=['witness w:int | w in new_vertex_set', 'card vals(new_graph.graph_dict)[w]', 'card new_vertex_set', 'use ncard_lt(dom(vals(new_graph.graph_dict)[w]), mem(new_vertex_set), w)'])})
