from pyvc.contract import C, Loop as L
from pyvc.spec import macro
CL = 'graphs.algorithms.coloring:'
D = 'graph.graph_dict'
SYM = ['symm(graph.graph_dict)', 'forallT(int, x, not (E(graph.graph_dict, x, x)), dom(vals(graph.graph_dict)[x])[x])', 'len(graph.graph_dict) >= 1']
def col(m, n, done='dom(%s)[x]' % D):
    """m colours properly, with colours 0 .. n - 1, all used"""
    return ['forallT(int, x, iff(dom(%s)[x], %s), dom(%s)[x])' % (m, done, m), 'forallT(int, x, implies(dom(%s)[x], 0 <= vals(%s)[x] and vals(%s)[x] < %s), vals(%s)[x])' % (m, m, m, n, m), '%s >= 1' % n,
            'forall2(a, b, dom(%s)[a] and dom(%s)[b] and E(%s, a, b), vals(%s)[a] != vals(%s)[b], dom(vals(%s)[a])[b])' % (m, m, D, m, m, D),
            'forall(c, 0, %s, implies(tick(c), dom(%s)[rep[c]] and vals(%s)[rep[c]] == c), tick(c))' % (n, m, m)]
def fin(m, n):
    return col(m, n)[:4] + ['forall(c, 0, %s, implies(tick(c), existsT(int, x, dom(%s)[x] and vals(%s)[x] == c)))' % (n, m, m)]
CC = 'color_classes'
def classes(k, n):
    return [x % dict(c=CC, k=k, n=n) for x in ['len(%(c)s) == num_colors',
      'forall(c, 0, num_colors, forall(j, 0, len(%(c)s[c]), dom(color_map)[%(c)s[c][j]] and vals(color_map)[%(c)s[c][j]] == c and _rk%(k)d[%(c)s[c][j]] < %(n)s and pos[%(c)s[c][j]] == j, %(c)s[c][j]), %(c)s[c])',
      'forallT(int, x, implies(dom(color_map)[x] and _rk%(k)d[x] < %(n)s, 0 <= pos[x] and pos[x] < len(%(c)s[vals(color_map)[x]]) and %(c)s[vals(color_map)[x]][pos[x]] == x), pos[x])']]
def clens(r):
    """the classes: every vertex exactly once, no edge within a class, none empty"""
    return ['len({0}[1]) == {0}[0]'.format(r), 'forall(c, 0, len({0}[1]), implies(tick(c), len({0}[1][c]) >= 1) and forall(j, 0, len({0}[1][c]), dom({1})[{0}[1][c][j]], {0}[1][c][j]), {0}[1][c])'.format(r, D),
            'forall(c, 0, len({0}[1]), forall2(i, j, 0 <= i and i < j and j < len({0}[1][c]), {0}[1][c][i] != {0}[1][c][j] and not (E({1}, {0}[1][c][i], {0}[1][c][j])), {0}[1][c][i], {0}[1][c][j]), {0}[1][c])'.format(r, D),
            'forall2(c, d, 0 <= c and c < d and d < len({0}[1]), forall2(i, j, 0 <= i and i < len({0}[1][c]) and 0 <= j and j < len({0}[1][d]), {0}[1][c][i] != {0}[1][d][j], {0}[1][c][i], {0}[1][d][j]), {0}[1][c], {0}[1][d])'.format(r),
            'forallT(int, x, implies(dom({1})[x], exists(c, 0, len({0}[1]), exists(j, 0, len({0}[1][c]), {0}[1][c][j] == x))), dom({1})[x])'.format(r, D)]
U = 'dom(%s)[x] and not (x in uncolored)' % D
DSX = {0: L(pre=['cut forallT(int, x, iff(x in uncolored, dom(%s)[x] and x != u), x in uncolored) ;; dom(%s)[u]' % (D, D), 'ghost rep = upd(fnconst(0), 0, u)'], inv=col('color_map', 'num_colors', U) + ['forallT(int, x, implies(x in uncolored, dom(%s)[x]), x in uncolored)' % D], head=['mark'], exit=['cut ' + ' ;; '.join(col('color_map', 'num_colors'))]),
      1: L(inv=['len(saturation_degrees) == _i1', 'forall(t, 0, _i1, saturation_degrees[t][2] in uncolored and dom(adjacent_colors)[saturation_degrees[t][2]], saturation_degrees[t])',
                'forallT(int, x, implies(x in uncolored and _rk1[x] < _i1, dom(adjacent_colors)[x]), x in uncolored)',
                'forallT(int, x, implies(dom(adjacent_colors)[x], forallT(int, c, implies(c in vals(adjacent_colors)[x], 0 <= c and c < num_colors), c in vals(adjacent_colors)[x]) and forallT(int, v, implies(E(%s, x, v) and dom(color_map)[v], vals(color_map)[v] in vals(adjacent_colors)[x]), dom(vals(%s)[x])[v])), dom(adjacent_colors)[x])' % (D, D)],
            head=['ghost uu = u', 'ghost A0 = adjacent_colors']),
      2: L(inv=['dom(adjacent_colors)[u]', 'forallT(int, x, implies(x != u, iff(dom(adjacent_colors)[x], dom(A0)[x])), dom(adjacent_colors)[x])', 'forallT(int, x, implies(x != u, vals(adjacent_colors)[x] == vals(A0)[x]), vals(adjacent_colors)[x])',
                'forallT(int, c, implies(c in vals(adjacent_colors)[u], 0 <= c and c < num_colors), c in vals(adjacent_colors)[u])', 'forallT(int, v, implies(E(%s, u, v) and dom(color_map)[v] and _rk2[v] < _i2, vals(color_map)[v] in vals(adjacent_colors)[u]), dom(vals(%s)[u])[v])' % (D, D)]),
      3: L(exit=['assert num_colors in neighbor_colors', 'assert False'], pre=['cut dom(%s)[u] and not dom(color_map)[u] ;; forallT(int, x, iff(x in uncolored, dom(%s)[x] and not (dom(color_map)[x]) and x != u), x in uncolored) ;; forallT(int, v, implies(E(%s, u, v) and dom(color_map)[v], vals(color_map)[v] in neighbor_colors), dom(vals(%s)[u])[v]) ;; forallT(int, c, implies(c in neighbor_colors, 0 <= c and c < num_colors), c in neighbor_colors)' % (D, D, D, D), 'ghost cm0 = color_map', 'ghost nc0 = num_colors', 'ghost rep0 = rep'], inv=['color_map == cm0', 'num_colors == nc0', 'rep == rep0', 'forall(c, 0, _i3, c in neighbor_colors)'], brk=['ghost rep = upd(rep, color, ite(color == nc0, u, rep[color]))'])}
C(CL + 'dsatur', 'graph:Graph, classes:bool=False -> tuple[int,dict[int,int]]', 'map', requires=SYM, ensures=fin('result[1]', 'result[0]'), locals={'saturation_degrees': 'list[tuple[int,int,int]]', 'adjacent_colors': 'dict[int,set[int]]', 'color_map': 'dict[int,int]'},
  entry=['mark'], loops=DSX)

def CCL(k):
    return {k: L(inv=classes(k, '_i%d' % k), pre=['ghost pos = fnconst(0)'], head=['ghost CC0 = color_classes', 'ghost uu = _seq%d[_i%d]' % (k, k)], end=['ghost pos = upd(pos, uu, len(CC0[vals(color_map)[uu]]))'],
              exit=['assert forallT(int, x, implies(dom(%s)[x], dom(color_map)[x] and 0 <= vals(color_map)[x] and vals(color_map)[x] < num_colors and 0 <= pos[x] and pos[x] < len(color_classes[vals(color_map)[x]]) and color_classes[vals(color_map)[x]][pos[x]] == x), dom(%s)[x])' % (D, D), 'assert forall(c, 0, num_colors, implies(tick(c), 0 <= pos[rep[c]] and pos[rep[c]] < len(color_classes[c])), tick(c))'])}
C(CL + 'dsatur', 'graph:Graph, classes:bool=True -> tuple[int,list[list[int]]]', '', requires=SYM, ensures=clens('result'), locals={'saturation_degrees': 'list[tuple[int,int,int]]', 'adjacent_colors': 'dict[int,set[int]]', 'color_map': 'dict[int,int]', 'color_classes': 'list[list[int]]'},
  entry=['mark'], loops={**DSX, **CCL(4)})

def enum(l, g=D):
    return ['forall(i, 0, len({0}), dom({1})[{0}[i]], {0}[i])'.format(l, g), 'forall2(i, j, 0 <= i and i < j and j < len({0}), {0}[i] != {0}[j], {0}[i], {0}[j])'.format(l),
            'forallT(int, x, implies(dom({1})[x], exists(i, 0, len({0}), {0}[i] == x)), dom({1})[x])'.format(l, g)]
DONE = 'exists(t, 0, _i0 + 1, vertices[t] == x)'
GS = {0: L(pre=['ghost rep = upd(fnconst(0), 0, v)', 'cut ' + ' ;; '.join(enum('vertices') + ['len(vertices) >= 1', 'v == vertices[0]'])], inv=col('color_map', 'num_colors', DONE), head=['mark'],
           exit=['cut ' + ' ;; '.join(col('color_map', 'num_colors'))]),
      1: L(inv=['forallT(int, c, implies(c in adjacent_colors, 0 <= c and c < num_colors), c in adjacent_colors)', 'forallT(int, w, implies(E(%s, v, w) and dom(color_map)[w] and _rk1[w] < _i1, vals(color_map)[w] in adjacent_colors), dom(vals(%s)[v])[w])' % (D, D)]),
      2: L(exit=['assert num_colors in adjacent_colors', 'assert False'],
           pre=['cut dom(%s)[v] and not dom(color_map)[v] ;; v == vertices[i] ;; forallT(int, w, implies(E(%s, v, w) and dom(color_map)[w], vals(color_map)[w] in adjacent_colors), dom(vals(%s)[v])[w]) ;; forallT(int, c, implies(c in adjacent_colors, 0 <= c and c < num_colors), c in adjacent_colors)' % (D, D, D),
                'ghost cm0 = color_map', 'ghost nc0 = num_colors', 'ghost rep0 = rep'],
           inv=['color_map == cm0', 'num_colors == nc0', 'rep == rep0', 'forall(c, 0, _i2, c in adjacent_colors)'], brk=['ghost rep = upd(rep, color, ite(color == nc0, v, rep[color]))'])}
LOC = {'color_map': 'dict[int,int]', 'color_classes': 'list[list[int]]', 'adjacent_colors': 'set[int]', 'reversed_vertices': 'list[int]'}
for vt, vn, rq in (('vertices:none=None', '', []), ('vertices:list[int]', 'list', enum('vertices'))):
    C(CL + 'greedy_sequential', 'graph:Graph, %s, passes:int=1, classes:bool=True -> tuple[int,list[list[int]]]' % vt, vn, requires=SYM + rq, ensures=clens('result'), locals=LOC, entry=['mark'], loops={**GS, **CCL(3)})
    C(CL + 'greedy_sequential', 'graph:Graph, %s, passes:int=1, classes:bool=False -> tuple[int,dict[int,int]]' % vt, vn + 'map', requires=SYM + rq, ensures=fin('result[1]', 'result[0]'), locals=LOC, entry=['mark'], loops=GS)

REV = {4: L(pre=['ghost K = color_classes', 'ghost off = fnconst(0)'], head=['ghost r0 = len(reversed_vertices)', 'ghost n0 = len(color_classes)'], end=['ghost off = upd(off, n0 - 1, r0)'],
  inv=['len(color_classes) <= num_colors', 'forall(c, 0, len(color_classes), color_classes[c] == K[c], color_classes[c])',
       'forall(j, 0, len(reversed_vertices), dom(color_map)[reversed_vertices[j]] and len(color_classes) <= vals(color_map)[reversed_vertices[j]] and off[vals(color_map)[reversed_vertices[j]]] + pos[reversed_vertices[j]] == j, reversed_vertices[j])',
       'forallT(int, x, implies(dom(color_map)[x] and len(color_classes) <= vals(color_map)[x], 0 <= off[vals(color_map)[x]] + pos[x] and off[vals(color_map)[x]] + pos[x] < len(reversed_vertices) and reversed_vertices[off[vals(color_map)[x]] + pos[x]] == x), pos[x], dom(color_map)[x])'])}
for vt, vn, rq in (('vertices:none=None', '', []), ('vertices:list[int]', 'list', enum('vertices'))):
    C(CL + 'greedy_sequential', 'graph:Graph, %s, passes:int, classes:bool=True -> tuple[int,list[list[int]]]' % vt, vn + 'passes', requires=SYM + rq + ['passes >= 1'], ensures=clens('result'), locals=LOC, entry=['mark'], loops={**GS, **CCL(3), **REV})
    C(CL + 'greedy_sequential', 'graph:Graph, %s, passes:int, classes:bool=False -> tuple[int,dict[int,int]]' % vt, vn + 'passesmap', requires=SYM + rq + ['passes >= 1'], ensures=fin('result[1]', 'result[0]'), locals=LOC, entry=['mark'], loops={**GS, **CCL(3), **REV})
