from pyvc.contract import C, Loop as L
from contracts.c_graph import ADJ, RG
PT = 'graphs.algorithms.paths:'
RWT = '_R:%s=_R, _W:fn[tuple[int,int],int]=_W' % RG
def WADJ(g, nonneg=True):
    return ADJ(g) + ['forall2(a, b, E(%s.graph_dict, a, b), _W[(a, b)] == W(%s.graph_dict, a, b)%s, _R[(a, b)], dom(vals(%s.graph_dict)[a])[b])' % (g, g, ' and _W[(a, b)] >= 0' if nonneg else '', g)]
SPE = ['forallT(int, x, iff(dom(result[0])[x], dom(graph.graph_dict)[x]), dom(result[0])[x])', 'forallT(int, x, iff(dom(result[1])[x], dom(graph.graph_dict)[x]), dom(result[1])[x])',
  'forallT(int, x, implies(dom(graph.graph_dict)[x] and fin(vals(result[0])[x]), existsT(int, c, wk(_R, _W, s, x, c) and vals(result[0])[x] == c)), vals(result[0])[x])',
  'forallT(int, x, forallT(int, c, implies(wk(_R, _W, s, x, c), dom(result[0])[x] and fin(vals(result[0])[x]) and vals(result[0])[x] <= c), wk(_R, _W, s, x, c)))',
  'forallT(int, x, implies(dom(graph.graph_dict)[x] and x != s and fin(vals(result[0])[x]), vals(result[1])[x] is not None), vals(result[1])[x])',
  'forallT(int, x, implies(dom(graph.graph_dict)[x] and vals(result[1])[x] is not None, _R[(val(vals(result[1])[x]), x)] and fin(vals(result[0])[x]) and vals(result[0])[x] == vals(result[0])[val(vals(result[1])[x])] + _W[(val(vals(result[1])[x]), x)]), vals(result[1])[x])']
TREE = ['vals(result[1])[s] is None', 'forallT(int, x, implies(dom(graph.graph_dict)[x] and fin(vals(result[0])[x]), leadsN(vals(result[1]), x, s)), vals(result[0])[x])']
# dv[x] the distance when it is finite, P
DJ = ['forallT(int, x, iff(dom(distance)[x], dom(graph.graph_dict)[x]), dom(distance)[x])', 'forallT(int, x, iff(dom(previous)[x], dom(graph.graph_dict)[x]), dom(previous)[x])',
  'forallT(int, x, implies(P[x], dom(graph.graph_dict)[x] and wk(_R, _W, s, x, dv[x]) and vals(distance)[x] == dv[x]), P[x])', 'forallT(int, x, implies(dom(graph.graph_dict)[x] and not P[x], not fin(vals(distance)[x])), vals(distance)[x])',
  'P[s] and dv[s] == 0 and vals(previous)[s] is None', 'forallT(int, x, implies(P[x], dv[x] >= 0), P[x])',
  'forall(j, 0, len(to_visit), P[to_visit[j][1]] and dv[to_visit[j][1]] <= to_visit[j][0], to_visit[j])', 'forallT(int, x, implies(P[x] and not x in visited, exists(j, 0, len(to_visit), to_visit[j][1] == x and to_visit[j][0] == dv[x])), x in visited)',
  'forallT(int, x, implies(x in visited, P[x] and 0 <= pos[x] and pos[x] < n), x in visited)', 'n >= 0',
  'forallT(int, x, implies(P[x] and x != s, vals(previous)[x] is not None), vals(previous)[x])',
  'forallT(int, x, implies(dom(graph.graph_dict)[x] and vals(previous)[x] is not None, P[x] and val(vals(previous)[x]) in visited and _R[(val(vals(previous)[x]), x)] and dv[x] == dv[val(vals(previous)[x])] + _W[(val(vals(previous)[x]), x)]), vals(previous)[x])',
  'forallT(int, x, implies(x in visited and x != s, pos[val(vals(previous)[x])] < pos[x]), vals(previous)[x])']
C(PT + 'dijkstra', 'graph:Graph, s:int, %s -> tuple[dict[int,ext],dict[int,opt[int]]]' % RWT, requires=WADJ('graph'), raises=[('ValueError', 'not (s in graph.graph_dict)')], ensures=SPE + TREE,
  locals={'distance': 'dict[int,ext]', 'previous': 'dict[int,opt[int]]', 'visited': 'set[int]', 'to_visit': 'list[tuple[int,int]]'},
  entry=['ghost P = upd(fnconst(False), s, True)', 'ghost dv = fnconst(0)', 'ghost pos = fnconst(0)', 'ghost n = 0', 'use wk_refl(_R, _W, s)'],
  loops={0: L(inv=DJ + ['forallT(int, x, forall(j, 0, len(to_visit), implies(x in visited, dv[x] <= to_visit[j][0]), to_visit[j]), x in visited)',
                        'forallT(int, x, forallT(int, y, implies(x in visited and _R[(x, y)], P[y] and dv[y] <= dv[x] + _W[(x, y)]), _R[(x, y)]), x in visited)'],
              head=['ghost V0 = mem(visited)'], end=[],
              exit=['assert forallT(int, x, implies(P[x], x in visited), P[x])', 'use wk_bound(_R, _W, s, P, dv)', 'use leadsN_rank(vals(previous), P, pos, s)']),
         1: L(inv=DJ + ['u in visited', 'w == dv[u]', 'pos[u] == n - 1', 'forallT(int, x, implies(x in visited and x != u, pos[x] < n - 1), x in visited)', 'forallT(int, x, implies(x in visited, dv[x] <= w), x in visited)', 'forall(j, 0, len(to_visit), w <= to_visit[j][0], to_visit[j])',
                 'forallT(int, x, forallT(int, y, implies(x in visited and _R[(x, y)] and (x != u or _rk1[y] < _i1), P[y] and dv[y] <= dv[x] + _W[(x, y)]), _R[(x, y)]), x in visited)'],
              pre=['ghost pos = upd(pos, u, n)', 'ghost n = n + 1'],
              head=['use wk_step(_R, _W, s, u, v, w)', 'ghost imp = not P[v] or w + _W[(u, v)] < dv[v]', 'ghost P1 = upd(P, v, True)', 'ghost dv1 = upd(dv, v, w + _W[(u, v)])', 'assert _W[(u, v)] >= 0', 'assert implies(v in visited, P[v])', 'assert implies(v in visited, dv[v] <= w)', 'assert implies(imp, not v in visited)', 'ghost H0 = to_visit', 'ghost vv = v', 'assert P[u] and dom(graph.graph_dict)[v] and _R[(u, v)] and iff(imp, w + _W[(u, v)] < vals(distance)[v])'],
              end=['assert implies(imp, vals(distance)[vv] == dv1[vv] and vals(previous)[vv] is not None and val(vals(previous)[vv]) == u)', 'assert implies(imp, u != vv)', 'assert implies(imp, forallT(int, x, implies(x in visited, dv1[x] == dv[x]), x in visited))', 'assert forall(j, 0, len(H0), exists(k, 0, len(to_visit), to_visit[k] == H0[j]), H0[j])', 'assert implies(imp, exists(k, 0, len(to_visit), to_visit[k][1] == vv and to_visit[k][0] == dv1[vv]))', 'ghost P = ite(imp, P1, P)', 'ghost dv = ite(imp, dv1, dv)'])})
BF = ['forallT(int, x, iff(dom(cost)[x], dom(graph.graph_dict)[x]), dom(cost)[x])', 'forallT(int, x, iff(dom(previous)[x], dom(graph.graph_dict)[x]), dom(previous)[x])', 'forallT(int, x, iff(dom(count)[x], dom(graph.graph_dict)[x]), dom(count)[x])',
  'forallT(int, x, implies(P[x], dom(graph.graph_dict)[x] and wk(_R, _W, s, x, dv[x]) and vals(cost)[x] == dv[x]), P[x])', 'forallT(int, x, implies(dom(graph.graph_dict)[x] and not P[x], not fin(vals(cost)[x])), vals(cost)[x])',
  'P[s] and dv[s] <= 0', 'implies(vals(previous)[s] is not None, dv[s] < 0)', '0 <= h and h <= q', 'len(stack) == q - h', 'forall(j, 0, len(stack), stack[j] == Q[h + j], stack[j])', 'forall(i, h, q, P[Q[i]], Q[i])',
  'forallT(int, x, implies(x in stack_elements, h <= ps[x] and ps[x] < q and Q[ps[x]] == x), x in stack_elements)',
  'forallT(int, x, implies(P[x] and x != s, vals(previous)[x] is not None), vals(previous)[x])',
  'forallT(int, x, implies(dom(graph.graph_dict)[x] and vals(previous)[x] is not None, P[x] and P[val(vals(previous)[x])] and _R[(val(vals(previous)[x]), x)] and dv[x] >= dv[val(vals(previous)[x])] + _W[(val(vals(previous)[x]), x)]), vals(previous)[x])']
RLX = 'forallT(int, x, forallT(int, y, implies(P[x] and not x in stack_elements and _R[(x, y)]%s, P[y] and dv[y] <= dv[x] + _W[(x, y)]), _R[(x, y)]), %s)'
C(PT + 'bellman_ford', 'graph:Graph, s:int, %s -> tuple[dict[int,ext],dict[int,opt[int]]]' % RWT, requires=WADJ('graph', False), raises=[('ValueError', '*')], ensures=['s in graph.graph_dict'] + SPE + ['vals(result[0])[s] == 0', 'vals(result[1])[s] is None'],
  locals={'cost': 'dict[int,ext]', 'previous': 'dict[int,opt[int]]', 'stack_elements': 'set[int]'},
  entry=['ghost P = upd(fnconst(False), s, True)', 'ghost dv = fnconst(0)', 'ghost ps = fnconst(0)', 'ghost Q = fnconst(s)', 'ghost h = 0', 'ghost q = 1', 'use wk_refl(_R, _W, s)'],
  loops={0: L(inv=BF + [RLX % ('', 'x in stack_elements, P[x]')], head=['ghost h = h + 1'], end=[],
              exit=['assert forallT(int, x, not (x in stack_elements), x in stack_elements)', 'assert forallT(int, x, forallT(int, y, implies(P[x] and _R[(x, y)], P[y] and dv[y] <= dv[x] + _W[(x, y)]), _R[(x, y)]), P[x])', 'use wk_bound(_R, _W, s, P, dv)', 'use wk_trans(_R, _W, s, s, s, dv[s], dv[s])']),
         1: L(inv=BF + ['P[u] and u in graph.graph_dict', RLX % (' and (x != u or _rk1[y] < _i1)', 'x in stack_elements, P[x]')],
              head=['ghost vv = v', 'use wk_step(_R, _W, s, u, v, dv[u])', 'assert dom(graph.graph_dict)[v] and _R[(u, v)]', 'ghost imp = not P[v] or dv[u] + _W[(u, v)] < dv[v]', 'ghost push = imp and not v in stack_elements', 'assert iff(imp, dv[u] + _W[(u, v)] < vals(cost)[v])',
                    'ghost P1 = upd(P, v, True)', 'ghost dv1 = upd(dv, v, dv[u] + _W[(u, v)])', 'ghost Q1 = upd(Q, q, v)', 'ghost ps1 = upd(ps, v, q)'],
              end=['assert implies(imp, vals(cost)[vv] == dv1[vv] and vals(previous)[vv] is not None and val(vals(previous)[vv]) == u)', 'ghost P = ite(imp, P1, P)', 'ghost dv = ite(imp, dv1, dv)', 'ghost Q = ite(push, Q1, Q)', 'ghost ps = ite(push, ps1, ps)', 'ghost q = ite(push, q + 1, q)'])})
VV = 'dom(graph.graph_dict)[%s]'
FWD = ['forall2(a, b, True, iff(dom(dist)[(a, b)], dom(graph.graph_dict)[a] and dom(graph.graph_dict)[b]), dom(dist)[(a, b)])', 'forall2(a, b, True, iff(dom(pred)[(a, b)], dom(graph.graph_dict)[a] and dom(graph.graph_dict)[b]), dom(pred)[(a, b)])']
FWA = ['forall2(a, b, P[(a, b)], dom(graph.graph_dict)[a] and dom(graph.graph_dict)[b] and wk(_R, _W, a, b, dv[(a, b)]) and vals(dist)[(a, b)] == dv[(a, b)], P[(a, b)])',
  'forall2(a, b, dom(graph.graph_dict)[a] and dom(graph.graph_dict)[b] and not P[(a, b)], not fin(vals(dist)[(a, b)]), vals(dist)[(a, b)])',
  'forall2(a, b, P[(a, b)] and a != b, vals(pred)[(a, b)] is not None, vals(pred)[(a, b)])',
  'forall2(a, b, dom(graph.graph_dict)[a] and dom(graph.graph_dict)[b] and vals(pred)[(a, b)] is not None, P[(a, b)] and _R[(val(vals(pred)[(a, b)]), b)] and wk(_R, _W, a, val(vals(pred)[(a, b)]), dv[(a, b)] - _W[(val(vals(pred)[(a, b)]), b)]), vals(pred)[(a, b)])']
FWG = 'forallT(int, x, implies(dom(graph.graph_dict)[x], P[(x, x)] and dv[(x, x)] <= 0), P[(x, x)])'
FWB = lambda P, d: 'forallT(int, a, forallT(int, b, forallT(int, c, implies(dom(graph.graph_dict)[a] and walki(_R, _W, K, a, b, c), %s[(a, b)] and %s[(a, b)] <= c), walki(_R, _W, K, a, b, c))))' % (P, d)
# the first round: the pairs done so far
FWI = lambda g: ['forall2(a, b, True, iff(dom(dist)[(a, b)], %s), dom(dist)[(a, b)])' % g, 'forall2(a, b, True, iff(dom(pred)[(a, b)], %s), dom(pred)[(a, b)])' % g,
  'forall2(a, b, P[(a, b)], %s and wk(_R, _W, a, b, dv[(a, b)]) and vals(dist)[(a, b)] == dv[(a, b)], P[(a, b)])' % g, 'forall2(a, b, %s and not P[(a, b)], not fin(vals(dist)[(a, b)]), vals(dist)[(a, b)])' % g,
  'forall2(a, b, P[(a, b)] and a != b, vals(pred)[(a, b)] is not None and vals(pred)[(a, b)] == a and _R[(a, b)] and dv[(a, b)] == _W[(a, b)], vals(pred)[(a, b)])',
  'forall2(a, b, %s and a == b, P[(a, b)] and dv[(a, b)] == 0 and vals(pred)[(a, b)] is None, vals(pred)[(a, b)])' % g, 'forall2(a, b, %s and not P[(a, b)], vals(pred)[(a, b)] is None, vals(pred)[(a, b)])' % g,
  'forall2(a, b, %s and _R[(a, b)], P[(a, b)] and dv[(a, b)] <= _W[(a, b)], _R[(a, b)])' % g, 'forall2(a, b, %s, P[(a, b)] or a != b and not _R[(a, b)], P[(a, b)])' % g]
G0 = '(dom(graph.graph_dict)[a] and dom(graph.graph_dict)[b] and _rk0[a] < _i0)'
G1 = '(dom(graph.graph_dict)[a] and dom(graph.graph_dict)[b] and (_rk0[a] < _i0 or a == u and _rk1[b] < _i1))'
DONE3 = '_rk3[a] < _i3'
FWR = lambda done: FWD + FWA + [FWG, 'forall2(a, b, P0[(a, b)], P[(a, b)] and dv[(a, b)] <= dv0[(a, b)], P0[(a, b)])', 'forallT(int, x, iff(P[(x, u)], P0[(x, u)]) and dv[(x, u)] == dv0[(x, u)], P[(x, u)], dv[(x, u)])', 'forallT(int, x, iff(P[(u, x)], P0[(u, x)]) and dv[(u, x)] == dv0[(u, x)], P[(u, x)], dv[(u, x)])',
  'dom(graph.graph_dict)[u]', 'P0[(u, u)] and dv0[(u, u)] == 0',
  'forall2(a, b, dom(graph.graph_dict)[a] and dom(graph.graph_dict)[b] and (%s) and P0[(a, u)] and P0[(u, b)], P[(a, b)] and dv[(a, b)] <= dv0[(a, u)] + dv0[(u, b)], P[(a, b)])' % done]
C(PT + 'floyd_warshall', 'graph:Graph, %s -> tuple[dict[tuple[int,int],ext],dict[tuple[int,int],opt[int]]]' % RWT, requires=WADJ('graph', False) + ['forallT(int, x, implies(_R[(x, x)], _W[(x, x)] >= 0), _R[(x, x)])'], raises=[('ValueError', '*')],
  locals={'dist': 'dict[tuple[int,int],ext]', 'pred': 'dict[tuple[int,int],opt[int]]'},
  ensures=[x.replace('(dist)', '(result[0])').replace('(pred)', '(result[1])') for x in FWD] + [
    'forall2(x, y, dom(graph.graph_dict)[x] and dom(graph.graph_dict)[y] and fin(vals(result[0])[(x, y)]), existsT(int, c, wk(_R, _W, x, y, c) and vals(result[0])[(x, y)] == c), vals(result[0])[(x, y)])',
    'forallT(int, x, forallT(int, y, forallT(int, c, implies(dom(graph.graph_dict)[x] and wk(_R, _W, x, y, c), dom(graph.graph_dict)[y] and fin(vals(result[0])[(x, y)]) and vals(result[0])[(x, y)] <= c), wk(_R, _W, x, y, c))))',
    'forall2(x, y, dom(graph.graph_dict)[x] and dom(graph.graph_dict)[y] and x != y and fin(vals(result[0])[(x, y)]), vals(result[1])[(x, y)] is not None, vals(result[1])[(x, y)])',
    'forall2(x, y, dom(graph.graph_dict)[x] and dom(graph.graph_dict)[y] and vals(result[1])[(x, y)] is not None, _R[(val(vals(result[1])[(x, y)]), y)] and fin(vals(result[0])[(x, y)]) and vals(result[0])[(x, y)] == vals(result[0])[(x, val(vals(result[1])[(x, y)]))] + _W[(val(vals(result[1])[(x, y)]), y)], vals(result[1])[(x, y)])'],
  entry=['ghost P = fnconst(False, tuple[int,int])', 'ghost dv = fnconst(0, tuple[int,int])', 'ghost K = fnconst(False)'],
  loops={0: L(inv=FWI(G0), exit=['assert forall2(a, b, _R[(a, b)], dom(graph.graph_dict)[a] and dom(graph.graph_dict)[b], _R[(a, b)])', 'assert forallT(int, x, not K[x], K[x])',
                'assert forall2(a, b, dom(graph.graph_dict)[a] and _R[(a, b)], P[(a, b)] and dv[(a, b)] <= _W[(a, b)], _R[(a, b)])']), 1: L(inv=FWI(G1), head=['use wk_refl(_R, _W, u)', 'use wk_step(_R, _W, u, u, v, 0)', 'ghost vv = v', 'ghost isf = u == v or E(graph.graph_dict, u, v)', 'ghost P1 = upd(P, (u, v), True)', 'ghost dv1 = upd(dv, (u, v), ite(u == v, 0, _W[(u, v)]))'],
                  end=['ghost P = ite(isf, P1, P)', 'ghost dv = ite(isf, dv1, dv)']),
         2: L(inv=FWD + FWA + [FWG, FWB('P', 'dv'), 'forallT(int, x, iff(K[x], dom(graph.graph_dict)[x] and _rk2[x] < _i2), K[x])'],
              pre=['useall a:int, b:int, c:int {walki(_R, _W, K, a, b, c)} => walki_none(_R, _W, K, a, b, c)', 'useall a:int, b:int {vals(pred)[(a, b)]} => wk_refl(_R, _W, a)'],
              head=['ghost K0 = K', 'ghost uu = u', 'ghost P0 = P', 'ghost dv0 = dv', 'useall a:int, b:int, c:int {walki(_R, _W, upd(K, u, True), a, b, c)} => walki_step(_R, _W, K, u, P, dv, a, b, c)', 'ghost K = upd(K, u, True)'], end=[],
              exit=['assert forall2(x, y, _R[(x, y)], K[x], _R[(x, y)])', 'useall a:int, b:int, c:int {wk(_R, _W, a, b, c)} => walki_all(_R, _W, K, a, b, c)',
                    'assert forallT(int, x, forallT(int, y, forallT(int, c, implies(dom(graph.graph_dict)[x] and wk(_R, _W, x, y, c), dom(graph.graph_dict)[y] and P[(x, y)] and dv[(x, y)] <= c, wk(_R, _W, x, y, c)))))',
                    'useall x:int, y:int {vals(pred)[(x, y)]} => wk_step(_R, _W, x, val(vals(pred)[(x, y)]), y, dv[(x, val(vals(pred)[(x, y)]))])']),
         3: L(inv=FWR(DONE3)), 
         4: L(inv=FWR('_rk3[a] < _i3 or a == v and _rk4[b] < _i4') + ['dom(graph.graph_dict)[v]'],
              head=['ghost ww = w', 'use wk_trans(_R, _W, v, u, w, dv[(v, u)], dv[(u, w)])', 'useall c:int {wk(_R, _W, u, val(vals(pred)[(u, w)]), c)} => wk_trans(_R, _W, v, u, val(vals(pred)[(u, w)]), dv[(v, u)], c)',
                    'ghost imp = P[(v, u)] and P[(u, w)] and (not P[(v, w)] or dv[(v, u)] + dv[(u, w)] < dv[(v, w)])', 'assert iff(imp, vals(dist)[(v, w)] > vals(dist)[(v, u)] + vals(dist)[(u, w)])',
                    'ghost P1 = upd(P, (v, w), True)', 'ghost dv1 = upd(dv, (v, w), dv[(v, u)] + dv[(u, w)])', 'assert implies(imp, v != u and w != u)'],
              end=['ghost P = ite(imp, P1, P)', 'ghost dv = ite(imp, dv1, dv)'])})
