from pyvc.contract import C, Loop as L
A = 'number_theory.arithmetic_functions.'
SQ = 'n <= 1125899906842624'     # int(n**0.5) is exact; the lists have n + 1 entries
DONE = ['useall m:int {block[m]} => psum_done(m, sqrt)', 'use psum_m0(%d, sqrt)']


def small(c, upd1, upd2):
    """block[k*j] += ... for all pairs j <= k (psum: divisors up to sqrt paired with their cofactors)"""
    return {0: L(inv=['len(block) == n + 1', 'forall(m, 0, n + 1, block[m] == psum(%d, m, _i0), block[m])' % c],
                 pre=['useall m:int {psum(%d, m, 0)} => psum_zero(%d, m)' % (c, c)],
                 head=['ghost j0 = j'],
                 end=['useall m:int {block[m]} => psum_succ(%d, m, j0)' % c, 'useall m:int {block[m]} => mul_bound(m, j0, n)']),
            1: L(inv=['len(block) == n + 1', 'forall(m, 0, n + 1, block[m] == psum(%d, m, j - 1) + ite(m == j * j, %s, ite(m %% j == 0 and m > j * j and m < (j + 1 + _i1) * j, %s, 0)), block[m])' % (c, upd1, upd2)],
                 head=['ghost k0 = k'], end=['useall m:int {block[m]} => mul_hit(m, j, k0)', 'use mul_hit(k0 * j, j, k0)'],
                 pre=['useall m:int {block[m]} => mul_hit(m, j, j)'])}


def strided(lid, p, val, old, ix='mul'):
    """for mul in range(p, n + 1, p): block[mul] = val  (B: the list before the loop)"""
    return L(inv=['len(block) == n + 1', 'block[0] == B%d[0]' % lid, 'forall(m, 1, n + 1, block[m] == ite(hit(m, %s, _i%d), %s, %s), block[m])' % (p, lid, val, old)],
             head=['ghost k0 = _i%d' % lid, 'ghost x0 = %s' % ix, 'ghost C0 = arr(block)'], end=['use sdiv_def(C0[x0], term - 1, last - 1)', 'use hit_self(%s, k0)' % p, 'assert not hit(x0, %s, k0)' % p, 'assert block[x0] == ' + val.replace('[m]', '[x0]'), 'useall m:int {block[m]} => hit_step(m, %s, k0)' % p],
             pre=['ghost B%d = arr(block)' % lid, 'useall m:int {block[m]} => hit_start(m, %s)' % p],
             exit=['assert %s + %s * _i%d > n' % (p, p, lid), 'useall m:int {block[m]} => hit_end(m, %s, _i%d, n)' % (p, lid)])


C(A + 'sieves:tau_list', 'n:int -> list[int]', requires=[SQ], raises=[('ValueError', 'n <= 0')],
  ensures=['len(result) == n + 1', 'result[0] == 0', 'forall(m, 1, n + 1, result[m] == tau(m), result[m])'],
  loops=small(0, '1', '2'), exit=[x % 0 if '%' in x else x for x in DONE])
C(A + 'sums:sigma_sum', 'n:int -> int', raises=[('ValueError', 'n <= 0')], ensures=['result == sigsum(n)'],
  loops={0: L(inv=['value == hyp(n, _i0) - sqrt * (sqrt + 1)'], pre=['use hyp_zero(n)'], head=['use hyp_succ(n, k)'])},
  exit=['use hyp_done(n, sqrt)'])
# prime_list[i] is nthp(i), and nthp(len) is beyond the limit
ENDP = ['use pc_iff(n + 1, len(prime_list))']
HEAD = ['use nthp_prime(_i0)', 'ghost i0 = _i0', 'assert p == nthp(i0)']
C(A + 'sieves:euler_phi_list', 'n:int -> list[int]', raises=[('ValueError', 'n <= 0')],
  ensures=['len(result) == n + 1', 'result[0] == 0', 'forall(m, 1, n + 1, result[m] == phi(m), result[m])'],
  loops={0: L(inv=['len(block) == n + 1', 'block[0] == 0', 'forall(m, 1, n + 1, block[m] == phiP(m, nthp(_i0)), block[m])'],
              pre=['useall m:int {phiP(m, nthp(0))} => phiP_start(m)'],
              head=HEAD + ['use powZ_two(p)'],
              end=['useall m:int {block[m]} => phiP_step(m, i0, t)']),
         1: strided(1, 'p', 'B1[m] * (p - 1)', 'B1[m]'),
         2: L(inv=['t >= 1', 'pk == powZ(p, t + 1)', 'len(block) == n + 1', 'block[0] == 0', 'forall(m, 1, n + 1, block[m] == phiP(m, p) * phiL(m, p, t), block[m])'],
              pre=['useall m:int {block[m]} => phiL_one(m, p)'],
              ghost=['t = 1'], head=['ghost t0 = t', 'use powZ_succ(p, t + 1)', 'use powZ_pos(p, t + 1)', 'useall m:int {block[m]} => phiL_step(m, p, t)'], end=['ghost t = t0 + 1']),
         3: strided(3, 'pk', 'B3[m] * p', 'B3[m]')},
  exit=ENDP + ['useall m:int {block[m]} => phiP_done(m, nthp(len(prime_list)))'])
C(A + 'sieves:moebius_list', 'n:int -> list[int]', requires=[SQ], raises=[('ValueError', 'n <= 0')],
  ensures=['len(result) == n + 1', 'result[0] == 0', 'forall(m, 1, n + 1, result[m] == mu(m), result[m])'],
  loops={0: L(inv=['len(block) == n + 1', 'len(values) == n + 1', 'block[0] == 0',
                   'forall(m, 1, n + 1, block[m] == muP(m, nthp(_i0)), block[m])', 'forall(m, 1, n + 1, values[m] == vaP(m, nthp(_i0)), values[m])'],
              pre=['useall m:int {muP(m, nthp(0))} => muP_start(m)', 'useall m:int {vaP(m, nthp(0))} => muP_start(m)'],
              head=HEAD,
              end=['useall m:int {block[m]} => muP_step(m, i0)', 'useall m:int {values[m]} => muP_step(m, i0)']),
         1: L(inv=['len(block) == n + 1', 'len(values) == n + 1', 'block[0] == 0',
                   'forall(m, 1, n + 1, block[m] == ite(hit(m, p, _i1), ite(m % (p * p) == 0, 0, -B1[m]), B1[m]), block[m])',
                   'forall(m, 1, n + 1, values[m] == ite(hit(m, p, _i1), ite(m % (p * p) == 0, V1[m], V1[m] * p), V1[m]), values[m])'],
              head=['ghost k0 = _i1'], end=['useall m:int {block[m]} => hit_step(m, p, k0)', 'useall m:int {values[m]} => hit_step(m, p, k0)', 'use hit_self(p, k0)'],
              pre=['ghost B1 = arr(block)', 'ghost V1 = arr(values)', 'useall m:int {block[m]} => hit_start(m, p)', 'useall m:int {values[m]} => hit_start(m, p)'],
              exit=['assert p + p * _i1 > n', 'useall m:int {block[m]} => hit_end(m, p, _i1, n)', 'useall m:int {values[m]} => hit_end(m, p, _i1, n)']),
         2: L(inv=['len(block) == n + 1', 'block[0] == 0', 'forall(m, 1, n + 1, block[m] == ite(m < _i2, mu(m), B2[m]), block[m])'],
              pre=['ghost B2 = arr(block)', 'ghost Q = nthp(len(prime_list))', 'use pc_iff(sqrt + 1, len(prime_list))', 'assert Q >= sqrt + 1', 'assert Q * Q >= (sqrt + 1) * (sqrt + 1)'],
              head=['ghost i2 = _i2', 'use muP_done(_i2, Q)'])})
_sm = small(1, 'j', 'j + m // j')
_sm[1].end += ['use mul_div_self(k0, j)']
C(A + 'sieves:sigma_list', 'n:int, k:int -> list[int]', requires=[SQ], raises=[('ValueError', 'n <= 0 or k < 0')],
  ensures=['len(result) == n + 1', 'result[0] == 0', 'forall(m, 1, n + 1, result[m] == sig(k, m), result[m])'],
  loops={**_sm,
         2: L(inv=['len(block) == n + 1', 'block[0] == 0', 'forall(m, 1, n + 1, block[m] == sgP(k, m, nthp(_i2)), block[m])'],
              pre=['useall m:int {sgP(k, m, nthp(0))} => sgP_start(k, m)'],
              head=['use nthp_prime(_i2)', 'ghost i2 = _i2', 'assert p == nthp(i2)', 'use powZ_one(p)', 'use powZ_one(powZ(p, k))', 'use powZ_two(powZ(p, k))'],
              end=['useall m:int {block[m]} => sgP_step(k, m, i2, t)']),
         3: L(inv=['t >= 0', 'pk == powZ(p, t + 1)', 'mul == powZ(p, k)', 'last == powZ(mul, t + 1)', 'term == powZ(mul, t + 2)', 'len(block) == n + 1', 'block[0] == 0',
                   'forall(m, 1, n + 1, block[m] == sgP(k, m, p) * sgL(k, m, p, t), block[m])'],
              pre=['useall m:int {sgL(k, m, p, 0)} => sgL_zero(k, m, p)'],
              ghost=['t = 0'], head=['ghost t0 = t', 'use powZ_succ(p, t + 1)', 'use powZ_succ(mul, t + 2)', 'use powZ_pos(p, t + 1)', 'use sgL_step(k, 1, p, t + 1, 1)',
                                     'useall m:int {sgP(k, m, p)} => sgL_step(k, m, p, t + 1, sgP(k, m, p))'], end=['ghost t = t0 + 1']),
         4: strided(4, 'pk', 'sdiv(B4[m], term - 1, last - 1)', 'B4[m]', 'idx')},
  exit=ENDP + ['useall m:int {block[m]} => sgP_done(k, m, nthp(len(prime_list)))', 'use psum_m0(1, sqrt)',
               'useall m:int {block[m]} => psum_done(m, sqrt)', 'useall m:int {sig(0, m)} => sig_zero(m)'])
