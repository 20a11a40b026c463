from pyvc.contract import C, Loop as L
Z = 'number_theory.zn_arithmetic:'
BOUND = 341550071728321
STRICT = 'forall2(i, j, 0 <= i and i < j and j < len(result), result[i] < result[j], result[i], result[j])'
PRIMESOF = 'forall(i, 0, len(phi_divisors), isprime(phi_divisors[i]) and phi %% phi_divisors[i] == 0, phi_divisors[i]) and ' \
           'forallT(int, q, implies(isprime(q) and phi %% q == 0, exists(i, 0, len(phi_divisors), phi_divisors[i] == q)), isprime(q))'.replace('%%', '%')
PRIMESOF = PRIMESOF.replace('%%', '%')

PR = dict(raises=[('ValueError', 'n <= 1')], ensures=['result == proot(a, n)'],
          loops={0: L(inv=['forall(i, 0, _i0, powZ(a, phi // phi_divisors[i]) % n != 1, phi_divisors[i])'],
                    pre=['use phi_lt(n)', 'useall i:int {phi_divisors[i]} => dvd_le(phi, phi_divisors[i])'],
                    head=['assert isprime(d) and phi % d == 0'])},
          entry=['use proot_iff(a, n)', 'use proot_gcd(a, n)', 'use proot_no4(a, n)', 'use order_phi(a, n)', 'useall q:int {isprime(q)} => prime_ge2(q)'])
C(Z + 'is_primitive_root', 'a:int, n:int, phi:int=None, phi_divisors:list[int]=None -> bool', requires=['n < %d' % BOUND], **PR)
C(Z + 'is_primitive_root', 'a:int, n:int, phi:int, phi_divisors:list[int] -> bool', variant='given',
  requires=['implies(n >= 2, phi == phi(n))', PRIMESOF], **PR)

NOPR = 'not exists(g, 1, n, proot(g, n))'
PEX = ['use pfok_intro(arr(now_n_factorization), len(now_n_factorization))', 'use proot_exists(arr(now_n_factorization), len(now_n_factorization), n)',
       'useall i:int {now_n_factorization[i]} => prodPE_dvd(arr(now_n_factorization), len(now_n_factorization), i)',
       'useall i:int {now_n_factorization[i]} => dvd_le(n, now_n_factorization[i][0])']
PEX = PEX[2:] + PEX[:2]
PLP = [h.replace('now_', '') for h in PEX] + ['use phi_lt(n)', 'useall i:int {phi_divisors[i]} => dvd_le(phi, phi_divisors[i])',
                                              'useall q:int {isprime(q)} => prime_ge2(q)']
for v, ph in (('', 'phi:int=None'), ('phi', 'phi:int')):
    C(Z + 'primitive_root', 'n:int, n_factorization:int=None, %s, phi_divisors:int=None -> int' % ph, variant=v,
      requires=['n >= 2', 'n < %d' % BOUND] + (['phi == phi(n)'] if v else []),
      raises=[('ValueError', NOPR)], exc_exit=PEX,
      ensures=['1 <= result', 'result < n', 'proot(result, n)', 'forall(g, 1, result, not proot(g, n))'],
      loops={0: L(inv=['forall(j, 1, 1 + _i0, not proot(j, n), proot(j, n))'], pre=PLP)},
      after={'n_factorization': [h.replace('now_', '') for h in PEX] + ['use phi_lt(n)']}, entry=['use phi_lt(n)'])

DIVS = ['forall2(i, j, 0 <= i and i < j and j < len(phi_divisors), phi_divisors[i] < phi_divisors[j], phi_divisors[i], phi_divisors[j])',
        'forall(i, 0, len(phi_divisors), phi_divisors[i] >= 1 and phi % phi_divisors[i] == 0, phi_divisors[i])',
        'forallT(int, d, implies(d >= 1 and phi % d == 0, exists(i, 0, len(phi_divisors), phi_divisors[i] == d)), phi % d)']
for v, ex in (('', 'phi:int=None, phi_divisors:int=None'), ('given', 'phi:int, phi_divisors:list[int]')):
    C(Z + 'multiplicative_order', 'a:int, n:int, %s -> int' % ex, variant=v,
      requires=['n >= 1', 'n < %d' % BOUND] if not v else ['n >= 1', 'phi == phi(n)'] + DIVS, raises=[('ValueError', 'gcdZ(a, n) != 1')],
      ensures=['result >= 1', 'powZ(a, result) % n == 1 % n', 'forall(j, 1, result, powZ(a, j) % n != 1 % n)'],
      loops={0: L(inv=['forall(i, 0, _i0, powZ(a, phi_divisors[i]) % n != 1 % n, phi_divisors[i])'], pre=['use mod_self(phi)'])},
      entry=['use order_phi(a, n)', 'use phi_lt(n)', 'use small_mod1(1, n)', 'use arithf_one()', 'useall j:int {powZ(a, j)} => small_mod1(0, 1)'],
      exit=['use order_dvd(a, n, result)', 'assert n >= 2 or result == 1'])

C(Z + 'linear_congruence', 'a:int, b:int, n:int -> list[int]', raises=[('ValueError', 'n < 2')],
  ensures=[STRICT, 'forall(i, 0, len(result), 0 <= result[i] and result[i] < n and linP(result[i], a, b, n))',
           'forall(x, 0, n, implies(linP(x, a, b, n), exists(i, 0, len(result), result[i] == x)), linP(x, a, b, n))'],
  after={'d': ['use lin_dpos(a, n)'],
         'solutions': ['useall k:int {solutions[k]} => lin_def(b, u, n, d, k)',
                       'assert forall(k, 0, d, solutions[k] == linS(b, u, n, d, k), solutions[k])',
                       'assert forall(k, 0, d, solutions[k] == linS(b, u, n, d, k), linS(b, u, n, d, k))', 'use linP_all(a, b, n, u, v, d)',
                       'assert ' + """forallT(int, k, 0 <= linS(b, u, n, d, k) and linS(b, u, n, d, k) < n and linP(linS(b, u, n, d, k), a, b, n), linS(b, u, n, d, k)) and
   forall(x, 0, n, implies(linP(x, a, b, n), exists(k, 0, d, linS(b, u, n, d, k) == x)), linP(x, a, b, n)) and
   forall2(j, k, 0 <= j and j < d and 0 <= k and k < d and linS(b, u, n, d, j) == linS(b, u, n, d, k), j == k, linS(b, u, n, d, j), linS(b, u, n, d, k))""",
                       'forget nonlinear']},
  exit=['useall x:int {linP(x, a, b, n)} => linP_nosol(a, b, n, x)'])

C(Z + 'discrete_log', 'a:int, b:int, p:int -> int', requires=['p >= 2', 'gcdZ(a, p) == 1'],
  raises=[('ValueError', 'forallT(int, x, implies(x >= 0, powZ(a, x) % p != b % p), powZ(a, x))')],
  ensures=['result >= 0', 'powZ(a, result) % p == b % p'],
  loops={0: L(inv=['val == powZ(a, m * (_i0 + 1)) % p',
                   'forallT(int, y, implies(dom(cache)[y], 1 <= vals(cache)[y] and vals(cache)[y] <= _i0 and y == powZ(a, m * vals(cache)[y]) % p), dom(cache)[y])',
                   'forall(q, 1, _i0 + 1, dom(cache)[powZ(a, m * q) % p])'],
              head=['use pow_mod_add(a, p, m * (_i0 + 1), m)']),
         1: L(inv=['val == ite(_i1 == 0, b, (b * powZ(a, _i1)) % p)', 'x == 1', 'forall(k, 1, _i1, not dom(cache)[(b * powZ(a, k)) % p])'],
              head=['use pow_mod_next(a, b, p, _i1)', 'use dlog_hit(a, b, p, m * vals(cache)[val], k)'],
              exit=['use dlog_none(a, b, p, m)'])},
  )
PRIMEP = ['isprime(p)']
ROOTS = [STRICT, 'forall(i, 0, len(result), 0 <= result[i] and result[i] < p and sqm(result[i], a, p))',
         'forall(y, 0, p, implies(sqm(y, a, p), exists(i, 0, len(result), result[i] == y)), sqm(y, a, p))']
C(Z + 'sqrts_mod_p', 'a:int, p:int -> list[int]', requires=['implies(p >= 2, isprime(p))'], raises=[('ValueError', 'p < 2')], ensures=ROOTS,
  loops={1: L(inv=['tsI(A, D, p, s, _i1, m)'], head=['use ts_step(A, D, p, s, _i1, m)', 'use ts_m(A, D, p, s, _i1, m)'],
              pre=['use odd_part(p, s)', 'use ts_start(a, d, p, s, t)'], exit=['use ts_m(A, D, p, s, s, m)', 'use odd_part(p, s)'])},
  entry=['use prime_odd(p)', 'use sqm_none(a, p)', 'use sqm_zero(a, p)', 'use sqm_p2(a)', 'ghost a0 = a', 'useall y:int {sqm(y, a % p, p)} => sqm_red(y, a, p)', 'use sqm_red(0, a, p)'],
  after={'x': ['use sq34(a, p)', 'use sq58(a, p, x)', 'use ts_end(a, D, p, s, m, t, x)'],
         'solutions': ['assert 0 <= x and x < p and (x * x) % p == a % p', 'use sqm_two(a0, p, x)']},
  exit=['assert exists(i, 0, len(result), result[i] == x) and exists(i, 0, len(result), result[i] == p - x)'])

ROUT = [STRICT, 'forall(i, 0, len(result), 0 <= result[i] and result[i] < p and %s(result[i], n, p))',
        'forall(x, 0, p, implies(%s(x, n, p), exists(i, 0, len(result), result[i] == x)), %s(x, n, p))']
P2 = ['useall x:int {rou(x, n, p)} => rou_def(x, n, p)', 'useall x:int {rom(x, n, p)} => rou_def(x, n, p)', 'use powZ_one_base(n)', 'use powZ_zero_base(n)', 'use prime_odd(p)']
ROUC = '''d >= 1 and forall(i, 0, d, rou(pwm(h, i, p), n, p) and 0 <= pwm(h, i, p) and pwm(h, i, p) < p, pwm(h, i, p)) and
   forall(x, 0, p, implies(rou(x, n, p), exists(i, 0, d, pwm(h, i, p) == x)), rou(x, n, p)) and
   forall2(j, k, 0 <= j and j < d and 0 <= k and k < d and pwm(h, j, p) == pwm(h, k, p), j == k, pwm(h, j, p), pwm(h, k, p))'''
ROMC = '''forall(x, 0, p, implies(rou(x, n, p), rom(mulm(root, x, p), n, p) and 0 <= mulm(root, x, p) and mulm(root, x, p) < p), mulm(root, x, p)) and
   forall(y, 0, p, implies(rom(y, n, p), exists(x, 0, p, rou(x, n, p) and mulm(root, x, p) == y)), rom(y, n, p)) and
   forall2(x, y, 0 <= x and x < p and 0 <= y and y < p and mulm(root, x, p) == mulm(root, y, p), x == y, mulm(root, x, p), mulm(root, y, p))'''
for v, g in (('', 'g:int=None'), ('given', 'g:int')):
    C(Z + 'nth_roots_of_unity_mod_p', 'n:int, p:int, %s -> list[int]' % g, variant=v,
      requires=['isprime(p)', 'n >= 1', 'p < %d' % BOUND] + (['implies(p != 2, proot(g, p))'] if v else []),
      ensures=[x.replace('%s', 'rou') for x in ROUT],
      entry=P2 + ['use gcd_split(n, p)', 'use phi_prime(p)', 'use proot_prime(p)', 'useall i:int {pwm(h, i, p)} => pwm_step(h, i, p)'],
      after={'h': ['name h', 'use rou_all(now_g, n, p, d, h)', 'use rou_all(g, n, p, d, h)', 'useall i:int {pwm(h, i, p)} => pwm_step(h, i, p)', 'assert ' + ROUC]},
      loops={0: L(inv=['len(roots) == _i0', 'val == pwm(h, _i0, p)', 'forall(i, 0, _i0, roots[i] == pwm(h, i, p), roots[i])'],
                  pre=['use pwm_step(h, 0, p)'], head=['use pwm_step(h, _i0, p)'],
                  exit=['assert forall(i, 0, d, roots[i] == pwm(h, i, p), roots[i])', 'assert forall(i, 0, d, roots[i] == pwm(h, i, p), pwm(h, i, p))', 'forget nonlinear'])})
    C(Z + 'nth_roots_of_minus1_mod_p', 'n:int, p:int, %s -> list[int]' % g, variant=v,
      requires=['isprime(p)', 'n >= 1', 'p < %d' % BOUND] + (['implies(p != 2, proot(g, p))'] if v else []),
      ensures=[x.replace('%s', 'rom') for x in ROUT],
      entry=P2 + ['use gcd_split(n, p)', 'use phi_prime(p)', 'use proot_prime(p)', 'use rom_none(n, p, gcdZ(n, p - 1))'],
      uses=[],
      after={'root': ['name root', 'use rom_all(g, n, p, d, root)', 'assert ' + ROMC],
             'all_roots': ['useall i:int {all_roots[i]} => mulm_def(root, roots_of_unity[i], p)',
                           'assert len(all_roots) == len(roots_of_unity) and forall(i, 0, len(all_roots), all_roots[i] == mulm(root, roots_of_unity[i], p), all_roots[i])',
                           'assert forall(i, 0, len(all_roots), all_roots[i] == mulm(root, roots_of_unity[i], p), roots_of_unity[i])', 'forget nonlinear']})
FIBC = '''forall(s, 0, p, implies(sqm(s, 5, p), fibr(fibq(s, inverse, p), p) and 0 <= fibq(s, inverse, p) and fibq(s, inverse, p) < p), fibq(s, inverse, p)) and
   forall(x, 0, p, implies(fibr(x, p), exists(s, 0, p, sqm(s, 5, p) and fibq(s, inverse, p) == x)), fibr(x, p)) and
   forall2(s, t, 0 <= s and s < p and 0 <= t and t < p and fibq(s, inverse, p) == fibq(t, inverse, p), s == t, fibq(s, inverse, p), fibq(t, inverse, p))'''
C(Z + 'fibonacci_primitive_roots', 'p:int -> list[int]', requires=['implies(p >= 2, isprime(p))', 'p < %d' % BOUND],
  ensures=[STRICT, 'forall(i, 0, len(result), 0 <= result[i] and result[i] < p and fibr(result[i], p) and proot(result[i], p))',
           'implies(p >= 3, forall(x, 0, p, implies(fibr(x, p) and proot(x, p), exists(i, 0, len(result), result[i] == x)), fibr(x, p)))'],
  entry=['use gcd_two(p)', 'use fibr_five()', 'use fibr_none(p)', 'use phi_prime(p)', 'use prime_odd(p)', 'useall q:int {isprime(q)} => prime_ge2(q)'],
  after={'inverse': ['assert (inverse * 2) % p == 1', 'name inverse', 'use fibr_all(p, inverse)', 'assert ' + FIBC],
         'quad_roots': ['useall i:int {quad_roots[i]} => fibq_def(sqrts[i], inverse, p)',
                        'assert len(quad_roots) == len(sqrts) and forall(i, 0, len(quad_roots), quad_roots[i] == fibq(sqrts[i], inverse, p), quad_roots[i])',
                        'assert forall(i, 0, len(quad_roots), quad_roots[i] == fibq(sqrts[i], inverse, p), sqrts[i])',
                        'assert forall(i, 0, len(quad_roots), fibr(quad_roots[i], p) and 0 <= quad_roots[i] and quad_roots[i] < p, quad_roots[i])',
                        'assert forall(x, 0, p, implies(fibr(x, p), exists(i, 0, len(quad_roots), quad_roots[i] == x)), fibr(x, p))',
                        'assert forall2(i, j, 0 <= i and i < j and j < len(quad_roots), quad_roots[i] != quad_roots[j], quad_roots[i], quad_roots[j])'],
         'phi_divisors': ['useall i:int {phi_divisors[i]} => dvd_le(p - 1, phi_divisors[i])']},
  loops={0: L(inv=['forall(i, 0, len(roots), exists(j, 0, _i0, quad_roots[j] == roots[i]) and proot(roots[i], p), roots[i])',
                   'forall2(i, k, 0 <= i and i < k and k < len(roots), roots[i] != roots[k], roots[i], roots[k])',
                   'forall(j, 0, _i0, implies(proot(quad_roots[j], p), exists(i, 0, len(roots), roots[i] == quad_roots[j])), quad_roots[j])'],
              head=['ghost R0 = roots'], end=['assert forall(i, 0, len(R0), roots[i] == R0[i], R0[i])', 'witness w:int | implies(proot(quad_roots[_i0 - 1], p), 0 <= w and w < len(roots) and roots[w] == quad_roots[_i0 - 1])'], exit=['forget nonlinear'])})
