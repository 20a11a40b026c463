from pyvc.contract import C, Loop as L
from pyvc.spec import macro
F = 'number_theory.arithmetic_functions.functions:'
K = 'number_theory.classification:'
SV = 'number_theory.primes.sieves:'
PI = 'list[tuple[int,int]]'
BOUND = 341550071728321
# a prime factorization as a list of pairs (sorted or not)
PF = ['pfok(arr(n), len(n))']
# contracts: the int form for 0 < n < BOUND (every base reported by factor is then proved prime), the list form for every prime factorization
C(F + '_validate_input', 'n:int -> ' + PI,
  requires=['n < %d' % BOUND],
  raises=[('ValueError', 'n <= 0')],
  ensures=['implies(n == 1, len(result) == 1 and result[0] == (1, 1))',
           'implies(n >= 2, pfok(arr(result), len(result)) and prodPE(arr(result), len(result)) == n and len(result) >= 1 and result[0][0] >= 2)'],
  exit=['use pfok_intro(arr(result), len(result))', 'use prodPE_zero(arr(result))',
        'assert n <= 1 or forall(i, 0, len(result), n % result[i][0] == 0)', 'useall i:int {result[i]} => prodPE_dvd(arr(result), len(result), i)',
        'useall i:int {result[i]} => dvd_le(n, result[i][0])'][:2] + [
        'useall i:int {result[i]} => prodPE_dvd(arr(result), len(result), i)', 'useall i:int {result[i]} => dvd_le(n, result[i][0])',
        'use pfok_intro(arr(result), len(result))'])
C(F + '_validate_input', 'n:%s -> %s' % (PI, PI), variant='fac', types={'alias': True},
  requires=PF,
  ensures=['implies(len(n) == 0, len(result) == 1 and result[0] == (1, 1))',
           'implies(len(n) >= 1, pfok(arr(result), len(result)) and len(result) == len(n) and result[0][0] >= 2 and '
           'prodPE(arr(result), len(result)) == prodPE(arr(n), len(n)))'],
  entry=['use pfok_at(arr(n), len(n), 0)'],
  exit=['assert len(n) == 0 or n[0][0] >= 2'])


IDX = 'useall i:int {factorization[i]} => pfok_at(arr(factorization), len(factorization), i)'


def both(f, ret, val, loops, entry=(), exit=(), extra='', **kw):
    for v, ty in (('', 'int'), ('fac', PI)):
        N = 'n' if not v else 'prodPE(arr(n), len(n))'
        C(F + f if ':' not in f else f, 'n:%s%s -> %s' % (ty, extra, ret), variant=v,
          requires=(['n < %d' % BOUND] if not v else PF) + list(kw.get('requires', ())),
          raises=([('ValueError', kw.get('neg', 'n <= 0'))] if not v else list(kw.get('facraises', ()))), ensures=[x.replace('$N', N) for x in val], loops=loops,
          entry=['use arithf_one()', 'use prodPE_zero(arr(n))', 'use pfok_at(arr(n), len(n), 0)'] + list(entry) if v else ['use arithf_one()'] + list(entry),
          exit=list(kw.get('facexit') or exit) if v else list(exit), **{k: x for k, x in kw.items() if k not in ('requires', 'neg', 'facraises', 'facexit')})


FA = 'arr(factorization), '
both('euler_phi', 'int', ['result == phi($N)'],
     {0: L(inv=['prod == phi(prodPE(%s_i0))' % FA], head=['use phi_step(%slen(factorization), _i0)' % FA, 'use pfok_at(%slen(factorization), _i0)' % FA], pre=['use prodPE_zero(arr(factorization))'])})
both('divisor_tau', 'int', ['result == tau($N)'],
     {0: L(inv=['prod == tau(prodPE(%s_i0))' % FA], head=['use tau_step(%slen(factorization), _i0)' % FA], pre=['use prodPE_zero(arr(factorization))'])})
both('divisor_sigma', 'int', ['result == sig(k, $N)'],
     {0: L(inv=['prod == sig(k, prodPE(%s_i0))' % FA], head=['use sig_step(%slen(factorization), _i0, k)' % FA, 'use pfok_at(%slen(factorization), _i0)' % FA],
           pre=['use prodPE_zero(arr(factorization))'])},
     entry=[], exit=['use sig_zero(n)'], facexit=['use sig_zero(prodPE(arr(n), len(n)))'], extra=', k:int', neg='k < 0 or n <= 0', facraises=[('ValueError', 'k < 0')])
SQA = ['use sqfree_all(arr(factorization), len(factorization))']
both(K + 'is_squarefree', 'bool', ['result == sqfree($N)'], {}, exit=['use sqfree_all(arr(factorization), len(factorization))'])
both('moebius_mu', 'int', ['result == mu($N)'], {}, exit=['use sqfree_all(arr(factorization), len(factorization))'])
TERM = 'ite(n_factorization[i][0] != 2, powZ(n_factorization[i][0], n_factorization[i][1] - 1) * (n_factorization[i][0] - 1), ' \
       'ite(n_factorization[i][1] <= 2, powZ(2, n_factorization[i][1] - 1), powZ(2, n_factorization[i][1] - 2)))'
both('carmichael_lambda', 'int', ['result == carml($N)'],
     {0: L(inv=['len(terms) == _i0', 'forall(i, 0, _i0, terms[i] == %s)' % TERM],
           head=['use pfok_at(arr(n_factorization), len(n_factorization), _i0)'],
           pre=['useall i:int {n_factorization[i]} => prodPE_dvd(arr(n_factorization), len(n_factorization), i)', 'useall i:int {n_factorization[i]} => dvd_le(prodPE(arr(n_factorization), len(n_factorization)), n_factorization[i][0])',
                   'use pfok_intro(arr(n_factorization), len(n_factorization))', 'use prodPE_zero(arr(n_factorization))'])},
     exit=['use carml_list(arr(n_factorization), len(n_factorization), arr(terms))'])
C(F + 'factorial', 'n:int -> int',
  raises=[('ValueError', 'n < 0')], ensures=['result == factZ(n)'],
  loops={0: L(inv=['prod * powZ(oddf(n // powZ(2, k - 1)), k - 1) == ofp(n, k - 1)'],
              pre=['use bitlen_shift(n)', 'use ofp_zero(n)', 'use powZ_zero(oddf(n // powZ(2, 0)))'],
              exit=['use fact_done(n, bitlen(n) - 1)', 'use powZ_one_base(bitlen(n) - 1)'],
              head=['ghost prod0 = prod', 'ghost k0 = k'],
              end=['use ofp_step(n, k0, prod0, partial)']),
         1: L(inv=['lower % 2 == 1', 'partial * oddf(n // powZ(2, k)) == oddf(j - 1)'],
              head=['use oddf_step(j)'],
              pre=['use oddf_step(lower)', 'use oddf_step(lower - 2)'], exit=['use oddf_step(upper)', 'use oddf_step(upper - 1)'])},
  exit=['use fact_small()'])
C(SV + 'primes_first_n', 'n:int -> list[int]', requires=['n < 78498'],
  ensures=['len(result) == max(n, 0)', 'forall(j, 0, len(result), result[j] == nthp(j))'])
C(F + 'primorial', 'n:int -> int', requires=['n < 78498'], raises=[('ValueError', 'n <= 0')], ensures=['result == primorialZ(n)'],
  loops={0: L(inv=['prod == primorialZ(_i0)'], head=['use primorial_succ(_i0)'], pre=['use primorial_zero()'])})
