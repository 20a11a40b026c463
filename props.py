"""Registry of properties: statement, contracts proved, executable contracts run, and what stays bounded.

gen.py writes properties.jsonl and MANIFEST.json from this file.
"""
PROPS = {}


def P(id, title, statement, over, why, files, mech, contracts, targets, bounded=(), note='', **kw):
    PROPS[id] = dict(title=title, statement=' '.join(statement.split()), over=over, why=why, files=files, mech=mech,
                     contracts=list(contracts), targets=list(targets), bounded=list(bounded), note=note, **kw)


CORE = 'rosemary/number_theory/core.py'
P('C01', 'gcd, lcm and Bezout coefficients are exact for all integers',
  '''For all integers of any sign and size the greatest common divisor, the least common multiple (of two integers or of a
  non-empty list) are the non-negative mathematical ones, and the extended gcd returns coefficients whose combination of the
  inputs equals that gcd.''',
  'all pairs and non-empty lists of integers (no size bound)', 'tests sample a handful of small positive pairs',
  [CORE], [('gcd', CORE), ('ext_gcd', CORE), ('lcm_list', CORE)],
  ['core:gcd', 'core:ext_gcd', 'core:lcm', 'core:gcd_list', 'core:lcm_list'],
  ['core:gcd', 'core:ext_gcd', 'core:lcm', 'core:gcd_list', 'core:lcm_list'])
P('C02', 'Modular powers and inverses satisfy their defining congruences',
  '''For every base a >= 0, exponent k >= 0 and modulus m >= 1 the modular power is a^k reduced to [0, m); the modular inverse of a
  modulo m >= 2 is the x in [0, m) with a*x = 1 (mod m). Arguments outside these domains, or not invertible ones, raise ValueError
  and nothing else does.''',
  'all integer bases, exponents and moduli', 'tests check a few values; the congruence must survive every carry of the square-and-multiply loop',
  [CORE], [('power_mod', CORE), ('inverse_mod', CORE)],
  ['core:power_mod', 'core:inverse_mod'], ['core:power_mod', 'core:inverse_mod'])
P('C03', 'Integer square roots, n-th roots, logarithms, valuations, bit counts exact',
  '''Integer square and n-th roots are the floor of the real root, integer logarithms the floor of the real logarithm, for integers of any
  size, and the valuation of n at p is the exact exponent of p in n; the bit count is the number of one bits of |n|.
  Out-of-domain arguments raise ValueError.''',
  'all integers, in particular perfect powers and their neighbours beyond floating point range',
  'tests cover small values, where floating point shortcuts happen to be exact',
  [CORE], [('integer_sqrt', CORE), ('integer_nth_root', CORE), ('integer_log', CORE), ('valuation', CORE), ('bit_count', CORE)],
  ['core:integer_sqrt', 'core:integer_nth_root', 'core:integer_log', 'core:valuation', 'core:bit_count'],
  ['core:integer_sqrt', 'core:integer_nth_root', 'core:integer_log', 'core:valuation', 'core:bit_count'])
P('C04', 'Chinese remaindering solves every system with coprime moduli',
  '''For pairwise coprime positive moduli the combined residue satisfies every congruence of the system (and lies in [0, product) when there
  are several); moduli that are not pairwise coprime raise ValueError. Preconditioned remaindering gives the canonical residue for any
  residues with the preconditioned moduli.''',
  'all non-empty systems of congruences', 'tests use one or two systems; the invariant must hold for any number of congruences',
  [CORE], [('chinese', CORE), ('chinese_preconditioned', CORE), ('crt_preconditioning_data', CORE)],
  ['core:chinese', 'core:crt_preconditioning_data', 'core:chinese_preconditioned'], ['core:chinese', 'core:chinese_preconditioned'])
P('C05', 'The Jacobi symbol agrees with its definition',
  '''For every integer a and odd positive m the computed symbol equals the Jacobi symbol (the product of Legendre symbols over the prime
  factors of m), and even m raises ValueError.''',
  'all a and all odd m > 0', 'tests check four values; the reciprocity sign bookkeeping has 64 residue cases',
  [CORE], [('jacobi_symbol', CORE)], ['core:jacobi_symbol'], ['core:jacobi_symbol'])

PRI = 'rosemary/number_theory/primes/primality.py'
FAL = 'rosemary/number_theory/factorization/algorithms.py'
P('C06', 'Primality decisions are right: is_prime exact, no test ever rejects a prime',
  '''is_prime(n) holds exactly for the primes, for every integer n; trial division returns the least prime factor of every n >= 2 (with a
  bound: the least prime factor not exceeding it, else n); the Miller-Rabin (random, given and deterministic bases), Solovay-Strassen and
  is_probable_prime tests never reject a prime (odd where required, base not a multiple of it), reject what fails the strong / Euler test
  to the base used, and is_probable_prime and miller_rabin_deterministic are exact below 341550071728321; the Lucas-Lehmer test is exact for
  exponents >= 3. next_prime returns the least prime above n, next_probable_prime never skips a prime, and random_prime(a, b) a prime in
  [a, b].''',
  'all integers n and all bases, including every random choice of base',
  'tests use a few small n and fixed bases; a wrong loop bound in the squaring loop or a wrong wheel offset only shows on special primes',
  [PRI, FAL], [('is_prime', PRI), ('miller_rabin', PRI), ('solovay_strassen', PRI), ('next_prime', PRI), ('trial_division', FAL)],
  ['primes.primality:is_prime', 'factorization.algorithms:trial_division', 'factorization.algorithms:trial_division#bound',
   'primes.primality:miller_rabin', 'primes.primality:miller_rabin#a', 'primes.primality:miller_rabin_deterministic',
   'primes.primality:solovay_strassen', 'primes.primality:solovay_strassen#a', 'primes.primality:is_probable_prime',
   'primes.primality:lucas_lehmer', 'primes.primality:next_prime', 'primes.primality:next_probable_prime', 'primes.primality:random_prime'],
  ['primes:is_prime', 'primes:miller_rabin_base', 'primes:miller_rabin', 'primes:solovay_strassen', 'primes:solovay_strassen_base',
   'primes:is_probable_prime', 'primes:miller_rabin_deterministic', 'primes:lucas_lehmer', 'primes:next_prime',
   'primes:next_probable_prime', 'primes:random_prime', 'primes:trial_division', 'primes:trial_division_bound'],
  ['primes:miller_rabin_deterministic', 'primes:solovay_strassen_base'],
  note='Bounded only: that the Solovay-Strassen test rejects composites failing Euler and the exactness of miller_rabin_deterministic. '
       'Exactness of is_probable_prime below 341550071728321 is proved from one unproved lemma, the published strong pseudoprime '
       'computation. Proved outright: no prime is rejected, exactness of is_prime, trial_division, lucas_lehmer, next_prime.')
FFA = 'rosemary/number_theory/factorization/factorization.py'
P('C07', 'factor(n) is the prime factorization; factoring methods return true divisors',
  '''For every nonzero integer n, factor(n) lists distinct bases in increasing order with positive exponents, their product is n, the sign is
  the entry (-1, 1), and every other base is prime (for bases below 341550071728321); n = 0 raises ValueError; the options skipping trial
  division or searching for perfect powers do not change the result, and factor_back inverts it. The factoring methods return divisors of n:
  Pollard rho (both variants) a divisor > 1, p-1 a divisor, Fermat and Lehman a proper divisor of every composite in their domain, the
  continued fraction method a proper divisor or None.''',
  'all nonzero integers, all random choices of the methods', 'tests factor a few numbers; correctness must not depend on the random choices or on repeated factors',
  [FFA, FAL], [('factor', FFA), ('factor_back', FFA), ('pollard_rho_brent', FAL), ('fermat', FAL), ('lehman', FAL), ('cfrac', FAL)],
  ['factorization.factorization:factor', 'factorization.factorization:factor_back', 'factorization.algorithms:pollard_rho_brent',
   'factorization.algorithms:pollard_rho', 'factorization.algorithms:pollard_rho#limited', 'factorization.algorithms:fermat',
   'factorization.algorithms:lehman'],
  ['factor:factor', 'factor:factor_options', 'factor:factor_back', 'factor:factor_back_type', 'factor:pollard_rho_brent',
   'factor:pollard_rho', 'factor:pollard_rho_limited', 'factor:fermat', 'factor:lehman', 'factor:pollard_p_minus_1', 'factor:cfrac',
   'factor:smooth_factor', 'factor:z2_kernel', 'factor:cfrac_pairs'],
  ['factor:factor_options', 'factor:pollard_p_minus_1', 'factor:cfrac', 'factor:smooth_factor', 'factor:z2_kernel', 'factor:cfrac_pairs',
   'factor:lehman'],
  note='Termination of the random searches is not proved (partial correctness). That Lehman always splits composites, and the cfrac '
       'helpers, are bounded.')
P('C08', 'Divisor lists are complete, exact and ordered',
  '''For every nonzero n, or its factorization (sign ignored), divisors gives all positive divisors in increasing order, xdivisors each exactly
  once, prime_divisors exactly the primes dividing n in order, divisor_pairs the pairs (d, n/d) with d <= n/d, unitary_divisors the
  divisors d coprime to n/d; factored_range(a, b) yields every n in [a, b) once, in order, with its complete factorization.''',
  'all nonzero integers n and all ranges', 'tests list a few n; the segmented sieve must be right at every segment boundary',
  [FFA], [('divisors', FFA), ('xdivisors', FFA), ('prime_divisors', FFA), ('divisor_pairs', FFA), ('unitary_divisors', FFA), ('factored_range', FFA)],
  ['factorization.factorization:prime_divisors'],
  ['factor:divisors', 'factor:xdivisors', 'factor:prime_divisors', 'factor:divisor_pairs', 'factor:unitary_divisors',
   'factor:divisor_functions_of_factorization', 'factor:factored_range'],
  ['factor:divisors', 'factor:xdivisors', 'factor:divisor_pairs', 'factor:unitary_divisors', 'factor:divisor_functions_of_factorization',
   'factor:factored_range'],
  note='Only prime_divisors (and factor, which all of them call) is proved; itertools.product/combinations are outside the verifier.')

SIE = 'rosemary/number_theory/primes/sieves.py'
P('C09', 'Every prime sieve lists exactly the primes of its range, in order',
  '''For every integer n, primes(n), eratosthenes1, eratosthenes2, luo, chartres and pritchard return exactly the primes p <= n in increasing
  order (empty for n < 2), primes_first_n(n) the n smallest primes, and prime_range(a, b) yields exactly the primes in the half-open
  interval [a, b) in order (prime_range(b) those below b), whatever the size of the ends.''',
  'all integers n and all intervals', 'tests compare a few limits; the mod 6 wheel rounding and the crossing-off offsets must be right for every residue of n and every square of a prime',
  [SIE], [(f, SIE) for f in ('primes', 'primes_first_n', 'eratosthenes1', 'eratosthenes2', 'luo', 'chartres', 'pritchard', 'prime_range')],
  ['primes.sieves:primes', 'primes.sieves:eratosthenes1', 'primes.sieves:eratosthenes2', 'primes.sieves:luo',
   'primes.sieves:primes_first_n'],
  ['sieves:primes', 'sieves:eratosthenes1', 'sieves:eratosthenes2', 'sieves:luo', 'sieves:chartres', 'sieves:pritchard',
   'sieves:primes_first_n', 'sieves:prime_range', 'sieves:prime_range_large', 'sieves:prime_range_from_low'],
  ['sieves:chartres', 'sieves:pritchard', 'sieves:prime_range', 'sieves:prime_range_large', 'sieves:prime_range_from_low'],
  note='primes, eratosthenes1, eratosthenes2 and luo are proved, primes_first_n(n) for n < 78498; chartres (heap), pritchard, larger primes_first_n (floating point bound) and the generator prime_range are bounded.')

ARF = 'rosemary/number_theory/arithmetic_functions/functions.py'
CLS = 'rosemary/number_theory/classification.py'
P('C10', 'Arithmetic functions of n agree with their defining formulas',
  '''For every n >= 1, given as an integer or as its factorization (primes in any order, empty for 1): euler_phi(n) is the number of units modulo
  n, divisor_tau(n) the number of divisors, divisor_sigma(n, k) the sum of the k-th powers of the divisors (k >= 0), moebius_mu(n) the Moebius
  function, carmichael_lambda(n) the exponent of the group of units, is_squarefree(n) holds exactly when no square > 1 divides n. factorial(n)
  is n! (n >= 0) and primorial(n) the product of the first n primes. n <= 0 (n < 0 for factorial) and k < 0 raise ValueError.''',
  'all positive integers and all factorizations (beyond any size that could be factored)',
  'tests sample a few n; multiplicativity over every prime power, the power of 2 case of lambda and every length of the factorial splitting must be right',
  [ARF, CLS], [(f, ARF) for f in ('euler_phi', 'divisor_tau', 'divisor_sigma', 'moebius_mu', 'carmichael_lambda', 'factorial', 'primorial')] + [('is_squarefree', CLS)],
  ['arithmetic_functions.functions:' + f + v for f in ('_validate_input', 'euler_phi', 'divisor_tau', 'divisor_sigma', 'moebius_mu', 'carmichael_lambda')
   for v in ('', '#fac')] + ['classification:is_squarefree', 'classification:is_squarefree#fac', 'arithmetic_functions.functions:factorial',
                             'arithmetic_functions.functions:primorial'],
  ['arith:euler_phi', 'arith:euler_phi_of_factorization', 'arith:moebius_mu', 'arith:moebius_mu_of_factorization', 'arith:divisor_tau',
   'arith:divisor_tau_of_factorization', 'arith:divisor_sigma', 'arith:divisor_sigma_of_factorization', 'arith:divisor_sigma_k',
   'arith:divisor_sigma_k_of_factorization', 'arith:carmichael_lambda', 'arith:carmichael_lambda_of_factorization', 'arith:is_squarefree', 'arith:is_squarefree_of_factorization',
   'arith:factorial', 'arith:primorial'],
  note='Integer arguments are proved for n < 341550071728321 (where the bases reported by factor are proved prime); factorizations without any '
       'bound. primorial(n) is proved for n < 78498, the size of the prime table.')

AR = 'rosemary/number_theory/arithmetic_functions/'
P('C11', 'Tables, partial sums and preimages of arithmetic functions are exact',
  '''For every n >= 1: euler_phi_list, moebius_list, tau_list and sigma_list (any k >= 0) hold at each index 1..n the value of the function there
  (and 0 at index 0); moebius_range(a, b) yields (m, moebius(m)) for each m of [a, b) once, in order; euler_phi_sum, euler_phi_weighted_sum,
  moebius_sum and sigma_sum(n) are the sums of phi(k), k*phi(k), moebius(k), sigma(k) over k = 1..n. euler_phi_inverse(n) (n an integer or a
  factorization) and inverse_phi(n) list exactly the k with phi(k) = n, in increasing order. n <= 0 raises ValueError.''',
  'all limits n, all ranges, all n for the preimages', 'tests compare a few limits; every prime power, multiple and segment boundary must be updated exactly once',
  [AR + f for f in ('sieves.py', 'sums.py', 'inverse_functions.py')],
  [(f, AR + 'sieves.py') for f in ('euler_phi_list', 'moebius_list', 'sigma_list', 'tau_list', 'moebius_range')] +
  [(f, AR + 'sums.py') for f in ('euler_phi_sum', 'euler_phi_weighted_sum', 'moebius_sum', 'sigma_sum')] +
  [('euler_phi_inverse', AR + 'inverse_functions.py'), ('inverse_phi', AR + 'inverse_functions.py')],
  ['arithmetic_functions.sieves:' + f for f in ('euler_phi_list', 'moebius_list', 'sigma_list', 'tau_list')] + ['arithmetic_functions.sums:sigma_sum'],
  ['arith:' + f for f in ('euler_phi_list', 'moebius_list', 'tau_list', 'sigma_list', 'sigma_list_k', 'moebius_range', 'euler_phi_sum',
                          'euler_phi_weighted_sum', 'moebius_sum', 'sigma_sum', 'sigma_sum_large', 'euler_phi_inverse',
                          'euler_phi_inverse_of_factorization', 'inverse_phi')],
  ['arith:moebius_range', 'arith:euler_phi_sum', 'arith:euler_phi_weighted_sum', 'arith:moebius_sum', 'arith:euler_phi_inverse',
   'arith:euler_phi_inverse_of_factorization', 'arith:inverse_phi'],
  note='The four tables (n up to 2^50) and sigma_sum are proved. The generator moebius_range, the sums built on memoized nested recursion and the '
       'preimages of phi are bounded.')

ZN = 'rosemary/number_theory/zn_arithmetic.py'
ZV = 'zn_arithmetic:'
P('C12', 'Primitive roots, orders, roots of unity and discrete logarithms are exact',
  '''is_primitive_root(a, n) (n >= 2, phi and its prime divisors given or not) is true exactly when a generates the units modulo n;
  primitive_root(n) is the least such a in [1, n) and raises ValueError when none exists; fibonacci_primitive_roots(p) lists exactly the
  primitive roots x of the odd prime p with x^2 = x + 1. multiplicative_order(a, n) is the least k >= 1 with a^k = 1 (mod n), ValueError
  when gcd(a, n) > 1. nth_roots_of_unity_mod_p and nth_roots_of_minus1_mod_p (n >= 1, p prime) list exactly the x in [0, p) with x^n = 1
  or -1, in increasing order; discrete_log(a, b, p) is some x >= 0 with a^x = b (mod p), ValueError when there is none.''',
  'all bases and moduli below 341550071728321', 'tests sample a few small moduli; the answer depends on the group structure of each modulus',
  [ZN], [(f, ZN) for f in ('is_primitive_root', 'primitive_root', 'fibonacci_primitive_roots', 'multiplicative_order', 'nth_roots_of_unity_mod_p',
                           'nth_roots_of_minus1_mod_p', 'discrete_log')],
  [ZV + f for f in ('is_primitive_root', 'is_primitive_root#given', 'primitive_root', 'primitive_root#phi', 'fibonacci_primitive_roots',
                    'multiplicative_order', 'multiplicative_order#given', 'nth_roots_of_unity_mod_p', 'nth_roots_of_unity_mod_p#given',
                    'nth_roots_of_minus1_mod_p', 'nth_roots_of_minus1_mod_p#given', 'discrete_log')],
  ['zn:' + f for f in ('is_primitive_root', 'is_primitive_root_given_phi', 'primitive_root', 'primitive_root_given', 'fibonacci_primitive_roots',
                       'multiplicative_order', 'multiplicative_order_given', 'nth_roots_of_unity_mod_p', 'nth_roots_of_minus1_mod_p',
                       'roots_of_unity_given_root', 'discrete_log')],
  note='All proved for moduli below 341550071728321 (discrete_log for bases coprime to p). multiplicative_order and primitive_root use the assumed contract of divisors where they call it.')
P('C13', 'Square roots and congruences: all solutions, no others',
  '''sqrts_mod_p(a, p) (p prime) lists exactly the x in [0, p) with x^2 = a (mod p), and sqrts_mod_n(a, n) exactly those in [0, n) modulo n for
  every n >= 1 (its factorization given or not), in increasing order; linear_congruence(a, b, n) lists exactly the x in [0, n) with
  a*x = b (mod n), and quadratic_congruence(coefficients, n) exactly the x in [0, n) with a*x^2 + b*x + c = 0 (mod n), n >= 2, in increasing
  order. An empty list means no solution; sqrts_mod_p with p < 2 and linear_congruence
  with n < 2 raise ValueError.''',
  'all integers and all moduli', 'tests sample small moduli; every residue class of p modulo 8, power of 2 and lifting step through prime powers must be right',
  [ZN], [(f, ZN) for f in ('sqrts_mod_p', 'sqrts_mod_n', 'linear_congruence', 'quadratic_congruence')],
  [ZV + 'sqrts_mod_p', ZV + 'linear_congruence'],
  ['zn:' + f for f in ('sqrts_mod_p', 'sqrts_mod_n', 'sqrts_mod_n_given', 'sqrts_mod_n_big', 'linear_congruence', 'quadratic_congruence')],
  ['zn:' + f for f in ('sqrts_mod_n', 'sqrts_mod_n_given', 'sqrts_mod_n_big', 'quadratic_congruence')],
  note='sqrts_mod_p (all primes, all random choices) and linear_congruence are proved; the lifting to prime powers and composite moduli is bounded.')

PCT = 'rosemary/number_theory/primes/prime_counting.py'
PCV = 'primes.prime_counting:'
P('C14', 'Every prime counting and prime summing method is exact',
  '''For every integer n, legendre, meissel, lehmer, lmo and lmo_bit all return the number of primes <= n (0 for n < 2). For n >= 1, prime_sum(n)
  and prime_sum2(n) are the sum of the primes <= n; prime_count(n) maps every value n // k (k = 1..n) to the number of primes not above it, and
  every other key it holds likewise; pi_table(n) is the list of primes <= n with the table of their number up to each k = 0..n.''',
  'all n', 'tests compare small or round n; the recursions change shape at squares, cubes and fourth powers of primes and at the end of the prime table',
  [PCT, 'rosemary/data_structures/bit_sieve.py'], [(f, PCT) for f in ('legendre', 'meissel', 'lehmer', 'lmo', 'lmo_bit', 'prime_sum', 'prime_sum2', 'prime_count', 'pi_table')],
  [PCV + 'prime_sum', PCV + 'prime_count', PCV + 'pi_table'],
  ['pc:' + f for f in ('legendre', 'meissel', 'meissel_large', 'lehmer', 'lehmer_large', 'lmo', 'lmo_bit', 'prime_sum', 'prime_sum2', 'prime_count', 'pi_table')],
  ['pc:' + f for f in ('legendre', 'meissel', 'meissel_large', 'lehmer', 'lehmer_large', 'lmo', 'lmo_bit', 'prime_sum2')],
  note='prime_sum, prime_count (the Lucy-Hedgehog recurrence, every n >= 1) and pi_table are proved; the combinatorial methods, built on memoized nested recursion, are bounded.')

DS = 'rosemary/data_structures/'
DUV, DBV = 'data_structures.unionfind:', 'data_structures.bit_sieve:'
P('C15', 'Disjoint sets: find and union keep exactly the right partition',
  '''After any sequence of operations on UnionFind(elements) or NamedUnionFind(elements) two elements have the same find if and only if a chain of
  unions joined their sets, and find terminates. In UnionFind the name is an element of the set, union(x, y) takes names (results of find), and
  the rank of every node bounds the height of the tree below it; in NamedUnionFind union(u, v, w) merges the two different sets named u and v
  into one named w, every other set keeps its name, and find returns the name.''',
  'all element collections and all operation histories', 'tests run one short history; path compression and the choice of the root depend on the whole history',
  [DS + 'unionfind.py'], [(f, DS + 'unionfind.py') for f in ('UnionFind.find', 'UnionFind.union', 'NamedUnionFind.find', 'NamedUnionFind.union')],
  [DUV + c + '.' + m for c in ('UnionFind', 'NamedUnionFind') for m in ('__init__', 'find', 'union')],
  ['ds:union_find', 'ds:union_find_ranks', 'ds:union_find_ranks_uncompressed', 'ds:named_union_find'], [],
  note='All proved by an inductive object invariant (elements modelled as integers), histories included: every operation preserves it.')
P('C16', 'Partial sum sieves and priority queues match their models',
  '''BITSieve(n) and BITSieveArray(n) start with 1..n unmarked; after any calls of mark_multiples(p), p >= 1, partial_sum(m) (0 <= m <= n) is the
  number of k <= m divisible by no p marked so far, and entries gives the 0/1 indicator. A LeftistHeap built from any collection and changed
  by insert, delete_min, merge and iteration always yields a least element (delete_min of an empty heap is None), keeps heap order and the
  leftist shape, and len is its size. PairingHeap: delete_min removes and returns a node of least key (None when empty), after any insert,
  insert_values, decrease_key; list_elements are exactly the (key, value) pairs held.''',
  'all sizes and operation histories', 'tests run one history each; the linked structure depends on the whole history',
  [DS + 'bit_sieve.py', DS + 'heaps.py'], [(c, DS + 'bit_sieve.py') for c in ('BITSieve', 'BITSieveArray')] + [(c, DS + 'heaps.py') for c in ('LeftistHeap', '_leftist_heap_merge', 'PairingHeap', '_link_nodes', '_combine_siblings')],
  [DBV + 'BITSieveArray.' + m for m in ('__init__', 'mark_multiples', 'partial_sum', 'entries')] + [DBV + 'BITSieve.' + m for m in ('__init__', 'mark_multiples', 'partial_sum', 'entries', 'update')],
  ['ds:bit_sieve', 'ds:bit_sieve_array', 'ds:leftist_heap', 'ds:pairing_heap'], ['ds:leftist_heap', 'ds:pairing_heap'],
  note='Both sieves are proved for every n and every history. The heaps are linked object graphs outside the reach of the verifier: bounded operation sequences against a model.')

CLT = 'rosemary/number_theory/classification.py'
CFT = 'rosemary/number_theory/continued_fractions.py'
PET = 'rosemary/number_theory/diophantine_equations/pell.py'
KV = 'classification:'
P('C17', 'Squares, perfect powers and factorials are recognised exactly',
  '''is_square(n) is the non-negative root r with r*r == n, and False when n is no square (every integer n; also for the factorization of an n >= 1).
  is_power(n), n >= 1, is (b, e) with b**e == n, e >= 2 and b itself no perfect power, and False when n is no perfect power or 1; is_power(n, k) is
  (r, k) with r**k == n or False when no integer is a k-th root; the same from the factorization of n. is_power2(n) is (r, k) with the least k >= 2
  with r**k == n, or False. is_factorial(n) is whether n is a factorial, is_squarefree(n) (n >= 1) whether no square > 1 divides n.''',
  'all integers (factorizations: all prime factorizations)', 'the residue filter, the root extraction and the nested powers are wrong only for rare values; tests hold small ones',
  [CLT, 'rosemary/number_theory/core.py'], [(f, CLT) for f in ('is_square', '_IsSquare.is_square', 'is_power', 'is_power2', 'is_factorial', 'is_squarefree')],
  [KV + f for f in ('is_squarefree', 'is_squarefree#fac', '_IsSquare.is_square', 'is_square', 'is_square#fac', 'is_power', 'is_power#k', 'is_power#fac', 'is_power#fack', 'is_power2', 'is_factorial')],
  ['cls:' + f for f in ('is_square', 'is_square_factorization', 'is_power', 'is_power_k', 'is_power_factorization', 'is_power_factorization_k', 'is_power2', 'is_squarefree', 'is_squarefree_factorization', 'is_factorial')], [],
  note='All proved, without a bound on n except is_squarefree of an int (n < 341550071728321, where factor is proved).')
QIV = 'continued_fractions:QuadraticIrrational.'
P('C18', 'Continued fractions of quadratic irrationals and Pell equations are exact',
  '''For d >= 1 not a square, QuadraticIrrational(d) holds the continued fraction of sqrt(d): pre_period, fundamental_period and partial_quotients() are
  the partial quotients floor(x_i) of x_0 = sqrt(d), x_(i+1) = 1/(x_i - floor(x_i)), period_length is the first i >= 1 with quotient 2*floor(sqrt(d))
  and the quotients repeat from there; convergents() yields its convergents (p_i, q_i) in order. QuadraticIrrational(d, p, q) (q != 0) does the same
  for (p + sqrt(d))/q. A square d is a ValueError. pell_fundamental_solution(D, n), n = 1 or -1, is the least solution of x*x - D*y*y == n in
  positive integers (least x and least y), ValueError when there is none; PellEquation(D, n).resolvent_solution() the same.
  pell_minimal_positive_solutions(D, N) holds one solution for every class of solutions, and pell_solution_generator(D, N, B) yields the solutions with x, y <= B reached from them.''',
  'all non-square d; all D, N', 'the fundamental solution grows exponentially with the period, so a wrong quotient or stop shows only for particular D',
  [CFT, PET], [(f, CFT) for f in ('QuadraticIrrational._initialize_sqrt', 'QuadraticIrrational._initialize_quadratic', 'QuadraticIrrational.partial_quotients', 'QuadraticIrrational.convergents')] +
  [(f, PET) for f in ('pell_fundamental_solution', 'PellEquation.resolvent_solution', 'pell_minimal_positive_solutions', 'pell_solution_generator')],
  [QIV + m for m in ('_initialize_sqrt', '__init__', 'partial_quotients', 'convergents')] + ['diophantine_equations.pell:pell_fundamental_solution'],
  ['cf:quadratic_irrational', 'pell:pell_fundamental_solution', 'pell:resolvent_solution', 'pell:pell_minimal_positive_solutions', 'pell:pell_solution_generator'],
  ['cf:quadratic_irrational (general p, q)', 'pell:resolvent_solution', 'pell:pell_minimal_positive_solutions', 'pell:pell_solution_generator'],
  note='sqrt(d) (period, quotients, convergents) and the fundamental solution, including its minimality (Legendre\'s theorem) and the ValueError, are proved for all inputs up to termination; the general p, q and the classes for general N are bounded.')
APT = 'rosemary/number_theory/arithmetic_progressions.py'
MIT = 'rosemary/number_theory/misc.py'
P('C19', 'Progression and extremal divisor searches find the optimum',
  '''For a non-decreasing list A, has_three_term_ap(A) is a triple (A[i], A[j], A[k]), i < j < k, in arithmetic progression (indices=True: (i, j, k)), and False exactly when there
  is none. longest_ap(A) of an increasing A (at least two elements) is the sorted list of all progressions of the maximal length. largest_divisor(n, b), 1 <= b <= n, is the
  largest divisor of n not above b; maximize_divisors(B) is (number of divisors, n) for an n <= B with the most divisors; bernoulli_list(n) is
  the exact list B_0..B_n with B_1 = -1/2.''',
  'all lists; all n, b, B', 'tests use a few lists and values; a lost candidate shows only where it is the unique optimum',
  [APT, MIT], [(f, APT) for f in ('has_three_term_ap', 'longest_ap')] + [(f, MIT) for f in ('largest_divisor', 'maximize_divisors', 'bernoulli_list')],
  ['arithmetic_progressions:has_three_term_ap', 'arithmetic_progressions:has_three_term_ap#ind'],
  ['ap:has_three_term_ap', 'ap:has_three_term_ap_indices', 'ap:longest_ap', 'misc:largest_divisor', 'misc:maximize_divisors', 'misc:bernoulli_list'],
  ['ap:longest_ap', 'misc:largest_divisor', 'misc:maximize_divisors', 'misc:bernoulli_list'], note='has_three_term_ap is proved; the other searches are bounded comparisons with exhaustive search.')
ENT = 'rosemary/combinatorics/enumeration/enumeration.py'
EN = 'combinatorics.enumeration.enumeration:'
ENF = ['bell_number', 'stirling_number2', 'binomial', 'multinomial', 'partition_list', 'partition_number', 'rth_power_partition_number', 'bipartitions', 'number_of_domino_tilings', 'triomino_tilings', 'necklaces']
P('C20', 'Counting functions return the exact number of objects',
  '''For all integers >= 0: stirling_number2(m, n) is the number of partitions of an m-set into n blocks, bell_number(n) their sum over all block counts (n < 0: ValueError),
  binomial(n, k) the number of k-subsets of an n-set (0 for k > n), multinomial(n, k), positive parts k with sum(k) <= n, is n!/prod(k_i!)
  (ValueError for sum(k) > n or no parts), partition_number(n) the number of partitions of n and partition_list(n) the list of them for 0..n,
  rth_power_partition_number(r, n) (r >= 1) the n-th coefficient of the r-th power of the partition generating function, bipartitions(m, n) the number of multisets of
  non-zero pairs of non-negative integers with sum (m, n), number_of_domino_tilings(m, n) and triomino_tilings(m, n) the number of tilings of
  the m x n board, necklaces(n, k) (n >= 1) the number of necklaces of n beads in k colours and necklaces(n, len(w), w) of those with the colour multiplicities w, sum(w) == n.''',
  'all arguments', 'recurrences and sign patterns go wrong first for larger arguments; tests hold a handful of values',
  [ENT], [(f, ENT) for f in ENF], [EN + f for f in ENF[:7]], ['enum:' + f for f in ENF], ['enum:' + f for f in ENF[7:]],
  note='The first seven are proved (partition_list against the count of partitions by Euler\'s pentagonal number theorem, for n <= 2^40); bipartitions, tilings and necklaces are bounded comparisons with independent counts.')
GNF = [('n_tuples', 'tuples'), ('combinations', 'combinations'), ('phillips', 'permutations'), ('knuth_algorithm_l', 'permutations'), ('knuth_algorithm_l_variations', 'permutations'), ('knuth_algorithm_l_rvariations', 'permutations'), ('integer_partitions', 'partitions')]
GNT = 'rosemary/combinatorics/generation/%s.py'
P('C21', 'Generators list every combinatorial object exactly once, in the documented order',
  '''n_tuples(n, M) yields every tuple (list) with 0 <= t[i] < M[i] (M an int: all M[i] = M; None: M[i] = 2) once, in lexicographic order; combinations(n, t), 0 <= t <= n, every t-subset of range(n)
  once, each decreasing, in lexicographic order; phillips(elements) and knuth_algorithm_l(elements) (at least one element) every rearrangement of the
  multiset once, in lexicographic order; knuth_algorithm_l_variations(elements) every arrangement of a sub-multiset once, in lexicographic order, and
  knuth_algorithm_l_rvariations(elements, r), 1 <= r <= len(elements), those of r elements; integer_partitions(n, parts=, distinct=, num_parts=) every partition
  of n, as non-increasing parts, that meets all the given constraints once. No generator changes its input.''',
  'all arguments', 'a generator that skips or repeats an object does so only for particular carries and multiplicities',
  [GNT % f for f in ('tuples', 'combinations', 'permutations', 'partitions')], [(f, GNT % m) for f, m in GNF],
  ['combinatorics.generation.tuples:n_tuples', 'combinatorics.generation.tuples:n_tuples#list', 'combinatorics.generation.tuples:n_tuples#int', 'combinatorics.generation.combinations:combinations',
   'combinatorics.generation.permutations:phillips', 'combinatorics.generation.permutations:knuth_algorithm_l'],
  ['gen:' + f for f, _ in GNF], ['gen:' + f for f, _ in GNF[4:]],
  note='tuples, combinations and both permutation generators are proved for all inputs (each output is the lexicographic successor of the one before, the first has no predecessor and the last no successor); variations and integer_partitions are bounded comparisons with exhaustive enumeration.')
KST, TST, GTT = ('rosemary/combinatorics/optimization/%s.py' % f for f in ('knapsack', 'tsp', 'genetic_tsp'))
KNF = ['depth_first', 'dynamic_programming', 'branch_and_bound', 'simulated_annealing']
P('C22', 'Optimisers return feasible solutions of the claimed value, exact ones an optimum',
  '''A knapsack problem has a list of items (value, weight) of non-negative integers and an integer capacity >= 0. depth_first(items, capacity), dynamic_programming(items, capacity) and
  branch_and_bound_depth_first(items, capacity) return the maximal total value and a list of items, of total weight at most the
  capacity, that attains it (no item more often than in the input); simulated_annealing such a list with its value, not necessarily a maximal one. The travelling salesman algorithms
  (depth_first, branch_and_bound, farthest_insertion, steepest_ascent_two_opt, two_opt, genetic TravelingSalesman.solve) return the length of a closed tour and that tour, which
  visits every point exactly once; depth_first and branch_and_bound a shortest one.''',
  'all items, capacities and points, and every random choice', 'optimality is lost only for particular inputs, and a random search is a different run each time',
  [KST, TST, GTT], [(f, KST) for f in ('depth_first', 'dynamic_programming', 'branch_and_bound_depth_first', 'simulated_annealing')] +
  [(f, TST) for f in ('depth_first', 'branch_and_bound', 'farthest_insertion', 'steepest_ascent_two_opt', 'two_opt')] + [('TravelingSalesman.solve', GTT)],
  ['combinatorics.optimization.knapsack:dynamic_programming'],
  ['opt:knapsack_' + f for f in KNF] + ['opt:tsp_' + f for f in ('depth_first', 'branch_and_bound', 'farthest_insertion', 'steepest_ascent_two_opt', 'two_opt')] + ['opt:genetic_tsp'],
  ['opt:knapsack_' + f for f in KNF if f != 'dynamic_programming'] + ['opt:tsp_' + f for f in ('depth_first', 'branch_and_bound', 'farthest_insertion', 'steepest_ascent_two_opt', 'two_opt')] + ['opt:genetic_tsp'],
  note='knapsack dynamic programming (maximal value and the traceback) is proved for all inputs; the other searches use floating point or recursion with closures over mutable state and are bounded comparisons with exhaustive search.')
GRT = 'rosemary/graphs/graphs.py'
GRM = ['__init__', '__getitem__', 'add_vertex', 'add_vertices', 'delete_vertex', 'delete_vertices', 'delete_vertices#set', 'add_edge', 'add_edge#w', 'add_edge#pair', 'add_edge#triple', 'delete_edge',
  'delete_edge#pair', 'delete_edge#triple', 'copy', 'remove_vertex', 'remove_vertices', 'remove_vertices#set', 'remove_edge', 'remove_edge#pair', 'remove_edge#triple', 'num_vertices', 'vertex_set', 'leaves', 'degree',
  'neighbors', 'closed_neighborhood', 'remove_neighborhood', 'remove_closed_neighborhood', '__iter__', 'vertices', 'induced_subgraph', 'complement', 'edge_set', 'edge_set#weights', 'maximum_degree',
  'minimum_degree', 'maximum_degree_vertex', 'minimum_degree_vertex']
P('C23', 'A Graph is the undirected weighted simple graph of its construction history',
  '''After any sequence of add_vertex, add_vertices, add_edge, add_edges, delete_vertex, delete_vertices and delete_edge a Graph holds exactly the vertices and undirected weighted edges that
  this history leaves (adding an edge adds its end points, adding it again replaces its weight, default 1; deleting a vertex deletes its edges; deleting what is absent changes nothing), and
  symmetrically so. remove_vertex, remove_vertices, remove_edge, remove_neighborhood, remove_closed_neighborhood, induced_subgraph, complement (unit weights) and copy
  return such a graph as a new one and leave the original unchanged. All queries (vertices, vertex_set, edges, edge_set, num_vertices, num_edges, degree, neighbors, neighborhood,
  closed_neighborhood, leaves, maximum and minimum degree and their vertices, total_degree, density, adjacency, degree and Laplacian matrix over the sorted vertices) answer for the present graph; complete_graph, coprime_pairs_graph,
  grid_graph, odd_graph and petersen_graph build the graph they name.''',
  'all histories of operations', 'a stale entry on one side of an edge or a shared dictionary needs a particular sequence of operations to show', [GRT], [('Graph.' + m, GRT) for m in GRM if '#' not in m] + [('complete_graph', GRT)],
  ['graphs.graphs:Graph.' + m for m in GRM] + ['graphs.graphs:complete_graph'], ['graph:history', 'graph:constructors'],
  ['graph:history (add_edges, edges, num_edges, total_degree, density, the matrices, vertices(order=, reverse=))', 'graph:constructors (coprime_pairs_graph, grid_graph, odd_graph, petersen_graph)'], qover=['inputs', 'histories'],
  note='Vertices and weights are modelled as integers.')
TRT, CNT = ('rosemary/graphs/algorithms/%s.py' % f for f in ('traversal', 'connectivity'))
TRN, CNN = ['breadth_first_search', 'breadth_first_search_tree', 'depth_first_search', 'depth_first_search_tree'], ['connected_components', 'connected_component', 'is_connected']
P('C24', 'Traversals reach exactly the component, breadth first in distance order; connectivity',
  '''For a Graph and a vertex start: breadth_first_search yields exactly the vertices reachable from start, each once, in order of non-decreasing distance (number of edges), and with max_depth=d
  (>= 0) exactly those at distance at most d; depth_first_search yields exactly the reachable vertices, each once, start first (with max_depth=d: only vertices at distance at most d, each once).
  breadth_first_search_tree and depth_first_search_tree map exactly the reachable vertices to a neighbour of theirs (start to None), such that following these
  predecessors ends in start, for the breadth first tree along a shortest path. connected_component(G, u) lists the vertices reachable from u once each, connected_components(G) one such list for every component
  and is_connected(G) is whether every vertex is reachable from every other.''',
  'all graphs and start vertices', 'which vertices are lost or repeated depends on the whole shape of the graph', [TRT, CNT], [(f, TRT) for f in TRN] + [(f, CNT) for f in CNN],
  ['graphs.algorithms.traversal:' + f for f in TRN + ['breadth_first_search#depth']] + ['graphs.algorithms.connectivity:' + f for f in CNN], ['trav:' + f for f in TRN] + ['conn:' + f for f in CNN],
  ['trav:depth_first_search with max_depth'], note='All proved for all graphs except the depth-limited depth first search. Reachability and distance are defined by walks over the adjacency relation.')
PAT = 'rosemary/graphs/algorithms/paths.py'
PAN = ['dijkstra', 'bellman_ford', 'floyd_warshall', 'dijkstra_buckets', 'dijkstra_pairing_heap', 'dijkstra_iterator', 'dijkstra_bidirectional']
P('C25', 'Shortest path algorithms return exact distances and shortest path trees',
  '''For a Graph with non-negative edge weights and a source vertex s, dijkstra, dijkstra_buckets (integer weights) and dijkstra_pairing_heap return for every vertex the minimal weight of a walk from s (infinite
  for vertices that cannot be reached) and a predecessor (None for s and vertices that cannot be reached) that is the last but one vertex of such a walk, so that following the predecessors leads back to s along
  a shortest path; dijkstra_iterator yields every reachable vertex once with that distance, in non-decreasing order of distance; dijkstra_bidirectional(graph, s, t) returns the minimal
  weight of a path from s to t and such a path. bellman_ford returns the same as dijkstra and floyd_warshall minimal weights and last but one vertices for all pairs of vertices; both raise ValueError for a negative edge (which is a negative cycle) in reach.
  A source (or target) that is no vertex raises ValueError (except floyd_warshall, which has none).''',
  'all graphs, weights and sources', 'a wrong relaxation shows only when a longer path with lower weight is found late', [PAT], [(f, PAT) for f in PAN],
  ['graphs.algorithms.paths:' + f for f in PAN[:3]], ['path:' + f for f in PAN] + ['path:' + f + '_errors' for f in PAN if f != 'floyd_warshall'] + ['path:negative_cycles'],
  ['path:' + f for f in PAN[3:]] + ['path:negative_cycles (that the ValueErrors are raised)'],
  note='dijkstra, bellman_ford and floyd_warshall are proved for all graphs with integer vertices and weights (minimal over all walks, by invariants over the walk relation); the four variants are bounded comparisons.')

ALA, ALP, ALS, ALM = ('rosemary/algebra/%s.py' % f for f in ('polynomials/algorithms', 'polynomials/polynomials', 'power_series/power_series', 'matrices/matrices'))
PLA, PLS = ['list_add', 'list_subtract', 'mul_classical', 'mul_karatsuba', 'power_jcp'], ['ps_mult_classical', 'ps_mult_karatsuba', 'ps_power', 'ps_invert']
PLM = ['__init__', '__add__', '__sub__', '__mul__', '__neg__', '__radd__', '__rsub__', '__rmul__', '__pow__', '__getitem__', '__eq__', '__ne__', 'coefficients', '__call__', 'quo_rem', 'pseudo_quo_rem']
P('C26', 'Integer polynomial and power series arithmetic is exact',
  '''A polynomial is its list of integer coefficients, lowest degree first. list_add, list_subtract, mul_classical, mul_karatsuba (leading zeros aside) and power_jcp(A, k) (k >= 0) return the sum, difference, product and k-th power.
  For Polynomial objects built from a list or an integer, +, -, *, ** and unary -, with polynomials and integers on either side, ==, !=, evaluation, indexing, degree, lead_coeff and coefficients are those of the polynomial ring over the integers, operands are never changed and
  results are normalised (no leading zero, zero is [0]); power_binary is **. quo_rem(B) gives Q, R with A = Q*B + R, deg R < deg B when the leading coefficient of B is 1 or -1, R = 0 when B divides A, and raises ValueError when deg A >= deg B and the leading
  coefficient of A is no multiple of that of B; pseudo_quo_rem(B) gives l^(deg A - deg B + 1) * A = Q*B + R with deg R < deg B for the leading coefficient l of B (Q = 0, R = A if deg A < deg B). PolyZZ content, primitive_part and gcd are those over the integers.
  ps_mult_classical and ps_mult_karatsuba return the product, ps_power(A, k) (A[0] != 0) and ps_invert(A) (A[0] = 1 or -1) the power and the inverse modulo x^len(A); eta_series(n) and delta_series(n) return the first coefficients of prod (1 - x^m) and of
  x * prod (1 - x^m)^24.''',
  'all coefficient lists and exponents', 'a wrong split or carry appears only for particular lengths and zero patterns', [ALA, ALP, ALS],
  [(f, ALA) for f in PLA] + [('Polynomial.' + f, ALP) for f in PLM] + [(f, ALS) for f in PLS + ['eta_series', 'delta_series']] + [('PolyZZ.gcd', ALP)],
  ['algebra.polynomials.algorithms:' + f for f in PLA] + ['algebra.power_series.power_series:' + f for f in PLS + ['ps_mult_karatsuba#default']] +
  ['algebra.polynomials.polynomials:Polynomial.' + f for f in PLM + ['__init__#int', '__add__#int', '__sub__#int', '__mul__#int', '__eq__#int']],
  ['pol:' + f for f in PLA + ['Polynomial', 'Polynomial.__pow__', 'quo_rem', 'pseudo_quo_rem', 'gcd', 'content']] + ['ps:' + f for f in PLS + ['ps_mult_karatsuba_small', 'eta_series', 'delta_series']],
  ['pol:Polynomial.power_binary', 'pol:gcd', 'pol:content', 'pol:quo_rem (R = 0 when B divides A)', 'ps:eta_series', 'ps:delta_series'],
  note='Coefficients are integers. The methods are verified for class Polynomial; PolyZZ and the other subclasses inherit them unchanged.')
MTM = ['__init__', '__add__', '__neg__', '__mul__', '__rmul__', '__getitem__', '__setitem__', 'delete_col']
P('C27', 'Matrix arithmetic, minors and determinants are exact',
  '''For integer matrices (at least one row and one column) built by Matrix(rows), Matrix(n) and Matrix(n, m) (zero matrices): +, -, unary -, the product of two matrices and by an integer from either side, m[i, j], m[i, j] = x, delete_row, delete_col and determinant
  (square matrices) are those of linear algebra, results have the right shape, and operands are not changed; mismatched shapes (and the determinant of a matrix that is not square) raise ValueError.''',
  'all shapes and entries', 'wrong strides or pivots show only for non-square or singular matrices', [ALM], [('Matrix.' + f, ALM) for f in MTM + ['__sub__', 'delete_row', 'determinant']],
  ['algebra.matrices.matrices:Matrix.' + f for f in MTM + ['__init__#square', '__init__#zero', '__mul__#int']],
  ['mat:arithmetic', 'mat:determinant', 'mat:determinant_nonsquare', 'mat:constructors', 'mat:setitem'], ['mat:arithmetic (-, delete_row)', 'mat:determinant', 'mat:determinant_nonsquare'],
  note='Bareiss elimination (determinant), subtraction and delete_row (rows shared between matrices) are bounded comparisons; the rest is proved for all shapes.')

COF, INF, CLF = ('rosemary/graphs/algorithms/%s.py' % f for f in ('coloring', 'independent_sets', 'cliques'))
CON = ['dsatur', 'greedy_sequential', 'branch_and_bound', 'korman', 'exact_coloring', 'maxis']
P('C28', 'Vertex colourings are proper, complete and count their colours; exact ones minimal',
  '''For a Graph with at least one vertex and without loops, dsatur, greedy_sequential (any order of the vertices, one or more passes), branch_and_bound, korman, exact_coloring and maxis return the number of colours and, with classes=True (the default), a list of as many non-empty
  classes in which every vertex occurs exactly once and no two adjacent vertices share a class, with classes=False a colour for every vertex, different for adjacent vertices, that uses exactly that many colours. branch_and_bound, korman and exact_coloring use as few colours as possible.''',
  'all graphs, vertex orders and numbers of passes', 'a conflict appears only when the saturation order meets a particular shape', [COF], [(f, COF) for f in CON],
  ['graphs.algorithms.coloring:dsatur', 'graphs.algorithms.coloring:dsatur#map'] + ['graphs.algorithms.coloring:greedy_sequential' + v for v in ('', '#map', '#list', '#listmap', '#passes', '#passesmap', '#listpasses', '#listpassesmap')],
  ['color:' + f for f in CON], ['color:' + f for f in CON[2:]], note='dsatur and greedy_sequential are proved for all graphs; the exact algorithms (recursive closures over shared mutable state) and maxis are bounded comparisons with brute force.')
INN, CLN = ['branch_and_bound', 'maximum_independent_set', 'greedy', 'culberson', 'maximal_independent_sets'], ['pardalos', 'pardalos_binary', 'ostergard', 'ostergard_binary', 'maximum_clique', 'maximum_weight_clique']
P('C29', 'Cliques and independent sets are genuine, maximal or maximum as claimed',
  '''For a Graph with at least one vertex and without loops: maximal_cliques(G, algorithm) for 'tomita', 'bron_kerbosch' and 'bron_kerbosch_binary' yields every maximal clique exactly once, and maximal_independent_sets every maximal independent set. maximum_clique, pardalos, pardalos_binary, ostergard and
  ostergard_binary return the size of a largest clique and such a clique, maximum_weight_clique (positive vertex weights) the largest weight and a clique of that weight; independent_sets.branch_and_bound and maximum_independent_set a largest independent set. independent_sets.greedy returns a
  maximal independent set, sorted, with its size, for every random choice, and culberson an independent set with its size.''',
  'all graphs and random choices', 'a search that prunes too much loses a clique only in graphs of a particular shape', [INF, CLF], [(f, INF) for f in INN] + [(f, CLF) for f in CLN + ['maximal_cliques', 'tomita', 'bron_kerbosch', 'bron_kerbosch_binary']],
  ['graphs.algorithms.independent_sets:greedy'], ['indep:' + f for f in INN] + ['clique:' + f for f in CLN + ['tomita', 'bron_kerbosch', 'bron_kerbosch_binary']],
  ['indep:' + f for f in INN if f != 'greedy'] + ['clique:' + f for f in CLN + ['tomita', 'bron_kerbosch', 'bron_kerbosch_binary']], note='independent_sets.greedy is proved for all graphs; the exact searches (recursive closures over shared mutable state) are bounded comparisons with brute force.')
