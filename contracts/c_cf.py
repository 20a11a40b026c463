from pyvc.contract import C, ClassSpec, Loop as L
Q = 'number_theory.continued_fractions:QuadraticIrrational'
ClassSpec(Q, {'d': 'int', 'p': 'int', 'q': 'int', 'period_length': 'int', 'pre_period': 'list[int]', 'fundamental_period': 'list[int]'})
SQ = ['self.d >= 1 and not issq(self.d)', 'self.period_length >= 1', 'len(self.fundamental_period) == self.period_length', 'len(self.pre_period) == 1',
      'self.pre_period[0] == cfa(self.d, 0)', 'cfa(self.d, self.period_length) == 2 * isqrtZ(self.d)', 'forall(i, 1, self.period_length, cfa(self.d, i) != 2 * isqrtZ(self.d), cfa(self.d, i))',
      'forall(i, 0, self.period_length, self.fundamental_period[i] == cfa(self.d, i + 1), self.fundamental_period[i])']
SAME = ['self.d == old(self.d)', 'self.p == old(self.p)', 'self.q == old(self.q)']
C(Q + '._initialize_sqrt', 'self:QuadraticIrrational, d:int -> None', requires=['self.d == d'], raises=[('ValueError', 'd < 0 or issq(d)')], modifies=['self.period_length', 'self.pre_period', 'self.fundamental_period'],
  ensures=SQ + SAME, locals={'terms': 'list[int]'}, entry=['use sq_kpow(d)'], after={'r': ['use isq_uniq(d, r)', 'use root_uniq(d, r)', 'use issq_intro(d, r)', 'use cf_zero(d)']},
  loops={0: L(inv=['P == cfP(d, len(terms))', 'Q == cfQ(d, len(terms))', 'r >= 1', 'forall(i, 0, len(terms), terms[i] == cfa(d, i) and terms[i] != 2 * r, terms[i])'], head=['use cf_step(d, len(terms))', 'ghost k0 = len(terms)'],
  pre=[], brk=['assert len(terms) == k0 + 1', 'assert cfa(d, k0) == 2 * r', 'use cf_zero(d)', 'use cf_step(d, 0)', 'assert k0 >= 1'])})
C(Q + '.__init__', 'self:QuadraticIrrational, d:int, p:int=0, q:int=1 -> None', raises=[('ValueError', 'd < 0 or issq(d)')], modifies=['self'], ensures=SQ + ['self.d == d', 'self.p == 0', 'self.q == 1'])
C(Q + '.partial_quotients', 'self:QuadraticIrrational -> list[int]', requires=SQ, types={'stream': True}, ensures=['forall(i, 0, len(result), result[i] == cfa(self.d, i), result[i])'],
  loops={0: L(inv=['len(_out) == _i0', 'forall(i, 0, _i0, _out[i] == cfa(self.d, i), _out[i])'])}, entry=['use cf_period(self.d, self.period_length)'])
C(Q + '.convergents', 'self:QuadraticIrrational -> list[tuple[int,int]]', requires=SQ, types={'stream': True}, ensures=['forall(i, 0, len(result), result[i] == (cvA(self.d, i), cvB(self.d, i)), result[i])'],
  loops={0: L(pre=['use cv_zero(self.d)'], inv=['len(_out) == _i0', 'forall(i, 0, _i0, _out[i] == (cvA(self.d, i), cvB(self.d, i)), _out[i])', 'a1 == cvA(self.d, _i0 - 1)', 'b1 == cvB(self.d, _i0 - 1)', 'a0 == cvA(self.d, _i0 - 2)', 'b0 == cvB(self.d, _i0 - 2)'],
              head=['use cv_succ(self.d, _i0)'])})

P = 'number_theory.diophantine_equations.pell:'
C(P + 'pell_fundamental_solution', 'D:int, n:int -> tuple[int,int]',
  raises=[('ValueError', 'D <= 0 or issq(D) or n != 1 and n != -1 or n == -1 and not existsT(int, x, existsT(int, y, pellsol(D, -1, x, y)))')],
  ensures=['pellsol(D, n, result[0], result[1])', 'forallT(int, x, forallT(int, y, implies(pellsol(D, n, x, y), result[0] <= x and result[1] <= y), pellsol(D, n, x, y)))'],
  entry=[], after={'contfrac': ['use pell_odd(D, contfrac.period_length)']},
  loops={0: L(inv=['forall(j, 0, _i0, cvA(D, j) * cvA(D, j) - D * cvB(D, j) * cvB(D, j) != n, cvA(D, j))'], head=['use pell_first(D, n, _i0)', 'use pell_def(D, n, cvA(D, _i0), cvB(D, _i0))', 'witness w:int | w == cvA(D, _i0)', 'witness v:int | v == cvB(D, _i0)'])},
  )
