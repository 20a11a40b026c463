"""Cardinalities of finite sets of integers."""
from pyvc.theory import begin, fn, lemma, raw
begin('card', ['arith'])
fn('ncard', 'fn[int,bool] -> int', 'fun A => (Set.ncard {x : ℤ | A x} : ℤ)')
fn('finite', 'fn[int,bool] -> bool', 'fun A => Set.Finite {x : ℤ | A x}')
lemma('ncard_le', 'A:fn[int,bool], B:fn[int,bool]', 'implies(finite(B) and forallT(int, x, implies(A[x], B[x]), A[x]), ncard(A) <= ncard(B))', '''
rintro ⟨hf, h⟩
simp only [S.ncard]
exact_mod_cast Set.ncard_le_ncard (fun x hx => h x hx) hf
''')
lemma('ncard_lt', 'A:fn[int,bool], B:fn[int,bool], y:int', 'implies(finite(B) and forallT(int, x, implies(A[x], B[x]), A[x]) and B[y] and not A[y], ncard(A) < ncard(B))', '''
rintro ⟨hf, h, hb, ha⟩
simp only [S.ncard]
exact_mod_cast Set.ncard_lt_ncard ⟨fun x hx => h x hx, fun hs => ha (hs hb)⟩ hf
''')
# true of everything: only a pattern for quantifiers over numbers that no other term mentions
fn('tick', 'int -> bool', 'fun _ => True')
lemma('tick_true', 'c:int', 'tick(c)', '''
trivial
''')
