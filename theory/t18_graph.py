"""Walks and reachability in a graph given by its adjacency relation R."""
from pyvc.theory import begin, fn, lemma, raw
begin('graph', ['arith', 'ds'])
raw('''
def walkn (R : ℤ × ℤ → Prop) (s : ℤ) : ℕ → ℤ → Prop
  | 0, x => x = s
  | k + 1, x => ∃ y, walkn R s k y ∧ R (y, x)
''')
fn('near', 'fn[tuple[int,int],bool], int, int, int -> bool', 'fun R s x d => ∃ k : ℕ, (k : ℤ) ≤ d ∧ walkn R s k x')
fn('reach', 'fn[tuple[int,int],bool], int, int -> bool', 'fun R s x => ∃ k : ℕ, walkn R s k x')
lemma('near_zero', 'R:fn[tuple[int,int],bool], s:int, x:int', 'iff(near(R, s, x, 0), x == s) and not near(R, s, x, -1)', '''
refine ⟨⟨?_, ?_⟩, ?_⟩
· rintro ⟨k, hk, h⟩
  have : k = 0 := by omega
  subst this
  exact h
· intro h
  exact ⟨0, le_refl _, h⟩
· rintro ⟨k, hk, _⟩
  omega
''')
lemma('near_step', 'R:fn[tuple[int,int],bool], s:int, x:int, y:int, d:int', 'implies(near(R, s, x, d) and R[(x, y)], near(R, s, y, d + 1))', '''
rintro ⟨⟨k, hk, h⟩, hr⟩
exact ⟨k + 1, by push_cast; omega, x, h, hr⟩
''')
lemma('near_mono', 'R:fn[tuple[int,int],bool], s:int, x:int, d:int, e:int', 'implies(near(R, s, x, d) and d <= e, near(R, s, x, e))', '''
rintro ⟨⟨k, hk, h⟩, hr⟩
exact ⟨k, by omega, h⟩
''')
lemma('near_closed', 'R:fn[tuple[int,int],bool], s:int, P:fn[int,bool], m:int', '''implies(P[s] and forall2(x, y, P[x] and near(R, s, x, m - 1) and R[(x, y)], P[y]),
  forallT(int, x, implies(near(R, s, x, m), P[x]), near(R, s, x, m)))''', '''
rintro ⟨hs, hc⟩ x ⟨k, hk, h⟩
induction k generalizing x with
| zero => rw [show x = s from h]; exact hs
| succ k ih =>
  obtain ⟨y, hy, hr⟩ := h
  push_cast at hk
  exact hc y x ⟨ih y (by omega) hy, ⟨k, by omega, hy⟩, hr⟩
''')
lemma('near_reach', 'R:fn[tuple[int,int],bool], s:int, x:int, d:int', 'implies(near(R, s, x, d), reach(R, s, x))', '''
rintro ⟨k, hk, h⟩
exact ⟨k, h⟩
''')
lemma('reach_refl', 'R:fn[tuple[int,int],bool], s:int', 'reach(R, s, s)', '''
exact ⟨0, rfl⟩
''')
lemma('reach_step', 'R:fn[tuple[int,int],bool], s:int, x:int, y:int', 'implies(reach(R, s, x) and R[(x, y)], reach(R, s, y))', '''
rintro ⟨⟨k, h⟩, hr⟩
exact ⟨k + 1, x, h, hr⟩
''')
lemma('reach_closed', 'R:fn[tuple[int,int],bool], s:int, P:fn[int,bool]', '''implies(P[s] and forall2(x, y, P[x] and R[(x, y)], P[y]),
  forallT(int, x, implies(reach(R, s, x), P[x]), reach(R, s, x)))''', '''
rintro ⟨hs, hc⟩ x ⟨k, h⟩
induction k generalizing x with
| zero => rw [show x = s from h]; exact hs
| succ k ih =>
  obtain ⟨y, hy, hr⟩ := h
  exact hc y x ⟨ih y hy, hr⟩
''')
lemma('reach_trans', 'R:fn[tuple[int,int],bool], s:int, x:int, y:int', 'implies(reach(R, s, x) and reach(R, x, y), reach(R, s, y))', '''
rintro ⟨⟨k, h⟩, ⟨l, g⟩⟩
induction l generalizing y with
| zero => rw [show y = x from g]; exact ⟨k, h⟩
| succ l ih =>
  obtain ⟨z, hz, hr⟩ := g
  obtain ⟨m, hm⟩ := ih z hz
  exact ⟨m + 1, z, hm, hr⟩
''')
lemma('reach_symm', 'R:fn[tuple[int,int],bool], s:int, x:int', 'implies(reach(R, s, x) and forall2(a, b, R[(a, b)], R[(b, a)]), reach(R, x, s))', '''
rintro ⟨⟨k, h⟩, hs⟩
induction k generalizing x with
| zero => exact ⟨0, (show x = s from h).symm⟩
| succ k ih =>
  obtain ⟨y, hy, hr⟩ := h
  exact reach_trans R x y s ⟨⟨1, x, rfl, hs y x hr⟩, ih y hy⟩
''')
lemma('leadsN_rank', 'F:fn[int,opt[int]], P:fn[int,bool], o:fn[int,int], s:int', '''implies(F[s] is None and forallT(int, x, implies(P[x] and x != s, existsT(int, y, F[x] == some(y) and P[y] and 0 <= o[y] and o[y] < o[x])), P[x]),
  forallT(int, x, implies(P[x], leadsN(F, x, s)), P[x], leadsN(F, x, s)))''', '''
rintro ⟨hs, h⟩ x
generalize hk : (o x).toNat = k
induction k using Nat.strong_induction_on generalizing x with
| _ k ih =>
  intro hx
  by_cases e : x = s
  · subst e; exact (leadsN_root F x x hs).1
  · obtain ⟨y, hy, hp, h0, hl⟩ := h x ⟨hx, e⟩
    exact (leadsN_step F x y s hy).2 (ih (o y).toNat (by omega) y rfl hp)
''')
