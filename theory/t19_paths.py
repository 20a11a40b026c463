"""Weighted walks: their costs and shortest ones."""
from pyvc.theory import begin, fn, lemma, raw
begin('paths', ['arith', 'ds', 'graph'])
raw('''
inductive walkc (R : ℤ × ℤ → Prop) (W : ℤ × ℤ → ℤ) (s : ℤ) : ℤ → ℤ → Prop
  | refl : walkc R W s s 0
  | step {x y c : ℤ} : walkc R W s x c → R (x, y) → walkc R W s y (c + W (x, y))
''')
RW = 'R:fn[tuple[int,int],bool], W:fn[tuple[int,int],int], '
fn('wk', 'fn[tuple[int,int],bool], fn[tuple[int,int],int], int, int, int -> bool', 'fun R W s x c => walkc R W s x c')
lemma('wk_refl', RW + 's:int', 'wk(R, W, s, s, 0)', '''
exact walkc.refl
''')
lemma('wk_step', RW + 's:int, x:int, y:int, c:int', 'implies(wk(R, W, s, x, c) and R[(x, y)], wk(R, W, s, y, c + W[(x, y)]))', '''
rintro ⟨h, r⟩
exact walkc.step h r
''')
lemma('wk_bound', RW + 's:int, P:fn[int,bool], d:fn[int,int]', '''implies(P[s] and d[s] <= 0 and forall2(x, y, P[x] and R[(x, y)], P[y] and d[y] <= d[x] + W[(x, y)]),
  forallT(int, x, forallT(int, c, implies(wk(R, W, s, x, c), P[x] and d[x] <= c), wk(R, W, s, x, c))))''', '''
rintro ⟨hs, h0, hc⟩ x c h
induction h with
| refl => exact ⟨hs, h0⟩
| step h r ih =>
  have := hc _ _ ⟨ih.1, r⟩
  exact ⟨this.1, by linarith [ih.2, this.2]⟩
''')
lemma('wk_trans', RW + 's:int, x:int, y:int, c:int, e:int', 'implies(wk(R, W, s, x, c) and wk(R, W, x, y, e), wk(R, W, s, y, c + e))', '''
rintro ⟨h, g⟩
induction g with
| refl => simpa using h
| step g r ih => rw [← add_assoc]; exact walkc.step ih r
''')
raw('''
inductive walkiI (R : ℤ × ℤ → Prop) (W : ℤ × ℤ → ℤ) (K : ℤ → Prop) (v : ℤ) : ℤ → ℤ → Prop
  | edge {w : ℤ} : R (v, w) → walkiI R W K v w (W (v, w))
  | step {x w c : ℤ} : walkiI R W K v x c → K x → R (x, w) → walkiI R W K v w (c + W (x, w))
''')
KT = RW + 'K:fn[int,bool], '
fn('walki', 'fn[tuple[int,int],bool], fn[tuple[int,int],int], fn[int,bool], int, int, int -> bool', 'fun R W K v w c => walkiI R W K v w c')
lemma('walki_none', KT + 'v:int, w:int, c:int', 'implies(walki(R, W, K, v, w, c) and forallT(int, x, not K[x], K[x]), R[(v, w)] and c == W[(v, w)])', '''
rintro ⟨h, hk⟩
cases h with
| edge r => exact ⟨r, rfl⟩
| step h k r => exact absurd k (hk _)
''')
lemma('walki_all', KT + 'v:int, w:int, c:int', 'implies(wk(R, W, v, w, c) and forall2(x, y, R[(x, y)], K[x]), w == v and c == 0 or walki(R, W, K, v, w, c))', '''
rintro ⟨h, hk⟩
induction h with
| refl => exact Or.inl ⟨rfl, rfl⟩
| step h r ih =>
  right
  rcases ih with ⟨rfl, rfl⟩ | ih
  · rw [zero_add]; exact walkiI.edge r
  · exact walkiI.step ih (hk _ _ r) r
''')
raw('''
theorem walki_split (R : ℤ × ℤ → Prop) (W : ℤ × ℤ → ℤ) (K : ℤ → Prop) (u v w c : ℤ) (h0 : ∀ e, walkiI R W K u u e → 0 ≤ e)
    (h : walkiI R W (Function.update K u True) v w c) :
    (∃ c', c' ≤ c ∧ walkiI R W K v w c') ∨ ∃ a b, a + b ≤ c ∧ walkiI R W K v u a ∧ walkiI R W K u w b := by
  induction h with
  | edge r => exact Or.inl ⟨_, le_refl _, walkiI.edge r⟩
  | @step x w c h k r ih =>
    by_cases e : x = u
    · subst e
      right
      rcases ih with ⟨c', hc, h1⟩ | ⟨a, b, hc, h1, h2⟩
      · exact ⟨c', W (x, w), by linarith, h1, walkiI.edge r⟩
      · exact ⟨a, W (x, w), by linarith [h0 b h2], h1, walkiI.edge r⟩
    · rw [Function.update_of_ne e] at k
      rcases ih with ⟨c', hc, h1⟩ | ⟨a, b, hc, h1, h2⟩
      · exact Or.inl ⟨c' + W (x, w), by linarith, walkiI.step h1 k r⟩
      · exact Or.inr ⟨a, b + W (x, w), by linarith, h1, walkiI.step h2 k r⟩
''')
lemma('walki_step', KT + 'u:int, P:fn[tuple[int,int],bool], d:fn[tuple[int,int],int], v:int, w:int, c:int', '''implies(walki(R, W, upd(K, u, True), v, w, c) and d[(u, u)] >= 0
  and forallT(int, y, forallT(int, e, implies(walki(R, W, K, v, y, e), P[(v, y)] and d[(v, y)] <= e))) and forallT(int, y, forallT(int, e, implies(walki(R, W, K, u, y, e), P[(u, y)] and d[(u, y)] <= e))),
  P[(v, w)] and d[(v, w)] <= c or P[(v, u)] and P[(u, w)] and d[(v, u)] + d[(u, w)] <= c)''', '''
rintro ⟨h, h0, hv, hu⟩
rcases walki_split R W K u v w c (fun e he => le_trans h0 (hu u e he).2) h with ⟨c', hc, h1⟩ | ⟨a, b, hc, h1, h2⟩
· exact Or.inl ⟨(hv w c' h1).1, le_trans (hv w c' h1).2 hc⟩
· have e1 : P (v, u) ∧ d (v, u) ≤ a := hv u a h1
  have e2 : P (u, w) ∧ d (u, w) ≤ b := hu w b h2
  refine Or.inr ⟨e1.1, e2.1, ?_⟩
  have := e1.2
  have := e2.2
  linarith
''')
