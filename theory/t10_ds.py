"""Disjoint sets and binary indexed sieves."""
from pyvc.theory import begin, fn, lemma, raw
begin('ds', ['factor'])
fn('leads', 'fn[int,int], int, int -> bool', 'fun P x r => P r = r ∧ ∃ k : ℕ, (P^[k]) x = r')
lemma('leads_step', 'P:fn[int,int], x:int, r:int', 'iff(leads(P, x, r), leads(P, P[x], r))', '''
  simp only [S.leads]
  constructor
  · rintro ⟨h, k, hk⟩
    refine ⟨h, k, ?_⟩
    rw [← Function.iterate_succ_apply, Function.iterate_succ_apply', hk, h]
  · rintro ⟨h, k, hk⟩
    exact ⟨h, k + 1, by rw [Function.iterate_succ_apply]; exact hk⟩''')
lemma('leads_root', 'P:fn[int,int], r:int, s:int', 'implies(P[r] == r, leads(P, r, r) and implies(leads(P, r, s), s == r))', '''
  intro h
  refine ⟨⟨h, 0, rfl⟩, ?_⟩
  rintro ⟨_, k, hk⟩
  rw [Function.iterate_fixed h] at hk
  exact hk.symm''')
lemma('leads_uniq', 'P:fn[int,int], x:int, r:int, s:int', 'implies(leads(P, x, r) and leads(P, x, s), r == s)', '''
  rintro ⟨⟨h, k, hk⟩, ⟨h', k', hk'⟩⟩
  have a : P^[k' + k] x = r := by rw [Function.iterate_add_apply, hk, Function.iterate_fixed h]
  have b : P^[k + k'] x = s := by rw [Function.iterate_add_apply, hk', Function.iterate_fixed h']
  rw [← a, ← b, add_comm]''')
lemma('leads_compress', 'P:fn[int,int], v:int, r:int, x:int, s:int', 'implies(leads(P, v, r), iff(leads(upd(P, v, r), x, s), leads(P, x, s)))', '''
  intro h
  have hr := h.1
  have hQr : Function.update P v r r = r := by
    by_cases e : r = v
    · rw [e, Function.update_self]
    · rw [Function.update_of_ne e]; exact hr
  have hvr : P v = v ↔ r = v := by
    constructor
    · intro e; exact (leads_root P v r e).2 h
    · intro e; rw [← e]; exact hr
  have hfix : ∀ s, Function.update P v r s = s ↔ P s = s := by
    intro s
    by_cases e : s = v
    · rw [e, Function.update_self]; exact hvr.symm
    · rw [Function.update_of_ne e]
  constructor
  · rintro ⟨hs, k, hk⟩
    rw [hfix] at hs
    induction k generalizing x with
    | zero => simp only [Function.iterate_zero, id] at hk; rw [hk]; exact (leads_root P s s hs).1
    | succ k ih =>
      rw [Function.iterate_succ_apply] at hk
      have := ih _ hk
      by_cases e : x = v
      · rw [e, Function.update_self] at this
        have := (leads_root P r s hr).2 this
        rw [e, this]; exact h
      · rw [Function.update_of_ne e] at this
        exact (leads_step P x s).2 this
  · rintro ⟨hs, k, hk⟩
    have hl : S.leads P x s := ⟨hs, k, hk⟩
    induction k generalizing x with
    | zero => simp only [Function.iterate_zero, id] at hk; rw [hk]; exact (leads_root _ s s ((hfix s).2 hs)).1
    | succ k ih =>
      rw [Function.iterate_succ_apply] at hk
      by_cases e : x = v
      · have : s = r := leads_uniq P v s r ⟨e ▸ hl, h⟩
        rw [leads_step, e, Function.update_self, this]
        exact (leads_root _ r r hQr).1
      · rw [leads_step, Function.update_of_ne e]
        exact ih _ hk ((leads_step P x s).1 hl)''')
lemma('leads_link', 'P:fn[int,int], a:int, b:int, x:int, s:int', '''implies(P[a] == a and P[b] == b and a != b,
  iff(leads(upd(P, a, b), x, s), (leads(P, x, s) and s != a) or (leads(P, x, a) and s == b)))''', '''
  rintro ⟨ha, hb, hab⟩
  have hQb : Function.update P a b b = b := by rw [Function.update_of_ne (Ne.symm hab)]; exact hb
  constructor
  · rintro ⟨hs, k, hk⟩
    have hsa : s ≠ a := by rintro rfl; rw [Function.update_self] at hs; exact hab hs.symm
    rw [Function.update_of_ne hsa] at hs
    induction k generalizing x with
    | zero => simp only [Function.iterate_zero, id] at hk; rw [hk]; exact Or.inl ⟨(leads_root P s s hs).1, hsa⟩
    | succ k ih =>
      rw [Function.iterate_succ_apply] at hk
      have := ih _ hk
      by_cases e : x = a
      · rw [e, Function.update_self] at this
        rw [e]
        rcases this with ⟨h, _⟩ | ⟨_, h⟩
        · exact Or.inr ⟨(leads_root P a a ha).1, (leads_root P b s hb).2 h⟩
        · exact Or.inr ⟨(leads_root P a a ha).1, h⟩
      · rw [Function.update_of_ne e] at this
        rwa [leads_step P x s, leads_step P x a]
  · have key : ∀ k : ℕ, ∀ x, ∀ t, P t = t → (P^[k]) x = t → S.leads (Function.update P a b) x (if t = a then b else t) := by
      intro k
      induction k with
      | zero =>
        intro x t ht hk
        simp only [Function.iterate_zero, id] at hk
        rw [hk]
        split_ifs with e
        · rw [leads_step, e, Function.update_self]; exact (leads_root _ b b hQb).1
        · exact (leads_root _ t t (by rw [Function.update_of_ne e]; exact ht)).1
      | succ k ih =>
        intro x t ht hk
        rw [Function.iterate_succ_apply] at hk
        by_cases e : x = a
        · have : t = a := by rw [e, ha, Function.iterate_fixed ha] at hk; exact hk.symm
          rw [if_pos this, leads_step, e, Function.update_self]
          exact (leads_root _ b b hQb).1
        · rw [leads_step, Function.update_of_ne e]
          exact ih _ _ ht hk
    rintro (⟨⟨hs, k, hk⟩, hsa⟩ | ⟨⟨hs, k, hk⟩, rfl⟩)
    · have := key k x s hs hk; rwa [if_neg hsa] at this
    · have := key k x a hs hk; rwa [if_pos rfl] at this''')
fn('rmax', 'fn[int,bool], fn[int,int] -> int', "fun D R => sSup (R '' {k : ℤ | D k})")
lemma('rmax_ge', 'D:fn[int,bool], R:fn[int,int], x:int', 'implies(finD(D) and D[x], R[x] <= rmax(D, R))', '''
  rintro ⟨h, hx⟩
  exact le_csSup (Set.Finite.bddAbove (Set.Finite.image R h)) ⟨x, hx, rfl⟩''')
lemma('finD_upd', 'D:fn[int,bool], x:int', 'implies(finD(D), finD(upd(D, x, True)))', '''
  intro h
  refine (Set.Finite.insert x h).subset ?_
  intro k hk
  by_cases e : k = x
  · exact Or.inl e
  · right; simpa [Function.update_of_ne e] using hk''')
lemma('finD_none', 'D:fn[int,bool]', 'implies(forallT(int, k, not D[k]), finD(D))', '''
  intro h
  have e : {k : ℤ | D k} = ∅ := by ext k; simp [h k]
  simp only [S.finD, e]; exact Set.finite_empty''')
lemma('finD_eq', 'D:fn[int,bool], E:fn[int,bool]', 'implies(finD(D) and forallT(int, k, implies(E[k], D[k])), finD(E))', '''
  rintro ⟨h, e⟩
  exact Set.Finite.subset h (fun k hk => e k hk)''')
lemma('shr_step', 'n:int, i:int', 'implies(n >= 0 and i >= 0, n // powZ(2, i + 1) == (n // powZ(2, i)) // 2 and n // powZ(2, i) >= 0)', '''
  rintro ⟨hn, hi⟩
  obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le hi
  have e : ((k:ℤ) + 1).toNat = k + 1 := by omega
  simp only [S.powZ, e, Int.toNat_natCast]
  refine ⟨?_, by positivity⟩
  rw [pow_succ, Int.ediv_ediv_of_nonneg (by positivity)]''')
fn('sum1', 'arr[int], int -> int', 'fun A k => ∑ i ∈ Finset.Icc 1 k.toNat, A (i:ℤ)')
lemma('sum1_zero', 'A:arr[int]', 'sum1(A, 0) == 0', 'simp [S.sum1]')
lemma('sum1_step', 'A:arr[int], k:int', 'implies(k >= 1, sum1(A, k) == sum1(A, k - 1) + A[k])', '''
  intro h
  obtain ⟨m, rfl⟩ : ∃ m : ℕ, k = (m:ℤ) + 1 := ⟨(k - 1).toNat, by omega⟩
  have e : ((m:ℤ) + 1).toNat = m + 1 := by omega
  simp only [S.sum1, e, add_sub_cancel_right, Int.toNat_natCast]
  rw [Finset.sum_Icc_succ_top (by omega)]; push_cast; rfl''')
lemma('sum1_half', 'A:arr[int], B:arr[int], k:int', 'implies(k >= 0 and forall(j, 1, k + 1, B[j] == A[2 * j - 1] + A[2 * j]), sum1(A, 2 * k) == sum1(B, k))', '''
  rintro ⟨hk, h⟩
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le hk
  induction m with
  | zero => simp [S.sum1]
  | succ m ih =>
    have a := ih (by omega) (fun j h1 h2 => h j h1 (by push_cast; omega))
    have s1 := sum1_step A (2 * ((m + 1 : ℕ) : ℤ)) (by push_cast; omega)
    have s2 := sum1_step A (2 * ((m + 1 : ℕ) : ℤ) - 1) (by push_cast; omega)
    have s3 := sum1_step B ((m + 1 : ℕ) : ℤ) (by push_cast; omega)
    have e1 : (2 * ((m + 1 : ℕ) : ℤ) - 1 - 1) = 2 * (m : ℤ) := by push_cast; ring
    have e2 : (((m + 1 : ℕ) : ℤ) - 1) = (m : ℤ) := by push_cast; ring
    rw [e1] at s2; rw [e2] at s3
    have b := h ((m + 1 : ℕ) : ℤ) (by push_cast; omega) (by omega)
    linarith''')
lemma('shr_zero', 'n:int, i:int, j:int', 'implies(n >= 0 and 0 <= i and i <= j and n // powZ(2, i) == 0, n // powZ(2, j) == 0)', '''
  rintro ⟨hn, hi, hj, h⟩
  obtain ⟨a, rfl⟩ := Int.eq_ofNat_of_zero_le hi
  obtain ⟨b, rfl⟩ := Int.eq_ofNat_of_zero_le (hi.trans hj)
  simp only [S.powZ, Int.toNat_natCast] at *
  have h1 : n < 2 ^ a := by
    have a1 := Int.emod_lt_of_pos n (show (0:ℤ) < 2 ^ a by positivity)
    have a2 := Int.emod_add_mul_ediv n (2 ^ a)
    rw [h, mul_zero, add_zero] at a2
    rwa [a2] at a1
  exact Int.ediv_eq_zero_of_lt hn (h1.trans_le (pow_le_pow_right₀ (by norm_num) (by exact_mod_cast hj)))''')
fn('sumrow', 'fn[tuple[int,int],int], int, int -> int', 'fun A i k => ∑ j ∈ Finset.Icc 1 k.toNat, A (i, (j:ℤ))')
lemma('sumrow_zero', 'A:fn[tuple[int,int],int], i:int', 'sumrow(A, i, 0) == 0', 'simp [S.sumrow]')
lemma('sumrow_step', 'A:fn[tuple[int,int],int], i:int, k:int', 'implies(k >= 1, sumrow(A, i, k) == sumrow(A, i, k - 1) + A[(i, k)])', '''
  intro h
  exact sum1_step (fun j => A (i, j)) k h''')
lemma('sumrow_half', 'A:fn[tuple[int,int],int], i:int, k:int', '''implies(k >= 0 and forall(j, 1, k + 1, A[(i + 1, j)] == A[(i, 2 * j - 1)] + A[(i, 2 * j)]),
  sumrow(A, i, 2 * k) == sumrow(A, i + 1, k))''', '''
  intro h
  exact sum1_half (fun j => A (i, j)) (fun j => A (i + 1, j)) k h''')
raw('''
def optP (F : ℤ → Option ℤ) : ℤ → ℤ := fun x => (F x).getD x
theorem optP_upd (F : ℤ → Option ℤ) (v r : ℤ) : optP (Function.update F v (some r)) = Function.update (optP F) v r := by
  funext x
  by_cases e : x = v
  · subst e; simp [optP]
  · simp [optP, Function.update_of_ne e]
''')
fn('leadsN', 'fn[int,opt[int]], int, int -> bool', 'fun F x r => F r = none ∧ S.leads (optP F) x r')
lemma('leadsN_step', 'F:fn[int,opt[int]], x:int, y:int, r:int', 'implies(F[x] == some(y), iff(leadsN(F, x, r), leadsN(F, y, r)))', '''
  intro h
  have e : optP F x = y := by simp [optP, h]
  simp only [S.leadsN, leads_step (optP F) x r, e]''')
lemma('leadsN_root', 'F:fn[int,opt[int]], r:int, s:int', 'implies(F[r] is None, leadsN(F, r, r) and implies(leadsN(F, r, s), s == r))', '''
  intro h
  have e : optP F r = r := by simp [optP, h]
  have := leads_root (optP F) r s e
  exact ⟨⟨h, this.1⟩, fun h2 => this.2 h2.2⟩''')
lemma('leadsN_uniq', 'F:fn[int,opt[int]], x:int, r:int, s:int', 'implies(leadsN(F, x, r), F[r] is None and implies(leadsN(F, x, s), r == s))', '''
  intro h
  exact ⟨h.1, fun h2 => leads_uniq (optP F) x r s ⟨h.2, h2.2⟩⟩''')
lemma('leadsN_compress', 'F:fn[int,opt[int]], v:int, r:int, x:int, s:int', 'implies(leadsN(F, v, r) and v != r, iff(leadsN(upd(F, v, some(r)), x, s), leadsN(F, x, s)))', '''
  rintro ⟨h, hv⟩
  have hc := leads_compress (optP F) v r x s h.2
  simp only [S.leadsN, optP_upd, hc]
  by_cases e : s = v
  · subst e
    constructor
    · rintro ⟨a, _⟩; simp at a
    · rintro ⟨_, b⟩
      have : optP F s = s := b.1
      exact absurd ((leads_root _ s r this).2 h.2).symm hv
  · rw [Function.update_of_ne e]''')
lemma('leadsN_link', 'F:fn[int,opt[int]], a:int, b:int, x:int, s:int', '''implies(F[a] is None and F[b] is None and a != b,
  iff(leadsN(upd(F, a, some(b)), x, s), (leadsN(F, x, s) and s != a) or (leadsN(F, x, a) and s == b)))''', '''
  rintro ⟨ha, hb, hab⟩
  have ea : optP F a = a := by simp [optP, ha]
  have eb : optP F b = b := by simp [optP, hb]
  have hc := leads_link (optP F) a b x s ⟨ea, eb, hab⟩
  simp only [S.leadsN, optP_upd, hc]
  by_cases e : s = a
  · subst e
    simp [hab]
  · rw [Function.update_of_ne e]
    constructor
    · rintro ⟨h1, h2 | h2⟩
      · exact Or.inl ⟨⟨h1, h2.1⟩, h2.2⟩
      · exact Or.inr ⟨⟨ha, h2.1⟩, h2.2⟩
    · rintro (h2 | h2)
      · exact ⟨h2.1.1, Or.inl ⟨h2.1.2, e⟩⟩
      · exact ⟨by rw [h2.2]; exact hb, Or.inr ⟨h2.1.2, h2.2⟩⟩''')
