"""Continued fractions of square roots."""
from pyvc.theory import begin, fn, lemma, raw
begin('cf', ['class', 'arith'])
raw('''
noncomputable def cfx (d : ℤ) : ℕ → ℝ
  | 0 => Real.sqrt d
  | n + 1 => (Int.fract (cfx d n))⁻¹
def cfs (d : ℤ) : ℕ → ℤ × ℤ
  | 0 => (0, 1)
  | n + 1 =>
    let s := cfs d n
    let a := (s.1 + Nat.sqrt d.toNat) / s.2
    let P := a * s.2 - s.1
    (P, (d - P * P) / s.2)
''')
fn('isqrtZ', 'int -> int', 'fun d => (Nat.sqrt d.toNat : ℤ)')
fn('cfa', 'int, int -> int', 'fun d i => ⌊cfx d i.toNat⌋')
fn('cfP', 'int, int -> int', 'fun d i => (cfs d i.toNat).1')
fn('cfQ', 'int, int -> int', 'fun d i => (cfs d i.toNat).2')
raw('''
theorem isq_bounds (d : ℤ) (hd : 0 ≤ d) (hs : ¬ S.issq d) : 0 < d ∧ 0 ≤ S.isqrtZ d ∧ S.isqrtZ d * S.isqrtZ d < d ∧ d < (S.isqrtZ d + 1) * (S.isqrtZ d + 1) ∧ 1 ≤ S.isqrtZ d := by
  obtain ⟨d, rfl⟩ := Int.eq_ofNat_of_zero_le hd
  simp only [S.isqrtZ, Int.toNat_natCast]
  have h1 : (Nat.sqrt d : ℤ) * Nat.sqrt d ≤ d := by exact_mod_cast Nat.sqrt_le d
  have h2 : (d:ℤ) < (Nat.sqrt d + 1) * (Nat.sqrt d + 1) := by exact_mod_cast Nat.lt_succ_sqrt d
  have h3 : (Nat.sqrt d : ℤ) * Nat.sqrt d ≠ d := fun h => hs ⟨_, h⟩
  have h0 : (d:ℤ) ≠ 0 := fun h => hs ⟨0, by omega⟩
  have h4 : 0 < (Nat.sqrt d : ℤ) := by
    have : 0 < d := by omega
    exact_mod_cast Nat.sqrt_pos.2 this
  refine ⟨by omega, by omega, lt_of_le_of_ne h1 h3, h2, by omega⟩

theorem cf_step_red (d r P Q : ℤ) (h1 : r * r < d) (h2 : d < (r + 1) * (r + 1)) (hQ : 1 ≤ Q) (hd : Q ∣ d - P * P)
    (hP0 : 0 ≤ P) (hP : P ≤ r) (hQ2 : Q ≤ r + P) (hQ3 : r - P < Q ∨ Q = 1) (hr : 1 ≤ r) :
    let P' := (P + r) / Q * Q - P
    let Q' := (d - P' * P') / Q
    1 ≤ Q' ∧ Q' ∣ d - P' * P' ∧ 1 ≤ P' ∧ P' ≤ r ∧ Q' ≤ r + P' ∧ r - P' < Q' ∧ Q * Q' = d - P' * P' ∧ r - P' < Q := by
  intro P' Q'
  have e1 := Int.mul_ediv_add_emod (P + r) Q
  have e2 := Int.emod_nonneg (P + r) (by omega : Q ≠ 0)
  have e3 := Int.emod_lt_of_pos (P + r) (by omega : 0 < Q)
  have ha : 1 ≤ (P + r) / Q := by
    rw [Int.le_ediv_iff_mul_le (by omega)]; omega
  have hP'r : P' ≤ r := by simp only [P']; nlinarith
  have hP'q : r - P' < Q := by simp only [P']; nlinarith
  have hPP : Q ≤ P' + P := by simp only [P']; nlinarith
  have hP'1 : 1 ≤ P' := by
    rcases lt_or_ge r Q with h | h
    · omega
    · omega
  have hdv : Q ∣ d - P' * P' := by
    have : d - P' * P' = (d - P * P) - Q * ((P + r) / Q * (P' - P)) := by simp only [P']; ring
    rw [this]; exact dvd_sub hd (dvd_mul_right _ _)
  have hQQ : Q * Q' = d - P' * P' := Int.mul_ediv_cancel' hdv
  have hpos : 0 < d - P' * P' := by nlinarith
  have hQ'1 : 1 ≤ Q' := by
    by_contra hc; push_neg at hc
    nlinarith
  refine ⟨hQ'1, ⟨Q, by rw [← hQQ]; ring⟩, hP'1, hP'r, ?_, ?_, hQQ, hP'q⟩
  · by_contra hc; push_neg at hc
    have a1 : r + 1 + P' ≤ Q' := by omega
    have a2 : r + 1 - P' ≤ Q := by omega
    have a3 : 0 ≤ r + 1 - P' := by omega
    have := mul_le_mul a2 a1 (by omega) (by omega)
    nlinarith
  · by_contra hc; push_neg at hc
    have a2 : Q ≤ r + P' := by omega
    have := mul_le_mul a2 hc (by omega) (by omega)
    nlinarith

theorem cf_red (d : ℤ) (hd : 0 ≤ d) (hs : ¬ S.issq d) (n : ℕ) :
    let r := S.isqrtZ d
    let P := (cfs d n).1
    let Q := (cfs d n).2
    1 ≤ Q ∧ Q ∣ d - P * P ∧ 0 ≤ P ∧ P ≤ r ∧ Q ≤ r + P ∧ (r - P < Q ∨ Q = 1) ∧ (1 ≤ n → 1 ≤ P ∧ r - P < Q) := by
  obtain ⟨b0, b1, b2, b3, b4⟩ := isq_bounds d hd hs
  induction n with
  | zero => simp only [cfs]; refine ⟨le_refl _, one_dvd _, le_refl _, b1, by omega, Or.inr trivial, by omega⟩
  | succ n ih =>
    obtain ⟨i1, i2, i3, i4, i5, i6, i7⟩ := ih
    obtain ⟨j1, j2, j3, j4, j5, j6, j7, j8⟩ := cf_step_red d (S.isqrtZ d) _ _ b2 b3 i1 i2 i3 i4 i5 i6 b4
    exact ⟨j1, j2, le_trans zero_le_one j3, j4, j5, Or.inl j6, fun _ => ⟨j3, j6⟩⟩

theorem cf_floor (d : ℤ) (r P Q : ℤ) (hr : 0 ≤ r) (h1 : r * r < d) (h2 : d < (r + 1) * (r + 1)) (hQ : 1 ≤ Q) :
    ⌊((P:ℝ) + Real.sqrt d) / Q⌋ = (P + r) / Q := by
  have s1 : (r:ℝ) ≤ Real.sqrt d := Real.le_sqrt_of_sq_le (by exact_mod_cast (by nlinarith : r ^ 2 ≤ d))
  have s2 : Real.sqrt d < (r:ℝ) + 1 := by
    rw [Real.sqrt_lt' (by exact_mod_cast (by omega : 0 < r + 1))]
    exact_mod_cast (by nlinarith : d < (r + 1) ^ 2)
  have hQ' : (0:ℝ) < Q := by exact_mod_cast hQ
  have e1 := Int.mul_ediv_add_emod (P + r) Q
  have e2 := Int.emod_nonneg (P + r) (by omega : Q ≠ 0)
  have e3 := Int.emod_lt_of_pos (P + r) (by omega : 0 < Q)
  rw [Int.floor_eq_iff]
  constructor
  · rw [le_div_iff₀ hQ']
    have : ((P + r) / Q) * Q ≤ P + r := by nlinarith
    have h : ((((P + r) / Q : ℤ) : ℝ)) * Q ≤ P + r := by exact_mod_cast this
    linarith
  · rw [div_lt_iff₀ hQ']
    have : P + r + 1 ≤ ((P + r) / Q + 1) * Q := by nlinarith
    have h : (P:ℝ) + r + 1 ≤ ((((P + r) / Q : ℤ) : ℝ) + 1) * Q := by exact_mod_cast this
    linarith

theorem cf_x (d : ℤ) (hd : 0 ≤ d) (hs : ¬ S.issq d) (n : ℕ) : cfx d n = (((cfs d n).1 : ℝ) + Real.sqrt d) / ((cfs d n).2 : ℝ) := by
  obtain ⟨b0, b1, b2, b3, b4⟩ := isq_bounds d hd hs
  induction n with
  | zero => simp [cfx, cfs]
  | succ n ih =>
    obtain ⟨i1, i2, i3, i4, i5, i6, i7⟩ := cf_red d hd hs n
    obtain ⟨j1, j2, j3, j4, j5, j6, j7, j8⟩ := cf_step_red d (S.isqrtZ d) _ _ b2 b3 i1 i2 i3 i4 i5 i6 b4
    have hP : (cfs d (n+1)).1 = ((cfs d n).1 + S.isqrtZ d) / (cfs d n).2 * (cfs d n).2 - (cfs d n).1 := rfl
    have hQ : (cfs d (n+1)).2 = (d - (cfs d (n+1)).1 * (cfs d (n+1)).1) / (cfs d n).2 := rfl
    rw [← hP] at j1 j2 j3 j4 j5 j6 j7 j8
    rw [← hQ] at j1 j2 j5 j6 j7
    have hfl := cf_floor d (S.isqrtZ d) (cfs d n).1 (cfs d n).2 b1 b2 b3 i1
    have s0 : Real.sqrt d * Real.sqrt d = d := Real.mul_self_sqrt (by exact_mod_cast hd)
    have hQp : (0:ℝ) < ((cfs d n).2 : ℝ) := by exact_mod_cast i1
    have hQp' : (0:ℝ) < ((cfs d (n+1)).2 : ℝ) := by exact_mod_cast j1
    have j7' : ((cfs d n).2 : ℝ) * ((cfs d (n+1)).2 : ℝ) = d - ((cfs d (n+1)).1:ℝ) * (cfs d (n+1)).1 := by exact_mod_cast j7
    have hPr : ((cfs d (n+1)).1 : ℝ) = ((((cfs d n).1 + S.isqrtZ d) / (cfs d n).2 : ℤ) : ℝ) * (cfs d n).2 - (cfs d n).1 := by exact_mod_cast hP
    have s1 : ((S.isqrtZ d:ℤ):ℝ) < Real.sqrt d := Real.lt_sqrt_of_sq_lt (by exact_mod_cast (by nlinarith : (S.isqrtZ d) ^ 2 < d))
    have hlt : ((cfs d (n+1)).1 : ℝ) < Real.sqrt d := lt_of_le_of_lt (by exact_mod_cast j4) s1
    rw [cfx, Int.fract, ih, hfl]
    have : (((cfs d n).1 : ℝ) + Real.sqrt d) / ((cfs d n).2 : ℝ) - ((((cfs d n).1 + S.isqrtZ d) / (cfs d n).2 : ℤ) : ℝ)
        = (Real.sqrt d - (cfs d (n+1)).1) / ((cfs d n).2 : ℝ) := by
      rw [hPr]; field_simp; ring
    rw [this, inv_div, div_eq_div_iff (by linarith) (by linarith)]
    nlinarith
''')
lemma('isq_uniq', 'd:int, r:int', 'implies(r >= 0 and r * r <= d and d < (r + 1) * (r + 1), r == isqrtZ(d))', '''
rintro ⟨h0, h1, h2⟩
obtain ⟨r, rfl⟩ := Int.eq_ofNat_of_zero_le h0
obtain ⟨d, rfl⟩ := Int.eq_ofNat_of_zero_le (by nlinarith : 0 ≤ d)
simp only [S.isqrtZ, Int.toNat_natCast]
congr 1
symm
rw [Nat.sqrt_eq_iff_mul_self_eq_or] <;> skip
'''.replace("rw [Nat.sqrt_eq_iff_mul_self_eq_or] <;> skip", '''apply le_antisymm
· have : Nat.sqrt d < r + 1 := Nat.sqrt_lt.2 (by exact_mod_cast h2)
  omega
· exact Nat.le_sqrt.2 (by exact_mod_cast h1)'''))
lemma('cf_zero', 'd:int', 'cfP(d, 0) == 0 and cfQ(d, 0) == 1', 'exact ⟨rfl, rfl⟩')
lemma('cf_step', 'd:int, i:int', '''implies(d >= 0 and not issq(d) and i >= 0, cfQ(d, i) >= 1 and cfa(d, i) == (cfP(d, i) + isqrtZ(d)) // cfQ(d, i) and
  cfP(d, i + 1) == cfa(d, i) * cfQ(d, i) - cfP(d, i) and cfQ(d, i + 1) == (d - cfP(d, i + 1) * cfP(d, i + 1)) // cfQ(d, i))''', '''
rintro ⟨hd, hs, hi⟩
obtain ⟨i, rfl⟩ := Int.eq_ofNat_of_zero_le hi
have e : ((i:ℤ) + 1).toNat = i + 1 := by omega
obtain ⟨b0, b1, b2, b3, b4⟩ := isq_bounds d hd hs
obtain ⟨i1, i2, i3, i4, i5, i6, i7⟩ := cf_red d hd hs i
have ha : S.cfa d i = (S.cfP d i + S.isqrtZ d) / S.cfQ d i := by
  simp only [S.cfa, Int.toNat_natCast]
  rw [cf_x d hd hs i]
  exact cf_floor d (S.isqrtZ d) (cfs d i).1 (cfs d i).2 b1 b2 b3 i1
refine ⟨i1, ha, ?_, ?_⟩
· rw [ha]; simp only [S.cfP, S.cfQ, e, Int.toNat_natCast]; rfl
· simp only [S.cfP, S.cfQ, e, Int.toNat_natCast]; rfl
''')
lemma('cf_period', 'd:int, n:int', '''implies(d >= 0 and not issq(d) and n >= 1 and cfa(d, n) == 2 * isqrtZ(d),
  forallT(int, i, implies(i >= 1, cfa(d, i) == cfa(d, 1 + (i - 1) % n)), cfa(d, i)) and cfQ(d, n) == 1)''', '''
rintro ⟨hd, hs, hn, h⟩
obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ n)
obtain ⟨b0, b1, b2, b3, b4⟩ := isq_bounds d hd hs
obtain ⟨i1, i2, i3, i4, i5, i6, i7⟩ := cf_red d hd hs n
obtain ⟨_, st, _, _⟩ := cf_step d n ⟨hd, hs, by omega⟩
simp only [S.cfP, S.cfQ, Int.toNat_natCast] at st
rw [h] at st
have e1 := Int.mul_ediv_add_emod ((cfs d n).1 + S.isqrtZ d) (cfs d n).2
have e2 := Int.emod_nonneg ((cfs d n).1 + S.isqrtZ d) (by omega : (cfs d n).2 ≠ 0)
rw [← st] at e1
have hQ : (cfs d n).2 = 1 := by nlinarith
have hP : (cfs d n).1 = S.isqrtZ d := by rw [hQ] at e1; omega
have hs1 : cfs d (n + 1) = cfs d 1 := by
  have a1 : (cfs d (n+1)) = ((((cfs d n).1 + S.isqrtZ d) / (cfs d n).2 * (cfs d n).2 - (cfs d n).1), (d - (((cfs d n).1 + S.isqrtZ d) / (cfs d n).2 * (cfs d n).2 - (cfs d n).1) * (((cfs d n).1 + S.isqrtZ d) / (cfs d n).2 * (cfs d n).2 - (cfs d n).1)) / (cfs d n).2) := rfl
  have a2 : (cfs d 1) = (((0 + S.isqrtZ d) / 1 * 1 - 0), (d - ((0 + S.isqrtZ d) / 1 * 1 - 0) * ((0 + S.isqrtZ d) / 1 * 1 - 0)) / 1) := rfl
  rw [a1, a2, hQ, hP]
  have : (S.isqrtZ d + S.isqrtZ d) / 1 * 1 - S.isqrtZ d = (0 + S.isqrtZ d) / 1 * 1 - 0 := by simp
  rw [this]
have hp : ∀ k : ℕ, cfs d (n + 1 + k) = cfs d (1 + k) := by
  intro k
  induction k with
  | zero => exact hs1
  | succ k ih =>
    have : ∀ a b : ℕ, cfs d a = cfs d b → cfs d (a + 1) = cfs d (b + 1) := by
      intro a b hab; simp only [cfs, hab]
    exact this _ _ ih
have hx : ∀ k : ℕ, cfx d (n + 1 + k) = cfx d (1 + k) := by
  intro k; rw [cf_x d hd hs, cf_x d hd hs, hp]
have hn0 : 0 < n := by omega
have key : ∀ k : ℕ, cfx d (1 + k) = cfx d (1 + k % n) := by
  intro k
  induction k using Nat.strong_induction_on with
  | _ k ih =>
    rcases lt_or_ge k n with hk | hk
    · rw [Nat.mod_eq_of_lt hk]
    · obtain ⟨j, rfl⟩ := Nat.exists_eq_add_of_le hk
      rw [show 1 + (n + j) = n + 1 + j by omega, hx j, ih j (by omega), Nat.add_mod_left]
refine ⟨?_, hQ⟩
intro i hi
obtain ⟨k, hk⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ i - 1)
have t1 : i.toNat = 1 + k := by omega
have t2 : (1 + (i - 1) % (n:ℤ)).toNat = 1 + k % n := by
  rw [hk]
  have : ((k:ℤ) % (n:ℤ)) = ((k % n : ℕ) : ℤ) := by push_cast; rfl
  rw [this]; omega
simp only [S.cfa, t1, t2]
rw [key k]
''')
raw('''
def cvs (a : ℕ → ℤ) : ℕ → (ℤ × ℤ) × (ℤ × ℤ)
  | 0 => ((0, 1), (1, 0))
  | n + 1 => let s := cvs a n
    (s.2, (a n * s.2.1 + s.1.1, a n * s.2.2 + s.1.2))
''')
fn('cvA', 'int, int -> int', 'fun d i => (cvs (fun k => ⌊cfx d k⌋) (i + 2).toNat).1.1')
fn('cvB', 'int, int -> int', 'fun d i => (cvs (fun k => ⌊cfx d k⌋) (i + 2).toNat).1.2')
lemma('cv_zero', 'd:int', 'cvA(d, -2) == 0 and cvB(d, -2) == 1 and cvA(d, -1) == 1 and cvB(d, -1) == 0', 'exact ⟨rfl, rfl, rfl, rfl⟩')
lemma('cv_succ', 'd:int, i:int', 'implies(i >= 0, cvA(d, i) == cfa(d, i) * cvA(d, i - 1) + cvA(d, i - 2) and cvB(d, i) == cfa(d, i) * cvB(d, i - 1) + cvB(d, i - 2))', '''
intro hi
obtain ⟨i, rfl⟩ := Int.eq_ofNat_of_zero_le hi
have e1 : ((i:ℤ) + 2).toNat = i + 2 := by omega
have e2 : ((i:ℤ) - 1 + 2).toNat = i + 1 := by omega
have e3 : ((i:ℤ) - 2 + 2).toNat = i := by omega
simp only [S.cvA, S.cvB, S.cfa, e1, e2, e3, Int.toNat_natCast, cvs]
exact ⟨trivial, trivial⟩
''')
