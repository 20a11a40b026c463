"""Convergents of square roots and Pell's equation."""
from pyvc.theory import begin, fn, lemma, raw
begin('pell', ['cf', 'class', 'arith'])
raw('''
noncomputable def gx (x : ℝ) : ℕ → ℝ
  | 0 => x
  | n + 1 => (Int.fract (gx x n))⁻¹
theorem gx_succ (x : ℝ) (n : ℕ) : gx x (n + 1) = gx (Int.fract x)⁻¹ n := by
  induction n with
  | zero => rfl
  | succ n ih => rw [gx, ih, gx]
theorem cfx_gx (d : ℤ) (n : ℕ) : cfx d n = gx (Real.sqrt d) n := by
  induction n with
  | zero => rfl
  | succ n ih => rw [cfx, ih, gx]
theorem cvs_shift (a : ℕ → ℤ) (n : ℕ) :
    (cvs a (n + 1)).1.1 = a 0 * (cvs (fun k => a (k + 1)) n).1.1 + (cvs (fun k => a (k + 1)) n).1.2 ∧
    (cvs a (n + 1)).1.2 = (cvs (fun k => a (k + 1)) n).1.1 ∧
    (cvs a (n + 1)).2.1 = a 0 * (cvs (fun k => a (k + 1)) n).2.1 + (cvs (fun k => a (k + 1)) n).2.2 ∧
    (cvs a (n + 1)).2.2 = (cvs (fun k => a (k + 1)) n).2.1 := by
  induction n with
  | zero => simp [cvs]
  | succ n ih =>
    obtain ⟨h1, h2, h3, h4⟩ := ih
    have e : ∀ b : ℕ → ℤ, ∀ m, cvs b (m + 1) = ((cvs b m).2, (b m * (cvs b m).2.1 + (cvs b m).1.1, b m * (cvs b m).2.2 + (cvs b m).1.2)) := fun _ _ => rfl
    rw [e a (n + 1)]
    simp only
    rw [e (fun k => a (k + 1)) n]
    simp only
    rw [h1, h2, h3, h4]
    refine ⟨rfl, rfl, ?_, ?_⟩ <;> ring
theorem cvs_det (a : ℕ → ℤ) (n : ℕ) : (cvs a n).2.1 * (cvs a n).1.2 - (cvs a n).1.1 * (cvs a n).2.2 = (-1) ^ n := by
  induction n with
  | zero => simp [cvs]
  | succ n ih =>
    have e : cvs a (n + 1) = ((cvs a n).2, (a n * (cvs a n).2.1 + (cvs a n).1.1, a n * (cvs a n).2.2 + (cvs a n).1.2)) := rfl
    rw [e]; simp only
    rw [pow_succ, ← ih]; ring
/-- positivity when the partial quotients are ≥ 1 -/
theorem cvs_pos (a : ℕ → ℤ) (h : ∀ k, 1 ≤ a k) (n : ℕ) : 0 ≤ (cvs a n).1.1 ∧ 1 ≤ (cvs a n).2.1 := by
  induction n with
  | zero => simp [cvs]
  | succ n ih =>
    have e : cvs a (n + 1) = ((cvs a n).2, (a n * (cvs a n).2.1 + (cvs a n).1.1, a n * (cvs a n).2.2 + (cvs a n).1.2)) := rfl
    rw [e]; simp only
    have := h n
    constructor
    · omega
    · nlinarith
theorem gx_ge1 (x : ℝ) (hx : Irrational x) (n : ℕ) : 1 ≤ ⌊gx x (n + 1)⌋ ∧ Irrational (gx x n) := by
  have hir : ∀ n, Irrational (gx x n) := by
    intro n
    induction n with
    | zero => exact hx
    | succ n ih =>
      rw [gx]
      rw [irrational_inv_iff]
      exact ih.sub_intCast _
  refine ⟨?_, hir n⟩
  rw [Int.le_floor, gx]
  have h1 := Int.fract_lt_one (gx x n)
  have h0 : 0 < Int.fract (gx x n) := by
    rcases (Int.fract_nonneg (gx x n)).lt_or_eq with h | h
    · exact h
    · exact absurd (((hir n).sub_intCast ⌊gx x n⌋)) (by rw [← Int.fract, ← h]; exact not_irrational_zero)
  push_cast
  exact (one_le_inv₀ h0).2 h1.le
theorem conv_eq (n : ℕ) : ∀ x : ℝ, Irrational x →
    (x.convergent n : ℚ) = ((cvs (fun k => ⌊gx x k⌋) (n + 1)).2.1 : ℚ) / ((cvs (fun k => ⌊gx x k⌋) (n + 1)).2.2 : ℚ) := by
  induction n with
  | zero => intro x _; simp [cvs, gx]
  | succ n ih =>
    intro x hx
    have hx' : Irrational (Int.fract x)⁻¹ := (gx_ge1 x hx 1).2
    have hs := cvs_shift (fun k => ⌊gx x k⌋) (n + 1)
    have hsh : (fun k => (fun k => ⌊gx x k⌋) (k + 1)) = (fun k => ⌊gx (Int.fract x)⁻¹ k⌋) := by
      funext k; simp only [gx_succ]
    rw [hsh] at hs
    rw [Real.convergent_succ, ih _ hx', hs.2.2.1, hs.2.2.2]
    have hpos := (cvs_pos (fun k => ⌊gx (Int.fract x)⁻¹ k⌋) (by intro k; rw [← gx_succ]; exact (gx_ge1 x hx k).1) (n + 1)).2
    have : ((cvs (fun k => ⌊gx (Int.fract x)⁻¹ k⌋) (n + 1)).2.1 : ℚ) ≠ 0 := by exact_mod_cast (by omega)
    have g0 : gx x 0 = x := rfl
    rw [inv_div, g0]
    push_cast
    rw [add_div, mul_div_assoc, div_self this, mul_one]
''')
raw('''
theorem sqrt_irr (d : ℤ) (hd : 0 ≤ d) (hs : ¬ S.issq d) : Irrational (Real.sqrt d) := by
  obtain ⟨d, rfl⟩ := Int.eq_ofNat_of_zero_le hd
  have : ¬ IsSquare d := by
    rintro ⟨r, hr⟩
    exact hs ⟨r, by rw [hr]; push_cast; rfl⟩
  have h := irrational_sqrt_natCast_iff.2 this
  simpa using h
theorem cfa_pos (d : ℤ) (hd : 0 ≤ d) (hs : ¬ S.issq d) (n : ℕ) : 1 ≤ ⌊cfx d n⌋ := by
  cases n with
  | zero =>
    obtain ⟨b0, b1, b2, b3, b4⟩ := isq_bounds d hd hs
    rw [Int.le_floor]
    simp only [cfx]
    have : (1:ℤ) ≤ d := by omega
    have : (1:ℝ) ≤ d := by exact_mod_cast this
    push_cast
    exact Real.one_le_sqrt.2 this
  | succ n => rw [cfx_gx]; exact (gx_ge1 _ (sqrt_irr d hd hs) n).1
theorem cv_B (d : ℤ) (hd : 0 ≤ d) (hs : ¬ S.issq d) (n : ℕ) :
    0 ≤ (cvs (fun k => ⌊cfx d k⌋) (n + 1)).1.2 ∧ 1 ≤ (cvs (fun k => ⌊cfx d k⌋) (n + 1)).2.2 ∧
    (cvs (fun k => ⌊cfx d k⌋) (n + 1)).1.2 ≤ (cvs (fun k => ⌊cfx d k⌋) (n + 1)).2.2 ∧
    1 ≤ (cvs (fun k => ⌊cfx d k⌋) (n + 1)).1.1 ∧ (cvs (fun k => ⌊cfx d k⌋) (n + 1)).1.1 ≤ (cvs (fun k => ⌊cfx d k⌋) (n + 1)).2.1 := by
  have hp := cfa_pos d hd hs
  induction n with
  | zero =>
    simp only [cvs]
    have := hp 0
    refine ⟨le_refl _, ?_, ?_, le_refl _, ?_⟩ <;> omega
  | succ n ih =>
    obtain ⟨h1, h2, h3, h4, h5⟩ := ih
    have e : cvs (fun k => ⌊cfx d k⌋) (n + 1 + 1) = ((cvs (fun k => ⌊cfx d k⌋) (n + 1)).2, (⌊cfx d (n + 1)⌋ * (cvs (fun k => ⌊cfx d k⌋) (n + 1)).2.1 + (cvs (fun k => ⌊cfx d k⌋) (n + 1)).1.1, ⌊cfx d (n + 1)⌋ * (cvs (fun k => ⌊cfx d k⌋) (n + 1)).2.2 + (cvs (fun k => ⌊cfx d k⌋) (n + 1)).1.2)) := rfl
    rw [e]; simp only
    have := hp (n + 1)
    refine ⟨by omega, ?_, ?_, by omega, ?_⟩ <;> nlinarith
theorem cv_mono (d : ℤ) (hd : 0 ≤ d) (hs : ¬ S.issq d) (m n : ℕ) (h : m ≤ n) :
    (cvs (fun k => ⌊cfx d k⌋) (m + 1)).2.2 ≤ (cvs (fun k => ⌊cfx d k⌋) (n + 1)).2.2 ∧ (cvs (fun k => ⌊cfx d k⌋) (m + 1)).2.1 ≤ (cvs (fun k => ⌊cfx d k⌋) (n + 1)).2.1 := by
  induction n, h using Nat.le_induction with
  | base => exact ⟨le_refl _, le_refl _⟩
  | succ n hn ih =>
    obtain ⟨h1, h2, h3, h4, h5⟩ := cv_B d hd hs (n + 1)
    have e : (cvs (fun k => ⌊cfx d k⌋) (n + 1 + 1)).1 = (cvs (fun k => ⌊cfx d k⌋) (n + 1)).2 := rfl
    rw [e] at h3 h5
    exact ⟨by omega, by omega⟩
theorem cv_lin (d : ℤ) (hd : 0 ≤ d) (hs : ¬ S.issq d) (n : ℕ) :
    let s := cvs (fun k => ⌊cfx d k⌋) n
    s.2.1 * (cfs d n).1 + s.1.1 * (cfs d n).2 = d * s.2.2 ∧ s.2.2 * (cfs d n).1 + s.1.2 * (cfs d n).2 = s.2.1 := by
  induction n with
  | zero => simp [cvs, cfs]
  | succ n ih =>
    obtain ⟨i1, i2⟩ := ih
    obtain ⟨b0, b1, b2, b3, b4⟩ := isq_bounds d hd hs
    obtain ⟨r1, r2, r3, r4, r5, r6, _⟩ := cf_red d hd hs n
    obtain ⟨st1, st2, st3, st4⟩ := cf_step d n ⟨hd, hs, by omega⟩
    obtain ⟨j1, j2, j3, j4, j5, j6, j7, j8⟩ := cf_step_red d (S.isqrtZ d) _ _ b2 b3 r1 r2 r3 r4 r5 r6 b4
    have hP : (cfs d (n+1)).1 = ((cfs d n).1 + S.isqrtZ d) / (cfs d n).2 * (cfs d n).2 - (cfs d n).1 := rfl
    have hQ : (cfs d (n+1)).2 = (d - (cfs d (n+1)).1 * (cfs d (n+1)).1) / (cfs d n).2 := rfl
    rw [← hP] at j7; rw [← hQ] at j7
    have ha : ⌊cfx d n⌋ = ((cfs d n).1 + S.isqrtZ d) / (cfs d n).2 := by
      simpa [S.cfa, S.cfP, S.cfQ] using st2
    rw [← ha] at hP
    have e : cvs (fun k => ⌊cfx d k⌋) (n + 1) = ((cvs (fun k => ⌊cfx d k⌋) n).2, (⌊cfx d n⌋ * (cvs (fun k => ⌊cfx d k⌋) n).2.1 + (cvs (fun k => ⌊cfx d k⌋) n).1.1, ⌊cfx d n⌋ * (cvs (fun k => ⌊cfx d k⌋) n).2.2 + (cvs (fun k => ⌊cfx d k⌋) n).1.2)) := rfl
    rw [e]; simp only
    generalize (cvs (fun k => ⌊cfx d k⌋) n).2.1 = A at *
    generalize (cvs (fun k => ⌊cfx d k⌋) n).1.1 = A' at *
    generalize (cvs (fun k => ⌊cfx d k⌋) n).2.2 = B at *
    generalize (cvs (fun k => ⌊cfx d k⌋) n).1.2 = B' at *
    generalize (cfs d (n+1)).1 = P' at *
    generalize (cfs d (n+1)).2 = Q' at *
    generalize (cfs d n).1 = P at *
    generalize (cfs d n).2 = Q at *
    generalize ⌊cfx d n⌋ = a at *
    have hQ0 : Q ≠ 0 := by omega
    have k1 : Q * (a * B + B') = P' * B + A := by rw [hP, ← i2]; ring
    have k2 : Q * (a * A + A') = P' * A + d * B := by rw [hP, ← i1]; ring
    constructor
    · apply mul_left_cancel₀ hQ0
      have : Q * ((a * A + A') * P' + A * Q') = (Q * (a * A + A')) * P' + A * (Q * Q') := by ring
      rw [this, j7, k2]
      have : Q * (d * (a * B + B')) = d * (Q * (a * B + B')) := by ring
      rw [this, k1]; ring
    · apply mul_left_cancel₀ hQ0
      have : Q * ((a * B + B') * P' + B * Q') = (Q * (a * B + B')) * P' + B * (Q * Q') := by ring
      rw [this, j7, k1, k2]; ring
theorem cv_norm (d : ℤ) (hd : 0 ≤ d) (hs : ¬ S.issq d) (n : ℕ) :
    let s := cvs (fun k => ⌊cfx d k⌋) n
    s.2.1 * s.2.1 - d * (s.2.2 * s.2.2) = (-1) ^ n * (cfs d n).2 := by
  obtain ⟨i1, i2⟩ := cv_lin d hd hs n
  have i3 := cvs_det (fun k => ⌊cfx d k⌋) n
  simp only
  rw [← i3]
  have : d * ((cvs (fun k => ⌊cfx d k⌋) n).2.2 * (cvs (fun k => ⌊cfx d k⌋) n).2.2) = (d * (cvs (fun k => ⌊cfx d k⌋) n).2.2) * (cvs (fun k => ⌊cfx d k⌋) n).2.2 := by ring
  rw [this, ← i1]
  nth_rewrite 1 [← i2]
  ring
/-- Legendre: every positive solution of x² - d y² = ±1 is a convergent -/
theorem pell_conv (d : ℤ) (hd : 0 ≤ d) (hs : ¬ S.issq d) (x y n : ℤ) (hn : n = 1 ∨ n = -1) (hx : 1 ≤ x) (hy : 1 ≤ y) (h : x * x - d * (y * y) = n) :
    ∃ k : ℕ, x = (cvs (fun k => ⌊cfx d k⌋) (k + 1)).2.1 ∧ y = (cvs (fun k => ⌊cfx d k⌋) (k + 1)).2.2 := by
  obtain ⟨b0, b1, b2, b3, b4⟩ := isq_bounds d hd hs
  have hirr := sqrt_irr d hd hs
  have hcop : IsCoprime x y := by
    rcases hn with rfl | rfl
    · exact ⟨x, -(d * y), by linarith⟩
    · exact ⟨-x, d * y, by linarith⟩
  have hd2 : 2 ≤ d := by
    by_contra hc; push_neg at hc
    have : d = 1 := by omega
    exact hs ⟨1, by omega⟩
  have hyR : (0:ℝ) < y := by exact_mod_cast (by omega)
  have hxy : y ≤ x := by
    by_contra hc; push_neg at hc
    rcases hn with rfl | rfl <;> nlinarith
  have hxyR : (y:ℝ) ≤ x := by exact_mod_cast hxy
  have s0 : Real.sqrt d * Real.sqrt d = d := Real.mul_self_sqrt (by exact_mod_cast hd)
  have s1 : 1 < Real.sqrt d := by
    rw [Real.lt_sqrt (by norm_num)]
    have : (2:ℝ) ≤ d := by exact_mod_cast hd2
    linarith
  have hR : (x:ℝ) * x - d * (y * y) = n := by exact_mod_cast h
  set q : ℚ := (x:ℚ) / y with hq
  have hcopN : (x.natAbs).Coprime y.natAbs := Int.isCoprime_iff_gcd_eq_one.1 hcop
  have hden : q.den = y.natAbs := by
    have := Rat.den_div_eq_of_coprime (by omega : 0 < y) hcopN
    rw [← hq] at this
    omega
  have hnum : q.num = x := Rat.num_div_eq_of_coprime (by omega : 0 < y) hcopN
  have hdenR : (q.den : ℝ) = y := by
    rw [hden]
    have h5 : (y.natAbs : ℤ) = y := Int.natAbs_of_nonneg (by omega)
    rw [← Int.cast_natCast, h5]
  have hqR : (q:ℝ) = x / y := by rw [hq]; push_cast; rfl
  have habs : |Real.sqrt d - q| < 1 / (2 * (q.den:ℝ) ^ 2) := by
    rw [hdenR, hqR]
    have hsum : 2 * (y:ℝ) < Real.sqrt d * y + x := by nlinarith
    have hprod : (Real.sqrt d - x / y) * ((Real.sqrt d * y + x) * y) = -n := by
      have : (Real.sqrt d - x / y) * ((Real.sqrt d * y + x) * y) = (Real.sqrt d * Real.sqrt d) * (y * y) - x * x := by field_simp; ring
      rw [this, s0, ← hR]; ring
    have hpos : 0 < (Real.sqrt d * y + x) * y := by positivity
    have h1 : |Real.sqrt d - x / y| * ((Real.sqrt d * y + x) * y) = 1 := by
      rw [← abs_of_pos hpos, ← abs_mul, hprod]
      rcases hn with rfl | rfl <;> simp
    rw [lt_div_iff₀ (by positivity)]
    have hlt : 2 * (y:ℝ) ^ 2 < (Real.sqrt d * y + x) * y := by nlinarith
    have hane : |Real.sqrt d - x / y| ≠ 0 := by
      intro h0; rw [h0, zero_mul] at h1; norm_num at h1
    have hap := lt_of_le_of_ne (abs_nonneg _) hane.symm
    calc _ < |Real.sqrt d - x / y| * ((Real.sqrt d * y + x) * y) := mul_lt_mul_of_pos_left hlt hap
      _ = 1 := h1
  obtain ⟨k, hk⟩ := Real.exists_rat_eq_convergent habs
  refine ⟨k, ?_⟩
  have hce := conv_eq k _ hirr
  have hfun : (fun k => ⌊gx (Real.sqrt d) k⌋) = (fun k => ⌊cfx d k⌋) := by funext k; rw [cfx_gx]
  rw [hfun] at hce
  obtain ⟨c1, c2, c3, c4, c5⟩ := cv_B d hd hs k
  have hdet := cvs_det (fun k => ⌊cfx d k⌋) (k + 1)
  generalize (cvs (fun k => ⌊cfx d k⌋) (k + 1)).2.1 = A at *
  generalize (cvs (fun k => ⌊cfx d k⌋) (k + 1)).2.2 = B at *
  generalize (cvs (fun k => ⌊cfx d k⌋) (k + 1)).1.1 = A' at *
  generalize (cvs (fun k => ⌊cfx d k⌋) (k + 1)).1.2 = B' at *
  have hcop2 : IsCoprime A B := by
    rcases neg_one_pow_eq_or ℤ (k + 1) with e | e
    · exact ⟨B', -A', by rw [e] at hdet; linarith⟩
    · exact ⟨-B', A', by rw [e] at hdet; linarith⟩
  have hcopN2 : (A.natAbs).Coprime B.natAbs := Int.isCoprime_iff_gcd_eq_one.1 hcop2
  rw [← hk] at hce
  have n2 := Rat.num_div_eq_of_coprime (by omega : 0 < B) hcopN2
  have d2 := Rat.den_div_eq_of_coprime (by omega : 0 < B) hcopN2
  rw [← hce] at n2 d2
  rw [hden] at d2
  exact ⟨by omega, by omega⟩
''')
fn('pellsol', 'int, int, int, int -> bool', 'fun d n x y => 1 ≤ x ∧ 1 ≤ y ∧ x * x - d * (y * y) = n')
lemma('pell_def', 'd:int, n:int, x:int, y:int', 'iff(pellsol(d, n, x, y), 1 <= x and 1 <= y and x * x - d * (y * y) == n)', 'exact Iff.rfl')
lemma('pell_first', 'd:int, n:int, k:int', '''implies(d >= 0 and not issq(d) and (n == 1 or n == -1) and k >= 0 and
  forall(j, 0, k, cvA(d, j) * cvA(d, j) - d * cvB(d, j) * cvB(d, j) != n) and cvA(d, k) * cvA(d, k) - d * cvB(d, k) * cvB(d, k) == n,
  pellsol(d, n, cvA(d, k), cvB(d, k)) and
  forallT(int, x, forallT(int, y, implies(pellsol(d, n, x, y), cvA(d, k) <= x and cvB(d, k) <= y), pellsol(d, n, x, y))))''', '''
rintro ⟨hd, hs, hn, hk, hj, he⟩
obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le hk
have eA : ∀ j : ℕ, S.cvA d j = (cvs (fun k => ⌊cfx d k⌋) (j + 1)).2.1 := by
  intro j; have : ((j:ℤ) + 2).toNat = j + 2 := by omega
  simp only [S.cvA, this]; rfl
have eB : ∀ j : ℕ, S.cvB d j = (cvs (fun k => ⌊cfx d k⌋) (j + 1)).2.2 := by
  intro j; have : ((j:ℤ) + 2).toNat = j + 2 := by omega
  simp only [S.cvB, this]; rfl
obtain ⟨c1, c2, c3, c4, c5⟩ := cv_B d hd hs k
rw [eA, eB] at *
refine ⟨⟨by omega, c2, by rw [← he]; ring⟩, ?_⟩
rintro x y ⟨hx, hy, hxy⟩
obtain ⟨j, hA, hB⟩ := pell_conv d hd hs x y n hn hx hy hxy
have hkj : k ≤ j := by
  by_contra hc; push_neg at hc
  apply hj j (by omega) (by exact_mod_cast hc)
  rw [eA, eB, ← hA, ← hB, ← hxy]; ring
obtain ⟨m1, m2⟩ := cv_mono d hd hs k j hkj
rw [hA, hB]; exact ⟨m2, m1⟩
''')
lemma('pell_odd', 'd:int, m:int', '''implies(d >= 0 and not issq(d) and m >= 1 and m % 2 == 0 and cfa(d, m) == 2 * isqrtZ(d) and forall(i, 1, m, cfa(d, i) != 2 * isqrtZ(d)),
  forallT(int, x, forallT(int, y, not pellsol(d, -1, x, y), pellsol(d, -1, x, y))))''', '''
rintro ⟨hd, hs, hm, hev, hL, hall⟩ x y ⟨hx, hy, hxy⟩
obtain ⟨j, hA, hB⟩ := pell_conv d hd hs x y (-1) (Or.inr rfl) hx hy hxy
have hnorm := cv_norm d hd hs (j + 1)
simp only at hnorm
rw [← hA, ← hB, hxy] at hnorm
obtain ⟨r1, r2, r3, r4, r5, r6, r7⟩ := cf_red d hd hs (j + 1)
obtain ⟨q1, q2⟩ := r7 (by omega)
obtain ⟨b0, b1, b2, b3, b4⟩ := isq_bounds d hd hs
have hodd : (-1 : ℤ) ^ (j + 1) = -1 ∧ (cfs d (j + 1)).2 = 1 := by
  rcases neg_one_pow_eq_or ℤ (j + 1) with e | e
  · rw [e] at hnorm; omega
  · exact ⟨e, by rw [e] at hnorm; omega⟩
have hP : (cfs d (j + 1)).1 = S.isqrtZ d := by rw [hodd.2] at q2; omega
have hcf : S.cfa d ((j:ℤ) + 1) = 2 * S.isqrtZ d := by
  obtain ⟨_, st, _, _⟩ := cf_step d ((j:ℤ) + 1) ⟨hd, hs, by omega⟩
  have e : ((j:ℤ) + 1).toNat = j + 1 := by omega
  simp only [S.cfP, S.cfQ, e, hodd.2, hP] at st
  rw [st]; simp; ring
have hper := (cf_period d m ⟨hd, hs, hm, hL⟩).1 ((j:ℤ) + 1) (by omega)
rw [hcf] at hper
have hj : ((j:ℤ) + 1 - 1) % m = m - 1 := by
  by_contra hc
  have h1 := Int.emod_nonneg ((j:ℤ) + 1 - 1) (by omega : m ≠ 0)
  have h2 := Int.emod_lt_of_pos ((j:ℤ) + 1 - 1) (by omega : 0 < m)
  exact hall (1 + ((j:ℤ) + 1 - 1) % m) (by omega) (by omega) hper.symm
have hdvd : (2:ℤ) ∣ (j:ℤ) + 1 := by
  have h3 : m ∣ (j:ℤ) + 1 := by
    have := Int.mul_ediv_add_emod ((j:ℤ) + 1 - 1) m
    exact ⟨((j:ℤ) + 1 - 1) / m + 1, by rw [mul_add, mul_one]; linarith⟩
  exact dvd_trans (Int.dvd_of_emod_eq_zero hev) h3
have hE : Even (j + 1) := by
  obtain ⟨c, hc⟩ := hdvd
  exact ⟨c.toNat, by omega⟩
rw [hE.neg_one_pow] at hodd
omega
''')
