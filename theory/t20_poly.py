"""Products and powers of coefficient lists."""
from pyvc.theory import begin, fn, lemma, raw
begin('poly', ['arith'])
ZX = '(if 0 <= %s then if %s < %s then %s[%s] else 0 else 0)'
def zx(a, m, t):
    return 'ite(0 <= %s and %s < %s, %s[%s], 0)' % (t, t, m, a, t)
fn('pconv', 'arr[int], int, arr[int], int, int -> int', '''fun A m B n t => ∑ i ∈ Finset.range m.toNat, if 0 ≤ t - i ∧ t - i < n then A i * B (t - i) else 0''')
V = 'A:arr[int], m:int, B:arr[int], n:int, t:int'
lemma('pconv_zero', V, 'implies(m <= 0, pconv(A, m, B, n, t) == 0)', '''
intro h
simp [S.pconv, Int.toNat_of_nonpos h]
''')
lemma('pconv_row', V, 'implies(m >= 0, pconv(A, m + 1, B, n, t) == pconv(A, m, B, n, t) + ite(0 <= t - m and t - m < n, A[m] * B[t - m], 0))', '''
intro h
simp only [S.pconv]
rw [show (m + 1).toNat = m.toNat + 1 by omega, Finset.sum_range_succ, Int.toNat_of_nonneg h]
''')
lemma('pconv_out', V, 'implies(t < 0 or t >= m + n - 1 or n <= 0 or m <= 0, pconv(A, m, B, n, t) == 0)', '''
intro h
simp only [S.pconv]
apply Finset.sum_eq_zero
intro i hi
rw [Finset.mem_range] at hi
rw [if_neg]
omega
''')
raw('''
noncomputable def psl (A : ℤ → ℤ) (m : ℤ) : PowerSeries ℤ := PowerSeries.mk fun i => if (i : ℤ) < m then A i else 0
theorem pconv_coeff (A : ℤ → ℤ) (m : ℤ) (B : ℤ → ℤ) (n : ℤ) (t : ℕ) : S.pconv A m B n t = PowerSeries.coeff t (psl A m * psl B n) := by
  rw [PowerSeries.coeff_mul, Finset.Nat.sum_antidiagonal_eq_sum_range_succ_mk]
  simp only [psl, PowerSeries.coeff_mk, S.pconv]
  have e : ∀ N, (∑ i ∈ Finset.range N, if 0 ≤ (t : ℤ) - i ∧ (t : ℤ) - i < n then (if (i : ℤ) < m then A i else 0) * B (t - i) else 0) = ∑ i ∈ Finset.range (min N (t + 1)), (if (i : ℤ) < m then A i else 0) * (if ((t - i : ℕ) : ℤ) < n then B ((t - i : ℕ) : ℤ) else 0) := by
    intro N
    rw [← Finset.sum_filter_add_sum_filter_not (Finset.range N) (fun i => i < t + 1)]
    have h2 : ∑ x ∈ (Finset.range N).filter (fun i => ¬ i < t + 1), (if 0 ≤ (t : ℤ) - x ∧ (t : ℤ) - x < n then (if (x : ℤ) < m then A x else 0) * B (t - x) else 0) = 0 := by
      apply Finset.sum_eq_zero
      intro i hi
      rw [Finset.mem_filter] at hi
      rw [if_neg]; omega
    rw [h2, add_zero]
    have h3 : (Finset.range N).filter (fun i => i < t + 1) = Finset.range (min N (t + 1)) := by
      ext x; simp
    rw [h3]
    apply Finset.sum_congr rfl
    intro i hi
    rw [Finset.mem_range] at hi
    have hi2 : i ≤ t := by omega
    rw [Nat.cast_sub hi2]
    by_cases hb : (t : ℤ) - i < n
    · rw [if_pos ⟨by omega, hb⟩, if_pos hb]
    · rw [if_neg (fun h => hb h.2), if_neg hb, mul_zero]
  have e2 : ∑ i ∈ Finset.range m.toNat, (if 0 ≤ (t : ℤ) - i ∧ (t : ℤ) - i < n then A i * B (t - i) else 0) = ∑ i ∈ Finset.range m.toNat, (if 0 ≤ (t : ℤ) - i ∧ (t : ℤ) - i < n then (if (i : ℤ) < m then A i else 0) * B (t - i) else 0) := by
    apply Finset.sum_congr rfl
    intro i hi
    rw [Finset.mem_range] at hi
    rw [if_pos (show (i : ℤ) < m by omega)]
  rw [e2, e]
  by_cases h : m.toNat ≤ t + 1
  · rw [min_eq_left h]
    apply Finset.sum_subset
    · intro x hx; rw [Finset.mem_range] at *; omega
    · intro x _ hx
      rw [Finset.mem_range] at hx
      rw [if_neg (show ¬ (x : ℤ) < m by omega), zero_mul]
  · rw [min_eq_right (by omega)]
theorem pconv_coeff_z (A : ℤ → ℤ) (m : ℤ) (B : ℤ → ℤ) (n : ℤ) (t : ℤ) : S.pconv A m B n t = if t < 0 then 0 else PowerSeries.coeff t.toNat (psl A m * psl B n) := by
  by_cases h : t < 0
  · rw [if_pos h]
    simp only [S.pconv]
    apply Finset.sum_eq_zero
    intro i _
    rw [if_neg]; omega
  · rw [if_neg h, ← pconv_coeff, Int.toNat_of_nonneg (by omega)]
theorem psl_split (A : ℤ → ℤ) (m : ℤ) (A0 : ℤ → ℤ) (m0 : ℤ) (A1 : ℤ → ℤ) (m1 : ℤ) (k : ℤ) (hk : 0 ≤ k)
    (h : ∀ t, (if 0 ≤ t ∧ t < m then A t else 0) = (if 0 ≤ t ∧ t < m0 then A0 t else 0) + (if 0 ≤ t - k ∧ t - k < m1 then A1 (t - k) else 0)) :
    psl A m = psl A0 m0 + PowerSeries.X ^ k.toNat * psl A1 m1 := by
  ext t
  rw [map_add, PowerSeries.coeff_X_pow_mul']
  simp only [psl, PowerSeries.coeff_mk]
  have := h t
  simp only [Nat.cast_nonneg, true_and] at this
  rw [this]
  congr 1
  by_cases hh : k.toNat ≤ t
  · have e1 : ((t - k.toNat : ℕ) : ℤ) = t - k := by omega
    rw [if_pos hh, e1]
    by_cases h2 : (t : ℤ) - k < m1
    · rw [if_pos ⟨by omega, h2⟩, if_pos h2]
    · rw [if_neg (fun h => h2 h.2), if_neg h2]
  · rw [if_neg hh, if_neg]; omega
theorem psl_sum (A : ℤ → ℤ) (m : ℤ) (A0 : ℤ → ℤ) (m0 : ℤ) (A1 : ℤ → ℤ) (m1 : ℤ)
    (h : ∀ t, (if 0 ≤ t ∧ t < m then A t else 0) = (if 0 ≤ t ∧ t < m0 then A0 t else 0) + (if 0 ≤ t ∧ t < m1 then A1 t else 0)) :
    psl A m = psl A0 m0 + psl A1 m1 := by
  have := psl_split A m A0 m0 A1 m1 0 (le_refl _) (by simpa using h)
  simpa using this
''')
def sp(a, m, a0, m0, a1, m1, k):
    return 'forallT(int, y, %s == %s + %s)' % (zx(a, m, 'y'), zx(a0, m0, 'y'), zx(a1, m1, 'y' + k))
lemma('kara', 'A:arr[int], m:int, B:arr[int], n:int, A0:arr[int], m0:int, A1:arr[int], m1:int, B0:arr[int], n0:int, B1:arr[int], n1:int, C:arr[int], c:int, D:arr[int], d:int, k:int, t:int',
  'implies(k >= 0 and %s and %s and %s and %s, pconv(A, m, B, n, t) == pconv(A0, m0, B0, n0, t) + (pconv(C, c, D, d, t - k) - pconv(A1, m1, B1, n1, t - k) - pconv(A0, m0, B0, n0, t - k)) + pconv(A1, m1, B1, n1, t - 2 * k))'
  % (sp('A', 'm', 'A0', 'm0', 'A1', 'm1', ' - k'), sp('B', 'n', 'B0', 'n0', 'B1', 'n1', ' - k'), sp('C', 'c', 'A1', 'm1', 'A0', 'm0', ''), sp('D', 'd', 'B1', 'n1', 'B0', 'n0', '')), '''
rintro ⟨hk, hA, hB, hC, hD⟩
have eA := psl_split A m A0 m0 A1 m1 k hk hA
have eB := psl_split B n B0 n0 B1 n1 k hk hB
have eC := psl_sum C c A1 m1 A0 m0 hC
have eD := psl_sum D d B1 n1 B0 n0 hD
have key : psl A m * psl B n = psl A0 m0 * psl B0 n0 + PowerSeries.X ^ k.toNat * (psl C c * psl D d - psl A1 m1 * psl B1 n1 - psl A0 m0 * psl B0 n0) + PowerSeries.X ^ (2 * k.toNat) * (psl A1 m1 * psl B1 n1) := by
  rw [eA, eB, eC, eD, pow_mul', pow_two]; ring
simp only [pconv_coeff_z]
by_cases h0 : t < 0
· simp only [if_pos h0, if_pos (show t - k < 0 by omega), if_pos (show t - 2 * k < 0 by omega)]; rfl
rw [if_neg h0, if_neg h0, key, map_add, map_add, PowerSeries.coeff_X_pow_mul', PowerSeries.coeff_X_pow_mul', map_sub, map_sub]
congr 1
· congr 1
  by_cases h1 : t - k < 0
  · rw [if_neg (by omega)]; simp [h1]
  · rw [if_pos (by omega), if_neg h1, if_neg h1, if_neg h1, show (t - k).toNat = t.toNat - k.toNat by omega]
· by_cases h1 : t - 2 * k < 0
  · rw [if_neg (by omega), if_pos h1]
  · rw [if_pos (by omega), if_neg h1, show (t - 2 * k).toNat = t.toNat - 2 * k.toNat by omega]
''')
fn('pw', 'arr[int], int, int, int -> int', 'fun A n k t => if t < 0 then 0 else PowerSeries.coeff t.toNat (psl A n ^ k.toNat)')
fn('jsum', 'arr[int], arr[int], int, int, int -> int', 'fun A P k i j => ∑ x ∈ Finset.range (j - 1).toNat, A (x + 1) * ((k + 1) * (x + 1) - i) * P (i - (x + 1))')
J = 'A:arr[int], P:arr[int], k:int, i:int, j:int'
lemma('jsum_one', J, 'implies(j <= 1, jsum(A, P, k, i, j) == 0)', '''
intro h
simp only [S.jsum]
rw [show (j - 1).toNat = 0 by omega, Finset.sum_range_zero]
''')
lemma('jsum_row', J, 'implies(j >= 1, jsum(A, P, k, i, j + 1) == jsum(A, P, k, i, j) + A[j] * ((k + 1) * j - i) * P[i - j])', '''
intro h
simp only [S.jsum]
rw [show (j + 1 - 1).toNat = (j - 1).toNat + 1 by omega, Finset.sum_range_succ]
congr 1
have : (((j - 1).toNat : ℕ) : ℤ) + 1 = j := by omega
rw [this]
''')
raw('''
theorem psl_coeff (A : ℤ → ℤ) (n : ℤ) (t : ℕ) : PowerSeries.coeff t (psl A n) = if (t : ℤ) < n then A t else 0 := by
  simp [psl]
theorem psl_pow_out (A : ℤ → ℤ) (n : ℤ) (hn : 1 ≤ n) (k t : ℕ) (h : (n - 1) * k < t) : PowerSeries.coeff t (psl A n ^ k) = 0 := by
  induction k generalizing t with
  | zero =>
    rw [pow_zero, PowerSeries.coeff_one, if_neg]
    rintro rfl
    simp at h
  | succ k ih =>
    rw [pow_succ, PowerSeries.coeff_mul]
    apply Finset.sum_eq_zero
    rintro ⟨a, b⟩ hab
    rw [Finset.HasAntidiagonal.mem_antidiagonal] at hab
    dsimp only at hab ⊢
    by_cases hb : (b : ℤ) < n
    · rw [ih a (by push_cast at h; nlinarith [show ((a : ℤ) + b) = t by exact_mod_cast hab]), zero_mul]
    · rw [psl_coeff, if_neg hb, mul_zero]
open PowerSeries in
theorem jcp_core (p : PowerSeries ℤ) (k i : ℕ) :
    ∑ x ∈ Finset.range (i + 1), coeff x p * (((k : ℤ) + 1) * x - i) * coeff (i - x) (p ^ k) = 0 := by
  have th : ∀ (f : PowerSeries ℤ) (t : ℕ), coeff t (X * d⁄dX ℤ f) = t * coeff t f := by
    intro f t
    cases t with
    | zero => simp
    | succ t => rw [PowerSeries.coeff_succ_X_mul, PowerSeries.coeff_derivative]; push_cast; ring
  have key : p * (X * d⁄dX ℤ (p ^ k)) = C (k : ℤ) * (X * d⁄dX ℤ p * p ^ k) := by
    rw [Derivation.leibniz_pow]
    cases k with
    | zero => simp
    | succ k =>
      simp only [nsmul_eq_mul, smul_eq_mul, Nat.add_sub_cancel]
      rw [pow_succ]
      have : (C ((k + 1 : ℕ) : ℤ) : PowerSeries ℤ) = ((k + 1 : ℕ) : PowerSeries ℤ) := by simp
      rw [this]
      ring
  have h := congrArg (coeff i) key
  rw [PowerSeries.coeff_C_mul, PowerSeries.coeff_mul, PowerSeries.coeff_mul, Finset.Nat.sum_antidiagonal_eq_sum_range_succ_mk, Finset.Nat.sum_antidiagonal_eq_sum_range_succ_mk, Finset.mul_sum] at h
  simp only [th] at h
  rw [← sub_eq_zero, ← Finset.sum_sub_distrib] at h
  rw [← neg_eq_zero, ← h, ← Finset.sum_neg_distrib]
  apply Finset.sum_congr rfl
  intro x hx
  rw [Finset.mem_range] at hx
  rw [Nat.cast_sub (by omega : x ≤ i)]
  ring
''')
PW = 'A:arr[int], n:int, k:int, t:int'
lemma('pw_out', PW, 'implies(n >= 1 and k >= 0 and (t > (n - 1) * k or t < 0), pw(A, n, k, t) == 0)', '''
rintro ⟨hn, hk, h⟩
simp only [S.pw]
by_cases h0 : t < 0
· rw [if_pos h0]
rw [if_neg h0]
apply psl_pow_out A n hn
have e1 : ((k.toNat : ℕ) : ℤ) = k := Int.toNat_of_nonneg hk
have e2 : ((t.toNat : ℕ) : ℤ) = t := Int.toNat_of_nonneg (by omega)
rw [e1, e2]
omega
''')
lemma('pw_zero', 'A:arr[int], n:int, k:int', 'implies(n >= 1 and k >= 0, pw(A, n, k, 0) == powZ(A[0], k))', '''
rintro ⟨hn, hk⟩
simp only [S.pw, S.powZ]
rw [if_neg (by omega)]
simp only [Int.toNat_zero, PowerSeries.coeff_zero_eq_constantCoeff, map_pow]
congr 1
rw [← PowerSeries.coeff_zero_eq_constantCoeff_apply, psl_coeff, if_pos]
· simp
· push_cast; omega
''')
lemma('pw_one', 'A:arr[int], n:int, t:int', 'pw(A, n, 1, t) == ite(0 <= t and t < n, A[t], 0)', '''
simp only [S.pw]
by_cases h : t < 0
· rw [if_pos h, if_neg (by omega)]
rw [if_neg h]
simp only [Int.toNat_one, pow_one, psl_coeff, Int.toNat_of_nonneg (not_lt.mp h)]
by_cases h2 : t < n
· rw [if_pos h2, if_pos ⟨by omega, h2⟩]
· rw [if_neg h2, if_neg (by tauto)]
''')
lemma('pw_null', PW, 'implies(k >= 0 and forall(j, 0, n, A[j] == 0), pw(A, n, k, t) == ite(t == 0, powZ(0, k), 0))', '''
rintro ⟨hk, h⟩
have e : psl A n = 0 := by
  ext t
  rw [psl_coeff]
  by_cases h2 : (t : ℤ) < n
  · rw [if_pos h2]; simpa using h t (by omega) h2
  · rw [if_neg h2]; simp
simp only [S.pw, S.powZ, e]
by_cases h0 : t < 0
· rw [if_pos h0, if_neg (by omega)]
rw [if_neg h0]
by_cases hk0 : k.toNat = 0
· rw [hk0, pow_zero, pow_zero, PowerSeries.coeff_one]
  by_cases ht : t = 0
  · simp [ht]
  · rw [if_neg (by omega), if_neg ht]
· rw [zero_pow hk0, zero_pow hk0]; simp
''')
lemma('pw_shift', 'A:arr[int], n:int, B:arr[int], s:int, k:int, t:int', 'implies(0 <= s and s <= n and k >= 0 and forall(j, 0, s, A[j] == 0) and forall(j, 0, n - s, B[j] == A[j + s]), pw(A, n, k, t) == pw(B, n - s, k, t - s * k))', '''
rintro ⟨hs, hn, hk, h0, h1⟩
have e : psl A n = PowerSeries.X ^ s.toNat * psl B (n - s) := by
  ext t
  rw [PowerSeries.coeff_X_pow_mul', psl_coeff]
  by_cases h2 : s.toNat ≤ t
  · rw [if_pos h2, psl_coeff]
    have e1 : ((t - s.toNat : ℕ) : ℤ) = t - s := by omega
    rw [e1]
    by_cases h3 : (t : ℤ) < n
    · rw [if_pos h3, if_pos (by omega), h1 (t - s) (by omega) (by omega)]; simp
    · rw [if_neg h3, if_neg (by omega)]
  · rw [if_neg h2]
    by_cases h3 : (t : ℤ) < n
    · rw [if_pos h3]; exact h0 t (by omega) (by omega)
    · rw [if_neg h3]
simp only [S.pw]
rw [e, mul_pow, ← pow_mul]
have e2 : ((s.toNat * k.toNat : ℕ) : ℤ) = s * k := by push_cast; rw [Int.toNat_of_nonneg hs, Int.toNat_of_nonneg hk]
by_cases ht : t < 0
· rw [if_pos ht, if_pos (by nlinarith)]
rw [if_neg ht, PowerSeries.coeff_X_pow_mul']
by_cases h2 : s.toNat * k.toNat ≤ t.toNat
· rw [if_pos h2, if_neg (by omega), show (t - s * k).toNat = t.toNat - s.toNat * k.toNat by omega]
· rw [if_neg h2, if_pos (by omega)]
''')
lemma('jcp', 'A:arr[int], n:int, P:arr[int], k:int, i:int', 'implies(n >= 1 and k >= 0 and i >= 1 and forall(j, 0, i, P[j] == pw(A, n, k, j)), jsum(A, P, k, i, ite(n < i + 1, n, i + 1)) == i * A[0] * pw(A, n, k, i))', '''
rintro ⟨hn, hk, hi, hP⟩
have hc := jcp_core (psl A n) k.toNat i.toNat
rw [Finset.sum_range_succ'] at hc
rw [Int.toNat_of_nonneg hk, Int.toNat_of_nonneg (by omega : 0 ≤ i)] at hc
have e : ∑ x ∈ Finset.range i.toNat, PowerSeries.coeff (x + 1) (psl A n) * ((k + 1) * ((x + 1 : ℕ) : ℤ) - i) * PowerSeries.coeff (i.toNat - (x + 1)) (psl A n ^ k.toNat) = S.jsum A P k i (if n < i + 1 then n else i + 1) := by
  simp only [S.jsum]
  have hle : ((if n < i + 1 then n else i + 1) - 1).toNat ≤ i.toNat := by split_ifs <;> omega
  symm
  rw [← Finset.sum_subset (Finset.range_subset_range.mpr hle)]
  · apply Finset.sum_congr rfl
    intro x hx
    rw [Finset.mem_range] at hx
    have hx1 : (x : ℤ) + 1 < n := by split_ifs at hx <;> omega
    have hx2 : (x : ℤ) + 1 ≤ i := by split_ifs at hx <;> omega
    rw [psl_coeff, if_pos (by push_cast; omega), hP (i - (x + 1)) (by omega) (by omega)]
    simp only [S.pw]
    rw [if_neg (show ¬ i - ((x : ℤ) + 1) < 0 by omega), show (i - (x + 1)).toNat = i.toNat - (x + 1) by omega]
    push_cast
    rfl
  · intro x hx1 hx2
    rw [Finset.mem_range] at hx1 hx2
    rw [psl_coeff, if_neg, zero_mul, zero_mul]
    push_cast
    split_ifs at hx2 <;> omega
rw [e] at hc
have e0 : PowerSeries.coeff 0 (psl A n) = A 0 := by rw [psl_coeff]; simp; intro h; omega
rw [e0] at hc
simp only [S.pw]
rw [if_neg (show ¬ i < 0 by omega)]
simp only [Nat.cast_zero, mul_zero, zero_sub, Nat.sub_zero] at hc
linarith [hc]
''')
lemma('mul_fdiv', 'a:int, b:int', 'implies(a != 0, (a * b) // a == b and (-(a * b)) // (-a) == b)', '''
intro h
constructor
· exact Int.mul_ediv_cancel_left b h
· rw [show -(a * b) = (-a) * b by ring]; exact Int.mul_ediv_cancel_left b (neg_ne_zero.mpr h)
''')
lemma('pconv_rows', V, 'implies(m >= t + 1 and t >= 0, pconv(A, m, B, n, t) == pconv(A, t + 1, B, n, t))', '''
rintro ⟨h, ht⟩
simp only [S.pconv]
symm
apply Finset.sum_subset
· exact Finset.range_subset_range.mpr (by omega)
· intro x _ hx
  rw [Finset.mem_range] at hx
  rw [if_neg]; omega
''')
lemma('pconv_store', 'A:arr[int], m:int, B:arr[int], n:int, k:int, v:int, t:int', 'implies(m >= 1 and 0 <= k and k < n and t <= k, pconv(A, m, upd(B, k, v), n, t) == pconv(A, m, B, n, t) + ite(t == k, A[0] * (v - B[k]), 0))', '''
rintro ⟨hm, hk, hn, ht⟩
simp only [S.pconv]
obtain ⟨M, hM⟩ : ∃ M, m.toNat = M + 1 := ⟨m.toNat - 1, by omega⟩
rw [hM, Finset.sum_range_succ', Finset.sum_range_succ']
have e : ∀ x ∈ Finset.range M, (if 0 ≤ t - ((x + 1 : ℕ) : ℤ) ∧ t - ((x + 1 : ℕ) : ℤ) < n then A ((x + 1 : ℕ) : ℤ) * Function.update B k v (t - ((x + 1 : ℕ) : ℤ)) else 0) = (if 0 ≤ t - ((x + 1 : ℕ) : ℤ) ∧ t - ((x + 1 : ℕ) : ℤ) < n then A ((x + 1 : ℕ) : ℤ) * B (t - ((x + 1 : ℕ) : ℤ)) else 0) := by
  intro x _
  rw [Function.update_of_ne]
  push_cast; omega
rw [Finset.sum_congr rfl e, add_assoc]
congr 1
by_cases h : t = k
· subst h
  simp [hk, hn]; ring
· simp [h, Function.update_of_ne]
''')
fn('psuf', 'arr[int], int, int, int -> int', 'fun A n s x => ∑ j ∈ Finset.range (n - s).toNat, A (s + j) * x ^ j')
lemma('psuf_end', 'A:arr[int], n:int, x:int', 'psuf(A, n, n, x) == 0', 'simp [S.psuf]')
lemma('psuf_step', 'A:arr[int], n:int, s:int, x:int', 'implies(s < n, psuf(A, n, s, x) == A[s] + x * psuf(A, n, s + 1, x))', '''
intro h
simp only [S.psuf]
rw [show (n - s).toNat = (n - (s + 1)).toNat + 1 by omega, Finset.sum_range_succ', Finset.mul_sum, add_comm]
congr 1
· simp
· apply Finset.sum_congr rfl
  intro j _
  push_cast
  rw [show s + ((j : ℤ) + 1) = s + 1 + j by ring]
  ring
''')
lemma('psuf_pows', 'A:arr[int], n:int, s:int, x:int', 'implies(n >= 0, psuf(A, n + 1, 0, x) == psuf(A, n, 0, x) + A[n] * powZ(x, n))', '''
intro h
simp only [S.psuf, S.powZ]
rw [show (n + 1 - 0).toNat = (n - 0).toNat + 1 by omega, Finset.sum_range_succ]
simp [Int.toNat_of_nonneg h]
''')
lemma('pw_mul', 'A:arr[int], n:int, B:arr[int], m:int, b:int, C:arr[int], k:int, c:int, t:int', 'implies(b >= 0 and c >= 0 and forallT(int, y, %s == pw(A, n, b, y)) and forallT(int, y, %s == pw(A, n, c, y)), pconv(B, m, C, k, t) == pw(A, n, b + c, t))' % (zx('B', 'm', 'y'), zx('C', 'k', 'y')), '''
rintro ⟨hb, hc, h1, h2⟩
have e : ∀ (B : ℤ → ℤ) (m b : ℤ), (∀ y : ℤ, (if 0 ≤ y ∧ y < m then B y else 0) = S.pw A n b y) → psl B m = psl A n ^ b.toNat := by
  intro B m b h
  ext t
  have := h t
  simp only [S.pw, Nat.cast_nonneg, true_and, Int.toNat_natCast] at this
  rw [if_neg (show ¬ ((t : ℤ) < 0) by omega)] at this
  rw [← this, psl_coeff]
rw [pconv_coeff_z, e B m b h1, e C k c h2, ← pow_add]
simp only [S.pw]
rw [Int.toNat_add hb hc]
''')
lemma('pw_0', PW, 'pw(A, n, 0, t) == ite(t == 0, 1, 0)', '''
simp only [S.pw, Int.toNat_zero, pow_zero, PowerSeries.coeff_one]
by_cases h : t < 0
· rw [if_pos h, if_neg (by omega)]
· rw [if_neg h]
  by_cases h0 : t = 0
  · simp [h0]
  · rw [if_neg (by omega), if_neg h0]
''')
lemma('pconv_set', 'A:arr[int], m:int, B:arr[int], n:int, k:int, v:int, t:int', 'implies(0 <= k and k < m, pconv(upd(A, k, v), m, B, n, t) == pconv(A, m, B, n, t) + ite(0 <= t - k and t - k < n, (v - A[k]) * B[t - k], 0))', '''
rintro ⟨hk, hm⟩
simp only [S.pconv]
have e : ∀ x ∈ Finset.range m.toNat, (if 0 ≤ t - (x : ℤ) ∧ t - (x : ℤ) < n then Function.update A k v x * B (t - x) else 0) = (if 0 ≤ t - (x : ℤ) ∧ t - (x : ℤ) < n then A x * B (t - x) else 0) + (if x = k.toNat then (if 0 ≤ t - k ∧ t - k < n then (v - A k) * B (t - k) else 0) else 0) := by
  intro x _
  by_cases hx : x = k.toNat
  · have e2 : (x : ℤ) = k := by omega
    rw [if_pos hx, e2, Function.update_self]
    split_ifs <;> ring
  · rw [if_neg hx, Function.update_of_ne (by omega), add_zero]
rw [Finset.sum_congr rfl e, Finset.sum_add_distrib]
congr 1
rw [Finset.sum_ite_eq' (Finset.range m.toNat) k.toNat, if_pos]
rw [Finset.mem_range]; omega
''')
lemma('pconv_null', V, 'implies(forall(j, 0, m, A[j] == 0), pconv(A, m, B, n, t) == 0)', '''
intro h
simp only [S.pconv]
apply Finset.sum_eq_zero
intro x hx
rw [Finset.mem_range] at hx
rw [h x (by omega) (by omega), zero_mul, ite_self]
''')
lemma('pconv_zx', 'A:arr[int], m:int, C:arr[int], k:int, B:arr[int], n:int, t:int', 'implies(forallT(int, y, %s == %s), pconv(A, m, B, n, t) == pconv(C, k, B, n, t))' % (zx('A', 'm', 'y'), zx('C', 'k', 'y')), '''
intro h
have e : psl A m = psl C k := by
  ext t
  have := h t
  simp only [Nat.cast_nonneg, true_and] at this
  rw [psl_coeff, psl_coeff, this]
rw [pconv_coeff_z, pconv_coeff_z, e]
''')
lemma('pq_ring', 'p:int, e:int, x:int, u:int, v:int', 'p * (e * x - u * v) == (e * p) * x - (u * p) * v and p * (e * x) == (e * p) * x and (u * p) * e == (e * p) * u', '''
refine ⟨?_, ?_, ?_⟩ <;> ring
''')

fn('dot', 'fn[tuple[int,int],int], fn[tuple[int,int],int], int, int, int -> int', 'fun A B i j k => ∑ t ∈ Finset.range k.toNat, A (i, (t : ℤ)) * B ((t : ℤ), j)')
DV = 'A:fn[tuple[int,int],int], B:fn[tuple[int,int],int], i:int, j:int'
lemma('dot_zero', DV, 'dot(A, B, i, j, 0) == 0', '''
simp [S.dot]
''')
lemma('dot_step', DV + ', k:int', 'implies(k >= 0, dot(A, B, i, j, k + 1) == dot(A, B, i, j, k) + A[(i, k)] * B[(k, j)])', '''
intro h
simp only [S.dot]
rw [show (k + 1).toNat = k.toNat + 1 by omega, Finset.sum_range_succ, Int.toNat_of_nonneg h]
''')
