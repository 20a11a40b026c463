"""Enumerative combinatorics."""
from pyvc.theory import begin, fn, lemma, raw
begin('enum', ['arithf'])
fn('chooseZ', 'int, int -> int', 'fun n k => (Nat.choose n.toNat k.toNat : ℤ)')
fn('bellZ', 'int -> int', 'fun n => (Nat.bell n.toNat : ℤ)')
fn('bellsum', 'int, int -> int', 'fun i k => ∑ j ∈ Finset.range k.toNat, (Nat.choose (i - 1).toNat j : ℤ) * (Nat.bell ((i - 1).toNat - j) : ℤ)')
fn('stir2', 'int, int -> int', 'fun m n => (Nat.stirlingSecond m.toNat n.toNat : ℤ)')
fn('prodfact', 'arr[int], int -> int', 'fun A l => ∏ i ∈ Finset.range l.toNat, (Nat.factorial (A (i:ℤ)).toNat : ℤ)')

lemma('choose_big', 'n:int, k:int', 'implies(0 <= n and n < k, chooseZ(n, k) == 0)', '''
rintro ⟨h1, h2⟩
simp only [S.chooseZ]
rw [Nat.choose_eq_zero_of_lt (by omega)]; rfl
''')
lemma('choose_fact', 'n:int, k:int', 'implies(0 <= k and k <= n, chooseZ(n, k) == factZ(n) // factZ(n - k) // factZ(k) and factZ(n - k) >= 1 and chooseZ(n, k) == chooseZ(n, n - k) and factZ(n) % factZ(n - k) == 0)', '''
rintro ⟨h1, h2⟩
obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le h1
obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ n)
have e : ((n:ℤ) - k).toNat = n - k := by omega
have hk : k ≤ n := by omega
simp only [S.chooseZ, S.factZ, e, Int.toNat_natCast]
refine ⟨?_, ?_, ?_, ?_⟩
· have h : ((n.factorial / (n - k).factorial / k.factorial : ℕ) : ℤ) = (n.factorial : ℤ) / ((n - k).factorial : ℤ) / (k.factorial : ℤ) := by push_cast; rfl
  rw [← h, Nat.div_div_eq_div_mul, mul_comm, ← Nat.choose_eq_factorial_div_factorial hk]
· exact_mod_cast Nat.factorial_pos _
· rw [Nat.choose_symm hk]
· exact Int.emod_eq_zero_of_dvd (by exact_mod_cast Nat.factorial_dvd_factorial (Nat.sub_le n k))
''')
lemma('fact_next', 'n:int', 'implies(n >= 1, factZ(n) == n * factZ(n - 1) and factZ(n - 1) >= 1)', '''
intro h
obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ n)
obtain ⟨n, rfl⟩ : ∃ m, n = m + 1 := ⟨n - 1, by omega⟩
have e : (((n + 1 : ℕ) : ℤ) - 1).toNat = n := by omega
simp only [S.factZ, e, Int.toNat_natCast, Nat.factorial_succ]
refine ⟨by push_cast; ring, by exact_mod_cast Nat.factorial_pos _⟩
''')
lemma('div_exact', 'a:int, b:int, c:int', 'implies(b >= 1 and c * b == a, a // b == c)', '''
rintro ⟨h1, h2⟩
rw [← h2]; exact Int.mul_ediv_cancel _ (by omega)
''')
lemma('div_next', 'F:int, e:int', 'implies(e >= 2 and F >= 0, F // factZ(e - 1) // e == F // factZ(e))', '''
rintro ⟨h1, h2⟩
have h := (L.fact_next e (by omega))
rw [h.1, mul_comm, Int.ediv_ediv_of_nonneg (by have := h.2; omega)]
''')
lemma('choose_step', 'i:int, k:int', 'implies(1 <= k and k <= i, chooseZ(i - 1, k - 1) * (i - k) // k == chooseZ(i - 1, k) and chooseZ(i - 1, 0) == 1)', '''
rintro ⟨h1, h2⟩
obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ k)
obtain ⟨i, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ i)
obtain ⟨k, rfl⟩ : ∃ m, k = m + 1 := ⟨k - 1, by omega⟩
obtain ⟨i, rfl⟩ : ∃ m, i = m + 1 := ⟨i - 1, by omega⟩
have e1 : (((i + 1 : ℕ) : ℤ) - 1).toNat = i := by omega
have e2 : (((k + 1 : ℕ) : ℤ) - 1).toNat = k := by omega
have e3 : ((i + 1 : ℕ) : ℤ) - ((k + 1 : ℕ) : ℤ) = ((i - k : ℕ) : ℤ) := by omega
simp only [S.chooseZ, e1, e2, e3, Int.toNat_natCast]
refine ⟨?_, by simp⟩
have h := Nat.choose_succ_right_eq i k
apply Int.ediv_eq_of_eq_mul_left (by omega)
exact_mod_cast h.symm
''')
lemma('bell_zero', '', 'bellZ(0) == 1', 'simp [S.bellZ]')
lemma('bell_step', 'i:int, k:int', 'implies(1 <= k and k <= i, bellsum(i, k) == bellsum(i, k - 1) + chooseZ(i - 1, k - 1) * bellZ(i - k) and bellsum(i, 0) == 0)', '''
rintro ⟨h1, h2⟩
obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ k)
obtain ⟨k, rfl⟩ : ∃ m, k = m + 1 := ⟨k - 1, by omega⟩
have e2 : (((k + 1 : ℕ) : ℤ) - 1).toNat = k := by omega
have e3 : (i - ((k + 1 : ℕ) : ℤ)).toNat = (i - 1).toNat - k := by omega
simp only [S.bellsum, S.chooseZ, S.bellZ, e2, e3, Int.toNat_natCast, Finset.sum_range_succ]
simp
''')
lemma('bell_done', 'i:int', 'implies(1 <= i, bellsum(i, i) == bellZ(i))', '''
intro h
obtain ⟨i, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ i)
obtain ⟨i, rfl⟩ : ∃ m, i = m + 1 := ⟨i - 1, by omega⟩
have e2 : (((i + 1 : ℕ) : ℤ) - 1).toNat = i := by omega
simp only [S.bellsum, S.bellZ, e2, Int.toNat_natCast]
rw [Nat.bell_succ, ← Nat.range_succ_eq_Iic]
push_cast
rfl
''')
lemma('stir_rec', 'm:int, n:int', 'implies(m >= 1 and n >= 1, stir2(m, n) == n * stir2(m - 1, n) + stir2(m - 1, n - 1))', '''
rintro ⟨h1, h2⟩
obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ m)
obtain ⟨m, rfl⟩ : ∃ k, m = k + 1 := ⟨m - 1, by omega⟩
obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ n)
obtain ⟨n, rfl⟩ : ∃ k, n = k + 1 := ⟨n - 1, by omega⟩
have e1 : (((m + 1 : ℕ) : ℤ) - 1).toNat = m := by omega
have e2 : (((n + 1 : ℕ) : ℤ) - 1).toNat = n := by omega
simp only [S.stir2, e1, e2, Int.toNat_natCast, Nat.stirlingSecond_succ_succ]
push_cast; rfl
''')
lemma('stir_edge', 'm:int, n:int', 'stir2(0, 0) == 1 and implies(m >= 1, stir2(m, 0) == 0) and implies(0 <= m and m < n, stir2(m, n) == 0)', '''
refine ⟨by simp [S.stir2], fun h => ?_, fun h => ?_⟩
· obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ m)
  obtain ⟨m, rfl⟩ : ∃ k, m = k + 1 := ⟨m - 1, by omega⟩
  have := Nat.stirlingSecond_succ_zero m
  simp only [S.stir2, Int.toNat_natCast]
  exact_mod_cast this
· simp only [S.stir2]
  rw [Nat.stirlingSecond_eq_zero_of_lt (by omega)]; rfl
''')
lemma('prodfact_succ', 'A:arr[int], l:int', 'prodfact(A, 0) == 1 and implies(l >= 1, prodfact(A, l) == prodfact(A, l - 1) * factZ(A[l - 1]))', '''
refine ⟨by simp [S.prodfact], fun h => ?_⟩
obtain ⟨l, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ l)
obtain ⟨l, rfl⟩ : ∃ k, l = k + 1 := ⟨l - 1, by omega⟩
have e1 : (((l + 1 : ℕ) : ℤ) - 1) = (l : ℤ) := by omega
simp only [S.prodfact, S.factZ, e1, Int.toNat_natCast, Finset.prod_range_succ]
''')
lemma('prodfact_dvd', 'A:arr[int], l:int, n:int', 'implies(0 <= l and sumZ(A, l) <= n and forall(i, 0, l, A[i] >= 0, A[i]), prodfact(A, l) >= 1 and factZ(n) % prodfact(A, l) == 0 and sumZ(A, l) >= 0)', '''
rintro ⟨h1, h2, h3⟩
obtain ⟨l, rfl⟩ := Int.eq_ofNat_of_zero_le h1
have key : ∀ l : ℕ, (∀ i : ℤ, 0 ≤ i → i < l → A i ≥ 0) → 0 ≤ ∑ i ∈ Finset.range l, A (i:ℤ) ∧
    (∏ i ∈ Finset.range l, (Nat.factorial (A (i:ℤ)).toNat : ℤ)) ∣ (Nat.factorial (∑ i ∈ Finset.range l, A (i:ℤ)).toNat : ℤ) := by
  intro l
  induction l with
  | zero => intro _; simp
  | succ l ih =>
    intro h
    obtain ⟨i1, i2⟩ := ih (fun i a b => h i a (by push_cast; omega))
    have a1 := h l (by omega) (by push_cast; omega)
    rw [Finset.sum_range_succ, Finset.prod_range_succ]
    refine ⟨by omega, ?_⟩
    rw [Int.toNat_add i1 a1]
    exact (mul_dvd_mul_right i2 _).trans (by exact_mod_cast Nat.factorial_mul_factorial_dvd_factorial_add _ _)
obtain ⟨k1, k2⟩ := key l (fun i a b => h3 i a b)
simp only [S.prodfact, S.factZ, S.sumZ, Int.toNat_natCast] at *
refine ⟨?_, Int.emod_eq_zero_of_dvd (k2.trans ?_), k1⟩
· have : (0:ℤ) < ∏ i ∈ Finset.range l, (Nat.factorial (A (i:ℤ)).toNat : ℤ) := Finset.prod_pos (fun i _ => by exact_mod_cast Nat.factorial_pos _)
  omega
· exact_mod_cast Nat.factorial_dvd_factorial (by omega)
''')
raw('''
open PowerSeries in
open scoped PowerSeries.WithPiTopology in
theorem pent_inv : (PowerSeries.mk fun n => (Fintype.card (Nat.Partition n) : ℤ)) * PowerSeries.pentagonalSeries ℤ = 1 := by
  let : TopologicalSpace ℤ := ⊥
  have : DiscreteTopology ℤ := ⟨rfl⟩
  have h1 := Nat.Partition.hasProd_powerSeriesMk_card_restricted ℤ (fun _ => True)
  have h2 := PowerSeries.WithPiTopology.hasProd_one_sub_X_pow ℤ
  have h3 := h1.mul h2
  have e : (fun n => ((Nat.Partition.restricted n (fun _ => True)).card : ℤ)) = fun n => (Fintype.card (Nat.Partition n) : ℤ) := by
    funext n
    rw [Nat.Partition.restricted, Finset.filter_true_of_mem (by simp), Finset.card_univ]
  rw [e] at h3
  have e2 : (fun i => (if True then ∑' j : ℕ, (X : ℤ⟦X⟧) ^ ((i + 1) * j) else 1) * (1 - X ^ (i + 1))) = fun _ => 1 := by
    funext i
    simp_rw [if_true, pow_mul]
    rw [PowerSeries.WithPiTopology.tsum_pow_mul_one_sub_of_constantCoeff_eq_zero (by simp)]
  rw [e2] at h3
  exact h3.unique hasProd_one

theorem pent_conv (m : ℕ) (hm : 1 ≤ m) : ∑ j ∈ Finset.range (m + 1), (PowerSeries.pentagonalSeries ℤ).coeff j * (Fintype.card (Nat.Partition (m - j)) : ℤ) = 0 := by
  have h := congrArg (PowerSeries.coeff m) (by rw [mul_comm]; exact pent_inv : PowerSeries.pentagonalSeries ℤ * (PowerSeries.mk fun n => (Fintype.card (Nat.Partition n) : ℤ)) = 1)
  rw [PowerSeries.coeff_mul, PowerSeries.coeff_one, if_neg (by omega), Finset.Nat.sum_antidiagonal_eq_sum_range_succ_mk] at h
  simpa using h

noncomputable def pterm (m : ℕ) (k : ℤ) : ℤ := if pentagonal k ≤ m then (Int.negOnePow k : ℤ) * (Fintype.card (Nat.Partition (m - pentagonal k)) : ℤ) else 0

theorem pent_abs (k : ℤ) (K : ℕ) (h : (K:ℤ) < |k|) : pentagonal ((K:ℤ) + 1) ≤ pentagonal k := by
  have h1 := two_mul_natCast_pentagonal ((K:ℤ) + 1)
  have h2 := two_mul_natCast_pentagonal k
  have h3 : 2 * (pentagonal ((K:ℤ) + 1) : ℤ) ≤ 2 * (pentagonal k : ℤ) := by
    rw [h1, h2]
    rcases abs_cases k with ⟨a, b⟩ | ⟨a, b⟩
    · nlinarith
    · nlinarith
  omega

theorem pent_rec (m K : ℕ) (hm : 1 ≤ m) (hK : m < pentagonal ((K:ℤ) + 1)) :
    ∑ k ∈ Finset.Icc (-(K:ℤ)) K, pterm m k = 0 := by
  rw [← pent_conv m hm]
  have e1 : ∑ k ∈ Finset.Icc (-(K:ℤ)) K, pterm m k = ∑ k ∈ (Finset.Icc (-(K:ℤ)) K).filter (fun k => pentagonal k ≤ m), (Int.negOnePow k : ℤ) * (Fintype.card (Nat.Partition (m - pentagonal k)) : ℤ) := by
    rw [Finset.sum_filter]; rfl
  rw [e1]
  symm
  have e2 : ∑ j ∈ ((Finset.Icc (-(K:ℤ)) K).filter (fun k => pentagonal k ≤ m)).image pentagonal, (PowerSeries.pentagonalSeries ℤ).coeff j * (Fintype.card (Nat.Partition (m - j)) : ℤ)
      = ∑ k ∈ (Finset.Icc (-(K:ℤ)) K).filter (fun k => pentagonal k ≤ m), (Int.negOnePow k : ℤ) * (Fintype.card (Nat.Partition (m - pentagonal k)) : ℤ) := by
    rw [Finset.sum_image (fun a _ b _ h => pentagonal_injective h)]
    apply Finset.sum_congr rfl
    intro k _
    rw [PowerSeries.coeff_pentagonalSeries_pentagonal, Int.cast_id]
  rw [← e2]
  symm
  apply Finset.sum_subset
  · intro j hj
    simp only [Finset.mem_image, Finset.mem_filter] at hj
    obtain ⟨k, ⟨_, h⟩, rfl⟩ := hj
    simp; omega
  · intro j hj hn
    rw [PowerSeries.coeff_pentagonalSeries_eq_zero, zero_mul]
    rintro ⟨k, rfl⟩
    apply hn
    simp only [Finset.mem_image, Finset.mem_filter, Finset.mem_Icc]
    have : pentagonal k ≤ m := by simp at hj; omega
    refine ⟨k, ⟨?_, this⟩, rfl⟩
    by_contra hc
    have := pent_abs k K (by
      rcases abs_cases k with ⟨a, b⟩ | ⟨a, b⟩ <;> omega)
    omega

theorem pent_split (m K : ℕ) : ∑ k ∈ Finset.Icc (-(K:ℤ)) K, pterm m k = pterm m 0 + ∑ k ∈ Finset.Icc 1 K, (pterm m k + pterm m (-k)) := by
  induction K with
  | zero => simp
  | succ K ih =>
    rw [← Finset.insert_Icc_right_eq_Icc_add_one (by omega), Finset.sum_insert (by simp)]
    have : Finset.Icc (-((K + 1 : ℕ):ℤ)) ((K + 1 : ℕ):ℤ) = insert ((K:ℤ) + 1) (insert (-((K:ℤ) + 1)) (Finset.Icc (-(K:ℤ)) K)) := by
      ext x; simp only [Finset.mem_insert, Finset.mem_Icc]; push_cast; omega
    rw [this, Finset.sum_insert (by simp; omega), Finset.sum_insert (by simp), ih]
    push_cast
    ring
''')
fn('partZ', 'int -> int', 'fun n => (Fintype.card (Nat.Partition n.toNat) : ℤ)')
fn('pentsum', 'int, int, int -> int', '''fun m k K => ∑ j ∈ Finset.Ioc k.toNat K.toNat,
  (-1 : ℤ) ^ (j + 1) * (S.partZ (m - (j:ℤ) * (3 * j - 1) / 2) + (if m - (j:ℤ) * (3 * j + 1) / 2 < 0 then 0 else S.partZ (m - (j:ℤ) * (3 * j + 1) / 2)))''')
lemma('part_zero', '', 'partZ(0) == 1', 'simp [S.partZ]')
lemma('pent_step', 'm:int, k:int, K:int', '''pentsum(m, K, K) == 0 and powZ(-1, 0) == 1 and implies(1 <= k and k <= K, powZ(-1, k) == 0 - powZ(-1, k + 1) and pentsum(m, k - 1, K) == pentsum(m, k, K) +
  powZ(-1, k + 1) * (partZ(m - k * (3 * k - 1) // 2) + ite(m - k * (3 * k + 1) // 2 < 0, 0, partZ(m - k * (3 * k + 1) // 2))))''', '''
refine ⟨by simp [S.pentsum], by simp [S.powZ], ?_⟩
rintro ⟨h1, h2⟩
obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ k)
obtain ⟨K, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ K)
obtain ⟨k, rfl⟩ : ∃ i, k = i + 1 := ⟨k - 1, by omega⟩
have e1 : (((k + 1 : ℕ) : ℤ) - 1).toNat = k := by omega
have e2 : (((k + 1 : ℕ) : ℤ) + 1).toNat = k + 2 := by omega
refine ⟨by simp only [S.powZ, e2, Int.toNat_natCast]; ring, ?_⟩
simp only [S.pentsum, S.powZ, e1, e2, Int.toNat_natCast]
have : Finset.Ioc k K = insert (k + 1) (Finset.Ioc (k + 1) K) := by
  ext x; simp only [Finset.mem_insert, Finset.mem_Ioc]; omega
rw [this, Finset.sum_insert (by simp), add_comm]
''')
lemma('pent_idx', 'm:int, K:int', 'implies(m >= 1 and K >= 0 and (6 * K - 1 <= 0 or (6 * K - 1) * (6 * K - 1) <= 1 + 24 * m) and (6 * K + 5) * (6 * K + 5) > 1 + 24 * m, K >= 1 and K * (3 * K - 1) <= 2 * m and 2 * m < (K + 1) * (3 * K + 2))', '''
rintro ⟨h1, h2, h3, h4⟩
have hK : 1 ≤ K := by
  by_contra hc
  have : K = 0 := by omega
  subst this; omega
refine ⟨hK, ?_, by nlinarith⟩
rcases h3 with h | h
· omega
· nlinarith
''')
lemma('pent_bounds', 'm:int, k:int, K:int', 'implies(1 <= k and k <= K and K * (3 * K - 1) <= 2 * m, 0 <= m - k * (3 * k - 1) // 2 and m - k * (3 * k - 1) // 2 < m and m - k * (3 * k + 1) // 2 < m)', '''
rintro ⟨h1, h2, h3⟩
have h4 : k * (3 * k - 1) ≤ K * (3 * K - 1) := by nlinarith
have h5 : 2 ≤ k * (3 * k - 1) := by nlinarith
have h6 : 2 ≤ k * (3 * k + 1) := by nlinarith
omega
''')
lemma('pent_done', 'm:int, K:int', 'implies(m >= 1 and K >= 1 and K * (3 * K - 1) <= 2 * m and 2 * m < (K + 1) * (3 * K + 2), pentsum(m, 0, K) == partZ(m))', '''
rintro ⟨h1, h2, h3, h4⟩
obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ m)
obtain ⟨K, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ K)
have hlt : m < pentagonal ((K:ℤ) + 1) := by
  have := two_mul_natCast_pentagonal ((K:ℤ) + 1)
  have e : ((K:ℤ) + 1) * (3 * ((K:ℤ) + 1) - 1) = ((K:ℤ) + 1) * (3 * K + 2) := by ring
  rw [e] at this
  omega
have h := pent_rec m K (by omega) hlt
rw [pent_split] at h
have z : pterm m 0 = S.partZ m := by
  have : pentagonal 0 = 0 := by simp [pentagonal_def]
  simp [pterm, this, S.partZ]
rw [z] at h
have e : S.pentsum m 0 K = - ∑ k ∈ Finset.Icc 1 K, (pterm m k + pterm m (-k)) := by
  rw [S.pentsum, ← Finset.sum_neg_distrib]
  apply Finset.sum_congr (by ext; simp only [Finset.mem_Ioc, Finset.mem_Icc, Int.toNat_natCast, Int.toNat_zero]; omega)
  intro j hj
  simp only [Finset.mem_Icc] at hj
  have hj1 := natCast_pentagonal (j:ℤ)
  have hj2 : (pentagonal (-(j:ℤ)) : ℤ) = (j:ℤ) * (3 * j + 1) / 2 := by
    rw [natCast_pentagonal]; congr 1; ring
  have c1 : pentagonal (j:ℤ) ≤ m := by
    have : (j:ℤ) * (3 * j - 1) ≤ (K:ℤ) * (3 * K - 1) := by
      have : (j:ℤ) ≤ K := by exact_mod_cast hj.2
      have : (1:ℤ) ≤ j := by exact_mod_cast hj.1
      nlinarith
    have := two_mul_natCast_pentagonal (j:ℤ)
    omega
  have s1 : ((j:ℤ).negOnePow : ℤ) = (-1) ^ j := by simp [Int.negOnePow_def]
  have s2 : ((-(j:ℤ)).negOnePow : ℤ) = (-1) ^ j := by rw [Int.negOnePow_neg, s1]
  have q1 : S.partZ (m - (j:ℤ) * (3 * j - 1) / 2) = (Fintype.card (Nat.Partition (m - pentagonal (j:ℤ))) : ℤ) := by
    rw [← hj1, S.partZ]
    have : ((m:ℤ) - (pentagonal (j:ℤ) : ℤ)).toNat = m - pentagonal (j:ℤ) := by omega
    rw [this]
  rw [q1, pterm, pterm, if_pos c1, s1, s2]
  by_cases c2 : pentagonal (-(j:ℤ)) ≤ m
  · have q2 : S.partZ (m - (j:ℤ) * (3 * j + 1) / 2) = (Fintype.card (Nat.Partition (m - pentagonal (-(j:ℤ)))) : ℤ) := by
      rw [← hj2, S.partZ]
      have : ((m:ℤ) - (pentagonal (-(j:ℤ)) : ℤ)).toNat = m - pentagonal (-(j:ℤ)) := by omega
      rw [this]
    rw [if_pos c2, if_neg (by rw [← hj2]; omega), q2]
    ring
  · rw [if_neg c2, if_pos (by rw [← hj2]; omega)]
    ring
rw [e]; linarith
''')
raw('''
theorem jcp_rec (P : PowerSeries ℤ) (r k : ℕ) :
    ∑ i ∈ Finset.range (k + 1), P.coeff i * (((r:ℤ) + 1) * i - k) * (P ^ r).coeff (k - i) = 0 := by
  rcases Nat.eq_zero_or_pos k with hk | hk
  · subst hk; simp
  obtain ⟨k, rfl⟩ : ∃ m, k = m + 1 := ⟨k - 1, by omega⟩
  have h : P * PowerSeries.derivative ℤ (P ^ r) = (r : PowerSeries ℤ) * (PowerSeries.derivative ℤ P * P ^ r) := by
    rw [Derivation.leibniz_pow]
    rcases r with _ | r
    · simp
    · simp only [Nat.add_sub_cancel, nsmul_eq_mul, smul_eq_mul]; ring
  have e1 : (P * PowerSeries.derivative ℤ (P ^ r)).coeff k = ∑ i ∈ Finset.range (k + 2), P.coeff i * ((P ^ r).coeff (k + 1 - i) * ((k:ℤ) + 1 - i)) := by
    rw [PowerSeries.coeff_mul, Finset.Nat.sum_antidiagonal_eq_sum_range_succ_mk, Finset.sum_range_succ _ (k + 1)]
    simp only [PowerSeries.coeff_derivative]
    have : ((k:ℤ) + 1 - ((k + 1 : ℕ):ℤ)) = 0 := by push_cast; ring
    rw [this]
    simp only [mul_zero, add_zero]
    apply Finset.sum_congr rfl
    intro i hi
    have hi : i ≤ k := by simp at hi; omega
    have a : k - i + 1 = k + 1 - i := by omega
    rw [a]; congr 2; push_cast [Nat.cast_sub hi]; ring
  have e2 : ((r : PowerSeries ℤ) * (PowerSeries.derivative ℤ P * P ^ r)).coeff k = (r:ℤ) * ∑ i ∈ Finset.range (k + 2), P.coeff i * i * (P ^ r).coeff (k + 1 - i) := by
    have : ((r : PowerSeries ℤ)) = PowerSeries.C (r:ℤ) := by simp
    rw [this, PowerSeries.coeff_C_mul, PowerSeries.coeff_mul, Finset.Nat.sum_antidiagonal_eq_sum_range_succ_mk, Finset.sum_range_succ' _ (k + 1)]
    simp only [PowerSeries.coeff_derivative]
    congr 1
    simp only [Nat.cast_zero, mul_zero, zero_mul, add_zero]
    apply Finset.sum_congr rfl
    intro i hi
    have : k + 1 - (i + 1) = k - i := by omega
    rw [this]; push_cast; ring
  have h2 := congrArg (PowerSeries.coeff k) h
  rw [e1, e2, Finset.mul_sum, ← sub_eq_zero, ← Finset.sum_sub_distrib] at h2
  rw [← neg_eq_zero, ← Finset.sum_neg_distrib, ← h2]
  apply Finset.sum_congr rfl
  intro i _
  push_cast; ring
''')
fn('powc', 'arr[int], int, int -> int', 'fun A r k => ((PowerSeries.mk fun i => A (i:ℤ)) ^ r.toNat).coeff k.toNat')
fn('rpart', 'int, int -> int', 'fun r k => ((PowerSeries.mk fun i => (Fintype.card (Nat.Partition i) : ℤ)) ^ r.toNat).coeff k.toNat')
fn('jcs', 'arr[int], arr[int], int, int, int -> int', 'fun A F r k t => ∑ i ∈ Finset.Icc 1 t.toNat, A (i:ℤ) * ((r + 1) * i - k) * F (k - i)')
lemma('rpart_edge', 'r:int, n:int', 'implies(r >= 0, rpart(r, 0) == 1 and rpart(1, n) == partZ(n))', '''
intro hr
refine ⟨?_, by simp [S.rpart, S.partZ]⟩
simp only [S.rpart, Int.toNat_zero, PowerSeries.coeff_zero_eq_constantCoeff, map_pow]
rw [← PowerSeries.coeff_zero_eq_constantCoeff_apply, PowerSeries.coeff_mk]
simp
''')
lemma('powc_zero', 'A:arr[int], r:int', 'implies(r >= 0 and A[0] == 1, powc(A, r, 0) == 1)', '''
rintro ⟨hr, h⟩
simp only [S.powc, Int.toNat_zero, PowerSeries.coeff_zero_eq_constantCoeff, map_pow]
rw [← PowerSeries.coeff_zero_eq_constantCoeff_apply, PowerSeries.coeff_mk]
simp [h]
''')
lemma('jcs_step', 'A:arr[int], F:arr[int], r:int, k:int, t:int', 'jcs(A, F, r, k, 0) == 0 and implies(t >= 1, jcs(A, F, r, k, t) == jcs(A, F, r, k, t - 1) + A[t] * ((r + 1) * t - k) * F[k - t])', '''
refine ⟨by simp [S.jcs], fun h => ?_⟩
obtain ⟨t, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ t)
obtain ⟨t, rfl⟩ : ∃ m, t = m + 1 := ⟨t - 1, by omega⟩
have e1 : (((t + 1 : ℕ) : ℤ) - 1).toNat = t := by omega
simp only [S.jcs, e1, Int.toNat_natCast]
rw [← Finset.insert_Icc_right_eq_Icc_add_one (by omega), Finset.sum_insert (by simp), add_comm]
''')
lemma('jcp_done', 'A:arr[int], F:arr[int], r:int, k:int', '''implies(k >= 1 and r >= 0 and A[0] == 1 and forall(j, 0, k, F[j] == powc(A, r, j), F[j]),
  jcs(A, F, r, k, k) == k * powc(A, r, k) and jcs(A, F, r, k, k) // k == powc(A, r, k))''', '''
rintro ⟨h1, h2, h3, h4⟩
obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ k)
obtain ⟨r, rfl⟩ := Int.eq_ofNat_of_zero_le h2
have h := jcp_rec (PowerSeries.mk fun i => A (i:ℤ)) r k
rw [Finset.sum_range_succ'] at h
have e : S.jcs A F r k k = ∑ i ∈ Finset.range k, (PowerSeries.mk fun i => A (i:ℤ)).coeff (i + 1) * (((r:ℤ) + 1) * ((i + 1 : ℕ):ℤ) - k) * (((PowerSeries.mk fun i => A (i:ℤ)) ^ r).coeff (k - (i + 1))) := by
  rw [S.jcs, Int.toNat_natCast, Finset.range_eq_Ico, Finset.sum_Ico_add' (fun i => (PowerSeries.mk fun i => A (i:ℤ)).coeff i * (((r:ℤ) + 1) * (i:ℤ) - k) * (((PowerSeries.mk fun i => A (i:ℤ)) ^ r).coeff (k - i))) 0 k 1]
  apply Finset.sum_congr (by ext; simp only [Finset.mem_Icc, Finset.mem_Ico]; omega)
  intro i hi
  simp only [Finset.mem_Ico] at hi
  have := h4 ((k:ℤ) - i) (by omega) (by omega)
  rw [this, PowerSeries.coeff_mk]
  simp only [S.powc, Int.toNat_natCast]
  have : ((k:ℤ) - i).toNat = k - i := by omega
  rw [this]
have e2 : S.jcs A F r k k = k * S.powc A r k := by
  rw [e]
  simp only [PowerSeries.coeff_mk, Nat.cast_zero, h3, Nat.sub_zero, mul_zero] at h ⊢
  simp only [S.powc, Int.toNat_natCast]
  linarith
refine ⟨e2, ?_⟩
rw [e2]; exact Int.mul_ediv_cancel_left _ (by omega)
''')
lemma('powc_part', 'A:arr[int], r:int, k:int', 'implies(k >= 0 and r >= 0 and forall(j, 0, k + 1, A[j] == partZ(j), A[j]), powc(A, r, k) == rpart(r, k))', '''
rintro ⟨hk, hr, h⟩
obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le hk
simp only [S.powc, S.rpart, Int.toNat_natCast]
have key : ∀ r : ℕ, ∀ m ≤ k, ((PowerSeries.mk fun i => A (i:ℤ)) ^ r).coeff m = ((PowerSeries.mk fun i => (Fintype.card (Nat.Partition i) : ℤ)) ^ r).coeff m := by
  intro r
  induction r with
  | zero => intro m _; simp
  | succ r ih =>
    intro m hm
    rw [pow_succ, pow_succ, PowerSeries.coeff_mul, PowerSeries.coeff_mul]
    apply Finset.sum_congr rfl
    rintro ⟨a, b⟩ hab
    have hab : a + b = m := Finset.HasAntidiagonal.mem_antidiagonal.mp hab
    have := h (b:ℤ) (by omega) (by omega)
    rw [ih a (by omega), PowerSeries.coeff_mk, PowerSeries.coeff_mk]
    simp only [this, S.partZ, Int.toNat_natCast]
exact key _ _ (le_refl _)
''')
