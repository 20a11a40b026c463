"""Tables of multiplicative functions by sieving, and the divisor-sum hyperbola."""
from pyvc.theory import begin, fn, lemma, raw
begin('tables', ['arithf', 'sieve'])
# divisors d <= sqrt(m), d <= j, paired with m / d
fn('psum', 'int, int, int -> int', '''fun c m j => ∑ d ∈ (Finset.Icc 1 j.toNat).filter (fun d => d * d ≤ m.toNat ∧ d ∣ m.toNat),
  (if d * d = m.toNat then (if c = 0 then 1 else (d:ℤ)) else (if c = 0 then 2 else (d:ℤ) + (m.toNat / d : ℕ)))''')
lemma('psum_zero', 'c:int, m:int', 'psum(c, m, 0) == 0', 'simp [S.psum]')
lemma('psum_m0', 'c:int, j:int', 'psum(c, 0, j) == 0', '''
simp only [S.psum]
apply Finset.sum_eq_zero
intro d hd
simp only [Finset.mem_filter, Finset.mem_Icc] at hd
have : 0 < d * d := Nat.mul_pos (by omega) (by omega)
have := hd.2.1
simp at this
omega
''')
lemma('psum_succ', 'c:int, m:int, j:int', '''implies(j >= 1 and m >= 0, psum(c, m, j) == psum(c, m, j - 1) +
  ite(m == j * j, ite(c == 0, 1, j), ite(m > j * j and m % j == 0, ite(c == 0, 2, j + m // j), 0)))''', '''
rintro ⟨hj, hm⟩
obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le hm
obtain ⟨j, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ j)
obtain ⟨j, rfl⟩ : ∃ i, j = i + 1 := ⟨j - 1, by omega⟩
have e : (((j + 1 : ℕ) : ℤ) - 1).toNat = j := by omega
simp only [S.psum, Int.toNat_natCast, e]
rw [← Finset.insert_Icc_right_eq_Icc_add_one (by omega), Finset.filter_insert]
by_cases h : (j + 1) * (j + 1) ≤ m ∧ (j + 1) ∣ m
· rw [if_pos h, Finset.sum_insert (by simp), add_comm]
  congr 1
  by_cases h2 : (j + 1) * (j + 1) = m
  · have E1 : ((m : ℕ) : ℤ) = ((j + 1 : ℕ) : ℤ) * ((j + 1 : ℕ) : ℤ) := by exact_mod_cast h2.symm
    rw [if_pos h2, if_pos E1]
  · have h3 : (j + 1) * (j + 1) < m := lt_of_le_of_ne h.1 h2
    have E1 : ¬ ((m : ℕ) : ℤ) = ((j + 1 : ℕ) : ℤ) * ((j + 1 : ℕ) : ℤ) := fun x => h2 (by exact_mod_cast x.symm)
    have E2 : ((m : ℕ) : ℤ) > ((j + 1 : ℕ) : ℤ) * ((j + 1 : ℕ) : ℤ) ∧ ((m : ℕ) : ℤ) % ((j + 1 : ℕ) : ℤ) = 0 :=
      ⟨by exact_mod_cast h3, Int.emod_eq_zero_of_dvd (by exact_mod_cast h.2)⟩
    rw [if_neg h2, if_neg E1, if_pos E2]
    rfl
· rw [if_neg h, if_neg, if_neg]
  · simp
  · rintro ⟨h1, h2⟩
    exact h ⟨by exact_mod_cast h1.le, by exact_mod_cast Int.dvd_of_emod_eq_zero h2⟩
  · intro h2
    have h2' : m = (j + 1) * (j + 1) := by exact_mod_cast h2
    exact h ⟨h2'.ge, h2' ▸ dvd_mul_right _ _⟩
''')
raw('''
theorem divpair (g : ℕ → ℤ) (m j : ℕ) (hm : 0 < m) (hj : m < (j + 1) * (j + 1)) :
    ∑ d ∈ (Finset.Icc 1 j).filter (fun d => d * d ≤ m ∧ d ∣ m), (if d * d = m then g d else g d + g (m / d)) = ∑ d ∈ m.divisors, g d := by
  have e1 : (Finset.Icc 1 j).filter (fun d => d * d ≤ m ∧ d ∣ m) = m.divisors.filter (fun d => d * d ≤ m) := by
    ext d
    simp only [Finset.mem_filter, Finset.mem_Icc, Nat.mem_divisors]
    constructor
    · rintro ⟨_, h1, h2⟩; exact ⟨⟨h2, by omega⟩, h1⟩
    · rintro ⟨⟨h2, _⟩, h1⟩
      refine ⟨⟨Nat.pos_of_dvd_of_pos h2 hm, ?_⟩, h1, h2⟩
      by_contra hc
      have : (j + 1) * (j + 1) ≤ d * d := Nat.mul_le_mul (by omega) (by omega)
      omega
  rw [e1]
  have e2 : ∀ d ∈ m.divisors.filter (fun d => d * d ≤ m), (if d * d = m then g d else g d + g (m / d)) =
      g d + (if d * d < m then g (m / d) else 0) := by
    intro d hd
    simp only [Finset.mem_filter] at hd
    by_cases h : d * d = m
    · rw [if_pos h, if_neg (by omega), add_zero]
    · rw [if_neg h, if_pos (by omega)]
  rw [Finset.sum_congr rfl e2, Finset.sum_add_distrib, ← Finset.sum_filter_add_sum_filter_not m.divisors (fun d => d * d ≤ m)]
  congr 1
  rw [← Finset.sum_filter, Finset.filter_filter]
  apply Finset.sum_nbij' (fun d => m / d) (fun d => m / d)
  · intro d hd
    simp only [Finset.mem_filter, Nat.mem_divisors] at hd ⊢
    obtain ⟨⟨⟨e, rfl⟩, _⟩, h1, h2⟩ := hd
    have hd0 : 0 < d := Nat.pos_of_mul_pos_right hm
    rw [Nat.mul_div_cancel_left _ hd0]
    have : d < e := lt_of_mul_lt_mul_left h2 (Nat.zero_le _)
    refine ⟨⟨dvd_mul_left _ _, by omega⟩, ?_⟩
    have : d * e < e * e := Nat.mul_lt_mul_of_pos_right this (by omega)
    omega
  · intro d hd
    simp only [Finset.mem_filter, Nat.mem_divisors] at hd ⊢
    obtain ⟨⟨⟨e, rfl⟩, _⟩, h1⟩ := hd
    have hd0 : 0 < d := Nat.pos_of_mul_pos_right hm
    rw [Nat.mul_div_cancel_left _ hd0]
    have : e < d := lt_of_mul_lt_mul_left (by omega : d * e < d * d) (Nat.zero_le _)
    have he : 0 < e := Nat.pos_of_mul_pos_left hm
    have : e * e < d * e := Nat.mul_lt_mul_of_pos_right this he
    refine ⟨⟨dvd_mul_left _ _, by omega⟩, by omega, by omega⟩
  · intro d hd
    simp only [Finset.mem_filter, Nat.mem_divisors] at hd
    exact Nat.div_div_self hd.1.1 (by omega)
  · intro d hd
    simp only [Finset.mem_filter, Nat.mem_divisors] at hd
    exact Nat.div_div_self hd.1.1 (by omega)
  · intro d hd; rfl
''')
lemma('psum_done', 'm:int, j:int', 'implies(m >= 1 and j >= 0 and m < (j + 1) * (j + 1), psum(0, m, j) == tau(m) and psum(1, m, j) == sig(1, m))', '''
rintro ⟨hm, hj, h⟩
obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ m)
obtain ⟨j, rfl⟩ := Int.eq_ofNat_of_zero_le hj
have h' : m < (j + 1) * (j + 1) := by exact_mod_cast h
constructor
· have := divpair (fun _ => 1) m j (by omega) h'
  simp only [S.psum, S.tau, Int.toNat_natCast, ArithmeticFunction.sigma_zero_apply]
  simp only [Finset.sum_const, nsmul_eq_mul, mul_one] at this
  rw [← this]
  apply Finset.sum_congr rfl
  intro d _
  split <;> simp
· have := divpair (fun d => (d:ℤ)) m j (by omega) h'
  simp only [S.psum, S.sig, Int.toNat_natCast, ArithmeticFunction.sigma_apply]
  rw [show (1:ℤ).toNat = 1 from rfl]
  simp only [pow_one]
  push_cast
  exact_mod_cast this
''')
lemma('mul_hit', 'm:int, j:int, k:int', '''implies(j >= 1 and m >= 0 and k >= 0, iff(m % j == 0 and m >= k * j and m < (k + 1) * j, m == k * j))''', '''
rintro ⟨hj, hm, hk⟩
constructor
· rintro ⟨h1, h2, h3⟩
  obtain ⟨q, rfl⟩ := Int.dvd_of_emod_eq_zero h1
  have a : k ≤ q := by by_contra hc; nlinarith
  have b : q < k + 1 := by by_contra hc; nlinarith
  have : q = k := by omega
  subst this; ring
· rintro rfl
  refine ⟨by simp, le_refl _, by nlinarith⟩
''')
lemma('mul_hit2', 'm:int, j:int, i:int', '''implies(j >= 1 and m >= 0 and i >= 0, iff(m % j == 0 and m < j + j * (i + 1), m == j + j * i or (m % j == 0 and m < j + j * i)) and
  (j + j * i) % j == 0 and not (m >= 1 and m % j == 0 and m < j))''', '''
rintro ⟨hj, hm, hk⟩
have hh := mul_hit m j (i + 1) ⟨hj, hm, by omega⟩
have e1 : (i + 1) * j = j + j * i := by ring
have e2 : (i + 1 + 1) * j = j + j * (i + 1) := by ring
rw [e1, e2] at hh
refine ⟨⟨?_, ?_⟩, ?_, ?_⟩
· rintro ⟨h1, h2⟩
  by_cases h3 : m < j + j * i
  · exact Or.inr ⟨h1, h3⟩
  · exact Or.inl (hh.1 ⟨h1, by omega, h2⟩)
· rintro (h1 | ⟨h1, h2⟩)
  · exact ⟨(hh.2 h1).1, (hh.2 h1).2.2⟩
  · exact ⟨h1, by nlinarith⟩
· rw [show j + j * i = j * (i + 1) by ring]; exact Int.mul_emod_right _ _
· rintro ⟨h1, h2, h3⟩
  rw [Int.emod_eq_of_lt hm h3] at h2
  omega
''')
# m is one of the first i multiples p, 2p, ... of p
fn('hit', 'int, int, int -> bool', 'fun m p i => m % p = 0 ∧ m < p + p * i')
lemma('hit_start', 'm:int, p:int', 'implies(p >= 1 and m >= 1, not hit(m, p, 0))', '''
rintro ⟨hp, hm⟩ ⟨h1, h2⟩
exact (mul_hit2 m p 0 ⟨hp, by omega, le_refl _⟩).2.2 ⟨hm, h1, by linarith⟩
''')
lemma('hit_step', 'm:int, p:int, i:int', 'implies(p >= 1 and m >= 0 and i >= 0, iff(hit(m, p, i + 1), m == p + p * i or hit(m, p, i)))', '''
intro h
exact (mul_hit2 m p i h).1
''')
lemma('hit_self', 'p:int, i:int', 'not hit(p + p * i, p, i)', 'rintro ⟨h1, h2⟩; omega')
lemma('hit_end', 'm:int, p:int, i:int, n:int', 'implies(p >= 1 and m <= n and i >= 0 and p + p * i > n, iff(hit(m, p, i), m % p == 0))', '''
rintro ⟨hp, hm, hi, h⟩
exact ⟨fun h => h.1, fun h1 => ⟨h1, by linarith⟩⟩
''')
lemma('mul_bound', 'm:int, j:int, n:int', 'implies(j >= 1 and m % j == 0 and m <= n, m < (n // j + 1) * j and m < j + j * (n // j))', '''
rintro ⟨hj, hm, hn⟩
have := Int.lt_ediv_add_one_mul_self n (by omega : 0 < j)
have e : (n / j + 1) * j = j + j * (n / j) := by ring
exact ⟨by linarith, by linarith⟩
''')
fn('sigsum', 'int -> int', 'fun n => ∑ k ∈ Finset.Icc 1 n.toNat, S.sig 1 (k:ℤ)')
fn('hyp', 'int, int -> int', 'fun n j => ∑ d ∈ Finset.Icc 1 j.toNat, (2 * (d:ℤ) * (n / d - d + 1) + (n / d - d + 1) * (n / d + d))')
lemma('hyp_zero', 'n:int', 'hyp(n, 0) == 0', 'simp [S.hyp]')
lemma('hyp_succ', 'n:int, j:int', 'implies(j >= 1, hyp(n, j) == hyp(n, j - 1) + (2 * j * (n // j - j + 1) + (n // j - j + 1) * (n // j + j)))', '''
intro hj
obtain ⟨j, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ j)
obtain ⟨j, rfl⟩ : ∃ i, j = i + 1 := ⟨j - 1, by omega⟩
have e : (((j + 1 : ℕ) : ℤ) - 1).toNat = j := by omega
simp only [S.hyp, Int.toNat_natCast, e]
rw [Finset.sum_Icc_succ_top (by omega)]
''')
raw('''
theorem arith_sum (a : ℕ) (t : ℕ) : 2 * ∑ e ∈ Finset.range t, ((a:ℤ) + ((a + e : ℕ) : ℤ)) = 2 * a * t + t * (a + t - 1 + a) := by
  induction t with
  | zero => simp
  | succ t ih => rw [Finset.sum_range_succ, mul_add, ih]; push_cast; ring
''')
lemma('hyp_done', 'n:int, s:int', 'implies(n >= 1 and s >= 0 and s * s <= n and n < (s + 1) * (s + 1), 2 * sigsum(n) == hyp(n, s) - s * (s + 1))', '''
rintro ⟨hn, hs, h1, h2⟩
obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ n)
obtain ⟨s, rfl⟩ := Int.eq_ofNat_of_zero_le hs
have a1 : s * s ≤ n := by exact_mod_cast h1
have a2 : n < (s + 1) * (s + 1) := by exact_mod_cast h2
have b1 : S.sigsum n = ∑ k ∈ Finset.Icc 1 n, ∑ d ∈ (Finset.Icc 1 s).filter (fun d => d * d ≤ k ∧ d ∣ k),
    (if d * d = k then (d:ℤ) else (d:ℤ) + (k / d : ℕ)) := by
  simp only [S.sigsum, Int.toNat_natCast]
  apply Finset.sum_congr rfl
  intro k hk
  rw [Finset.mem_Icc] at hk
  have := (psum_done k s ⟨by omega, by omega, by
    have : k < (s + 1) * (s + 1) := by omega
    exact_mod_cast this⟩).2
  rw [← this]
  simp only [S.psum, Int.toNat_natCast, one_ne_zero, if_false]
have b2 : ∀ d ∈ Finset.Icc 1 s, ∑ k ∈ Finset.Icc 1 n, (if d * d ≤ k ∧ d ∣ k then (if d * d = k then (d:ℤ) else (d:ℤ) + (k / d : ℕ)) else 0) =
    ∑ e ∈ Finset.range (n / d - d + 1), ((d:ℤ) + ((d + e : ℕ) : ℤ)) - d := by
  intro d hd
  rw [Finset.mem_Icc] at hd
  have hdd : d ≤ n / d := by
    rw [Nat.le_div_iff_mul_le (by omega)]
    exact le_trans (Nat.mul_le_mul hd.2 hd.2) a1
  have c1 : ∀ k ∈ Finset.Icc 1 n, (if d * d ≤ k ∧ d ∣ k then (if d * d = k then (d:ℤ) else (d:ℤ) + (k / d : ℕ)) else 0) =
      (if d * d ≤ k ∧ d ∣ k then (d:ℤ) + (k / d : ℕ) else 0) - (if k = d * d then (d:ℤ) else 0) := by
    intro k _
    by_cases h : d * d ≤ k ∧ d ∣ k
    · rw [if_pos h, if_pos h]
      by_cases h3 : d * d = k
      · rw [if_pos h3, if_pos h3.symm, ← h3, Nat.mul_div_cancel _ (by omega)]; ring
      · rw [if_neg h3, if_neg (fun x => h3 x.symm), sub_zero]
    · rw [if_neg h, if_neg h, if_neg, sub_zero]
      rintro rfl
      exact h ⟨le_refl _, dvd_mul_right _ _⟩
  rw [Finset.sum_congr rfl c1, Finset.sum_sub_distrib, Finset.sum_ite_eq' (Finset.Icc 1 n) (d * d) (fun _ => (d:ℤ)), if_pos (by
    rw [Finset.mem_Icc]
    exact ⟨Nat.mul_pos (by omega) (by omega), le_trans (Nat.mul_le_mul hd.2 hd.2) a1⟩)]
  congr 1
  rw [← Finset.sum_filter]
  apply Finset.sum_nbij' (fun k => k / d - d) (fun e => (d + e) * d)
  · intro k hk
    simp only [Finset.mem_filter, Finset.mem_Icc, Finset.mem_range] at hk ⊢
    have := Nat.div_le_div_right (c := d) hk.1.2
    omega
  · intro e he
    simp only [Finset.mem_filter, Finset.mem_Icc, Finset.mem_range] at he ⊢
    have : (d + e) * d ≤ n := by
      rw [← Nat.le_div_iff_mul_le (by omega)]; omega
    refine ⟨⟨Nat.mul_pos (by omega) (by omega), this⟩, Nat.mul_le_mul_right _ (by omega), dvd_mul_left _ _⟩
  · intro k hk
    simp only [Finset.mem_filter, Finset.mem_Icc] at hk
    have : d ≤ k / d := by rw [Nat.le_div_iff_mul_le (by omega)]; exact hk.2.1
    rw [show d + (k / d - d) = k / d by omega]
    exact Nat.div_mul_cancel hk.2.2
  · intro e _
    show (d + e) * d / d - d = e
    rw [Nat.mul_div_cancel _ (by omega)]; omega
  · intro k hk
    simp only [Finset.mem_filter, Finset.mem_Icc] at hk
    have : d ≤ k / d := by rw [Nat.le_div_iff_mul_le (by omega)]; exact hk.2.1
    rw [show d + (k / d - d) = k / d by omega]
have b3 : S.sigsum n = ∑ d ∈ Finset.Icc 1 s, (∑ e ∈ Finset.range (n / d - d + 1), ((d:ℤ) + ((d + e : ℕ) : ℤ)) - d) := by
  rw [b1]
  simp only [Finset.sum_filter]
  rw [Finset.sum_comm]
  exact Finset.sum_congr rfl b2
have b4 : ∀ s : ℕ, 2 * ∑ d ∈ Finset.Icc 1 s, (d:ℤ) = s * (s + 1) := by
  intro s
  induction s with
  | zero => simp
  | succ s ih => rw [Finset.sum_Icc_succ_top (by omega), mul_add, ih]; push_cast; ring
rw [b3, Finset.sum_sub_distrib, mul_sub, b4, Finset.mul_sum]
congr 1
simp only [S.hyp, Int.toNat_natCast]
apply Finset.sum_congr rfl
intro d hd
rw [Finset.mem_Icc] at hd
have hdd : d ≤ n / d := by
  rw [Nat.le_div_iff_mul_le (by omega)]
  exact le_trans (Nat.mul_le_mul hd.2 hd.2) a1
rw [arith_sum]
have : ((n / d - d + 1 : ℕ) : ℤ) = (n:ℤ) / d - d + 1 := by push_cast [hdd]; rfl
rw [this]; ring
''')
# partial products over the primes below q
fn('phiP', 'int, int -> int', '''fun m q => ∏ p ∈ m.toNat.primeFactors.filter (fun p : ℕ => (p:ℤ) < q), ((p - 1) * p ^ (m.toNat.factorization p - 1) : ℕ)''')
fn('phiL', 'int, int, int -> int', '''fun m p t => if p.toNat ∣ m.toNat ∧ 1 ≤ t then ((p.toNat - 1) * p.toNat ^ (min (m.toNat.factorization p.toNat) t.toNat - 1) : ℕ) else 1''')
raw('''
theorem filter_lt_step (F : ℕ → ℤ) (m : ℕ) (hm : 0 < m) (i : ℕ) :
    ∏ p ∈ m.primeFactors.filter (fun p : ℕ => (p:ℤ) < S.nthp ((i:ℤ) + 1)), F p =
    (∏ p ∈ m.primeFactors.filter (fun p : ℕ => (p:ℤ) < S.nthp i), F p) * (if Nat.nth Nat.Prime i ∣ m then F (Nat.nth Nat.Prime i) else 1) := by
  have h1 : S.nthp i = (Nat.nth Nat.Prime i : ℕ) := by simp [S.nthp]
  have h2 : S.nthp ((i:ℤ) + 1) = (Nat.nth Nat.Prime (i + 1) : ℕ) := by
    simp only [S.nthp]; rw [show ((i:ℤ) + 1).toNat = i + 1 by omega]
  have hp : (Nat.nth Nat.Prime i).Prime := Nat.prime_nth_prime i
  have hlt : ∀ q : ℕ, q.Prime → ((q:ℤ) < S.nthp ((i:ℤ) + 1) ↔ (q:ℤ) < S.nthp i ∨ q = Nat.nth Nat.Prime i) := by
    intro q hq
    rw [h1, h2]
    have hqn := Nat.nth_count hq
    rw [← hqn]
    norm_cast
    rw [Nat.nth_lt_nth Nat.infinite_setOf_prime, Nat.nth_lt_nth Nat.infinite_setOf_prime,
      (Nat.nth_injective Nat.infinite_setOf_prime).eq_iff]
    omega
  by_cases hd : Nat.nth Nat.Prime i ∣ m
  · rw [if_pos hd]
    have : m.primeFactors.filter (fun p : ℕ => (p:ℤ) < S.nthp ((i:ℤ) + 1)) =
        insert (Nat.nth Nat.Prime i) (m.primeFactors.filter (fun p : ℕ => (p:ℤ) < S.nthp i)) := by
      ext q
      simp only [Finset.mem_filter, Finset.mem_insert, Nat.mem_primeFactors]
      constructor
      · rintro ⟨⟨a, b, c⟩, d⟩
        rcases (hlt q a).1 d with e | e
        · right; exact ⟨⟨a, b, c⟩, e⟩
        · left; exact e
      · rintro (e | ⟨⟨a, b, c⟩, d⟩)
        · subst e; exact ⟨⟨hp, hd, by omega⟩, (hlt _ hp).2 (Or.inr rfl)⟩
        · exact ⟨⟨a, b, c⟩, (hlt q a).2 (Or.inl d)⟩
    rw [this, Finset.prod_insert, mul_comm]
    simp [h1]
  · rw [if_neg hd, mul_one]
    apply Finset.prod_congr _ (fun _ _ => rfl)
    ext q
    simp only [Finset.mem_filter, Nat.mem_primeFactors]
    constructor
    · rintro ⟨⟨a, b, c⟩, d⟩
      refine ⟨⟨a, b, c⟩, ?_⟩
      rcases (hlt q a).1 d with e | e
      · exact e
      · subst e; exact absurd b hd
    · rintro ⟨⟨a, b, c⟩, d⟩
      exact ⟨⟨a, b, c⟩, (hlt q a).2 (Or.inl d)⟩
theorem filter_lt_two (F : ℕ → ℤ) (m : ℕ) : ∏ p ∈ m.primeFactors.filter (fun p : ℕ => (p:ℤ) < S.nthp 0), F p = 1 := by
  apply Finset.prod_eq_one
  intro p hp
  simp only [Finset.mem_filter, Nat.mem_primeFactors] at hp
  have := hp.1.1.two_le
  have h2 : S.nthp 0 = 2 := by simp [S.nthp, Nat.nth_prime_zero_eq_two]
  omega
theorem filter_lt_all (F : ℕ → ℤ) (m : ℕ) (hm : 0 < m) (q : ℤ) (hq : (m:ℤ) < q) :
    ∏ p ∈ m.primeFactors.filter (fun p : ℕ => (p:ℤ) < q), F p = ∏ p ∈ m.primeFactors, F p := by
  rw [Finset.filter_true_of_mem]
  intro p hp
  have := Nat.le_of_mem_primeFactors hp
  omega
theorem powmod {p m t : ℕ} : ((m:ℤ) % S.powZ p t = 0) ↔ p ^ t ∣ m := by
  simp only [S.powZ, Int.toNat_natCast]
  constructor
  · intro h; exact_mod_cast Int.dvd_of_emod_eq_zero h
  · intro h; exact Int.emod_eq_zero_of_dvd (by exact_mod_cast h)
''')
lemma('phiP_start', 'm:int', 'phiP(m, nthp(0)) == 1', 'exact filter_lt_two (fun p => ((p - 1) * p ^ (m.toNat.factorization p - 1) : ℕ)) m.toNat')
lemma('phiP_step', 'm:int, i:int, t:int', '''implies(i >= 0 and m >= 1 and t >= 1 and powZ(nthp(i), t + 1) > m,
  phiP(m, nthp(i + 1)) == phiP(m, nthp(i)) * phiL(m, nthp(i), t))''', '''
rintro ⟨hi, hm, ht, h⟩
obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ m)
obtain ⟨i, rfl⟩ := Int.eq_ofNat_of_zero_le hi
obtain ⟨t, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ t)
have h1 : S.nthp i = (Nat.nth Nat.Prime i : ℕ) := by simp [S.nthp]
have hp : (Nat.nth Nat.Prime i).Prime := Nat.prime_nth_prime i
simp only [S.phiP, Int.toNat_natCast]
rw [filter_lt_step (fun p => ((p - 1) * p ^ (m.factorization p - 1) : ℕ)) m (by omega) i]
congr 1
simp only [S.phiL, h1, Int.toNat_natCast]
rw [h1] at h
simp only [S.powZ, Int.toNat_natCast] at h
have hv := Nat.lt_succ_iff.1 (lt_of_not_ge (fun hc => absurd (Nat.le_of_dvd (by omega : 0 < m) ((hp.pow_dvd_iff_le_factorization (by omega)).2 hc)) (by
  rw [show ((t:ℤ) + 1).toNat = t + 1 by omega] at h
  exact not_le.2 (by exact_mod_cast h))))
rw [min_eq_left hv]
by_cases hd : Nat.nth Nat.Prime i ∣ m
· rw [if_pos hd, if_pos ⟨hd, by omega⟩]
· rw [if_neg hd, if_neg (fun x => hd x.1)]
''')
lemma('phiP_done', 'm:int, q:int', 'implies(m >= 1 and q > m, phiP(m, q) == phi(m))', '''
rintro ⟨hm, hq⟩
obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ m)
simp only [S.phiP, S.phi, Int.toNat_natCast]
rw [filter_lt_all (fun p => ((p - 1) * p ^ (m.factorization p - 1) : ℕ)) m (by omega) q hq, Nat.totient_eq_prod_factorization (by omega)]
rw [Finsupp.prod, Nat.support_factorization]
push_cast
apply Finset.prod_congr rfl
intro p hp
rw [mul_comm]
''')
lemma('phiL_one', 'm:int, p:int', 'implies(m >= 1 and isprime(p), phiL(m, p, 1) == ite(m % p == 0, p - 1, 1))', '''
rintro ⟨hm, hp0⟩
obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ m)
obtain ⟨p, rfl, hp⟩ := (isprime_iff _).1 hp0
simp only [S.phiL, Int.toNat_natCast]
by_cases hd : p ∣ m
· have hv : 1 ≤ m.factorization p := (hp.dvd_iff_one_le_factorization (by omega)).1 hd
  rw [if_pos ⟨hd, le_refl _⟩, if_pos (Int.emod_eq_zero_of_dvd (by exact_mod_cast hd))]
  rw [show (1:ℤ).toNat = 1 from rfl, min_eq_right hv]
  push_cast [hp.one_le]; simp
· rw [if_neg (fun x => hd x.1), if_neg (fun x => hd (by exact_mod_cast Int.dvd_of_emod_eq_zero x))]
''')
lemma('phiL_step', 'm:int, p:int, t:int', '''implies(m >= 1 and isprime(p) and t >= 1, phiL(m, p, t + 1) == phiL(m, p, t) * ite(m % powZ(p, t + 1) == 0, p, 1))''', '''
rintro ⟨hm, hp0, ht⟩
obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ m)
obtain ⟨p, rfl, hp⟩ := (isprime_iff _).1 hp0
obtain ⟨t, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ t)
have hpm : ((m:ℤ) % S.powZ p ((t:ℤ) + 1) = 0) ↔ p ^ (t + 1) ∣ m := by have := @powmod p m (t + 1); push_cast at this; exact this
have h2 := hp.pow_dvd_iff_le_factorization (k := t + 1) (by omega : m ≠ 0)
simp only [S.phiL, Int.toNat_natCast, show ((t:ℤ) + 1).toNat = t + 1 by omega]
by_cases hd : p ∣ m
· rw [if_pos ⟨hd, by omega⟩, if_pos ⟨hd, by omega⟩]
  by_cases hv : t + 1 ≤ m.factorization p
  · rw [if_pos (hpm.2 (h2.2 hv)), min_eq_right hv, min_eq_right (by omega), show t + 1 - 1 = (t - 1) + 1 by omega, pow_succ]
    push_cast; ring
  · rw [if_neg (fun x => hv (h2.1 (hpm.1 x))), min_eq_left (by omega), min_eq_left (by omega), mul_one]
· rw [if_neg (fun x => hd x.1), if_neg (fun x => hd x.1), if_neg, mul_one]
  intro x
  exact hd (dvd_trans (dvd_pow_self p (by omega)) (hpm.1 x))
''')
fn('sgP', 'int, int, int -> int', '''fun k m q => ∏ p ∈ m.toNat.primeFactors.filter (fun p : ℕ => (p:ℤ) < q), ∑ i ∈ Finset.range (m.toNat.factorization p + 1), ((p:ℤ) ^ k.toNat) ^ i''')
fn('sgL', 'int, int, int, int -> int', '''fun k m p t => ∑ i ∈ Finset.range (min (m.toNat.factorization p.toNat) t.toNat + 1), (p ^ k.toNat) ^ i''')
lemma('sgP_start', 'k:int, m:int', 'sgP(k, m, nthp(0)) == 1', 'exact filter_lt_two (fun p => ∑ i ∈ Finset.range (m.toNat.factorization p + 1), ((p:ℤ) ^ k.toNat) ^ i) m.toNat')
lemma('sgP_step', 'k:int, m:int, i:int, t:int', '''implies(i >= 0 and m >= 1 and t >= 0 and powZ(nthp(i), t + 1) > m,
  sgP(k, m, nthp(i + 1)) == sgP(k, m, nthp(i)) * sgL(k, m, nthp(i), t))''', '''
rintro ⟨hi, hm, ht, h⟩
obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ m)
obtain ⟨i, rfl⟩ := Int.eq_ofNat_of_zero_le hi
obtain ⟨t, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ t)
have h1 : S.nthp i = (Nat.nth Nat.Prime i : ℕ) := by simp [S.nthp]
have hp : (Nat.nth Nat.Prime i).Prime := Nat.prime_nth_prime i
simp only [S.sgP, Int.toNat_natCast]
rw [filter_lt_step (fun p => ∑ i ∈ Finset.range (m.factorization p + 1), ((p:ℤ) ^ k.toNat) ^ i) m (by omega) i]
congr 1
simp only [S.sgL, h1, Int.toNat_natCast]
rw [h1] at h
simp only [S.powZ, Int.toNat_natCast] at h
have hv := Nat.lt_succ_iff.1 (lt_of_not_ge (fun hc => absurd (Nat.le_of_dvd (by omega : 0 < m) ((hp.pow_dvd_iff_le_factorization (by omega)).2 hc)) (by
  rw [show ((t:ℤ) + 1).toNat = t + 1 by omega] at h
  exact not_le.2 (by exact_mod_cast h))))
rw [min_eq_left hv]
by_cases hd : Nat.nth Nat.Prime i ∣ m
· rw [if_pos hd]
· rw [if_neg hd, Nat.factorization_eq_zero_of_not_dvd hd]; simp
''')
lemma('sgP_done', 'k:int, m:int, q:int', 'implies(m >= 1 and q > m, sgP(k, m, q) == sig(k, m))', '''
rintro ⟨hm, hq⟩
obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ m)
simp only [S.sgP, S.sig, Int.toNat_natCast]
rw [filter_lt_all (fun p => ∑ i ∈ Finset.range (m.factorization p + 1), ((p:ℤ) ^ k.toNat) ^ i) m (by omega) q hq,
  ArithmeticFunction.isMultiplicative_sigma.multiplicative_factorization _ (by omega : m ≠ 0), Finsupp.prod, Nat.support_factorization]
push_cast
apply Finset.prod_congr rfl
intro p hp
have hpp := Nat.prime_of_mem_primeFactors hp
rw [ArithmeticFunction.sigma_apply_prime_pow hpp]
push_cast
apply Finset.sum_congr rfl
intro i _
rw [← pow_mul, mul_comm]
''')
lemma('sgL_zero', 'k:int, m:int, p:int', 'sgL(k, m, p, 0) == 1', 'simp [S.sgL]')
fn('sdiv', 'int, int, int -> int', 'fun b u v => (b * u) / v')
lemma('sdiv_def', 'b:int, u:int, v:int', 'implies(v != 0, sdiv(b, u, v) == (b * u) // v)', 'intro _; rfl')
lemma('sgL_step', 'k:int, m:int, p:int, t:int, x:int', '''implies(m >= 1 and k >= 1 and isprime(p) and t >= 1,
  powZ(powZ(p, k), t) >= 2 and ite(m % powZ(p, t) == 0,
  sdiv(x * sgL(k, m, p, t - 1), powZ(powZ(p, k), t + 1) - 1, powZ(powZ(p, k), t) - 1) == x * sgL(k, m, p, t), sgL(k, m, p, t) == sgL(k, m, p, t - 1)))''', '''
rintro ⟨hm, hk, hp0, ht⟩
obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ m)
obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ k)
obtain ⟨p, rfl, hp⟩ := (isprime_iff _).1 hp0
obtain ⟨t, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ t)
obtain ⟨t, rfl⟩ : ∃ i, t = i + 1 := ⟨t - 1, by omega⟩
have hpm := @powmod p m (t + 1)
have h2 := hp.pow_dvd_iff_le_factorization (k := t + 1) (by omega : m ≠ 0)
simp only [S.sdiv, S.sgL, S.powZ, Int.toNat_natCast, show (((t + 1 : ℕ) : ℤ) - 1).toNat = t by omega, show (((t + 1 : ℕ) : ℤ) + 1).toNat = t + 2 by omega] at *
have hb : (2:ℤ) ≤ (p:ℤ) ^ k := by exact_mod_cast le_trans hp.two_le (Nat.le_self_pow (by omega) p)
generalize (p:ℤ) ^ k = b at *
have hbt : (2:ℤ) ≤ b ^ (t + 1) := le_trans hb (by
  have : b ^ 1 ≤ b ^ (t + 1) := pow_le_pow_right₀ (by omega) (by omega)
  simpa using this)
refine ⟨hbt, ?_⟩
split
· rename_i hd
  have hv : t + 1 ≤ m.factorization p := h2.1 (hpm.1 hd)
  rw [min_eq_right hv, min_eq_right (by omega : t ≤ m.factorization p)]
  have g1 := geom_sum_mul b (t + 1)
  have g2 := geom_sum_mul b (t + 2)
  rw [← g2, ← g1]
  rw [show x * (∑ i ∈ Finset.range (t + 1), b ^ i) * ((∑ i ∈ Finset.range (t + 2), b ^ i) * (b - 1)) =
    (x * (∑ i ∈ Finset.range (t + 2), b ^ i)) * ((∑ i ∈ Finset.range (t + 1), b ^ i) * (b - 1)) by ring]
  exact Int.mul_ediv_cancel _ (by rw [g1]; omega)
· rename_i hd
  have hv : ¬ t + 1 ≤ m.factorization p := fun x => hd (hpm.2 (h2.2 x))
  rw [min_eq_left (by omega), min_eq_left (by omega)]
''')
fn('muP', 'int, int -> int', '''fun m q => ∏ p ∈ m.toNat.primeFactors.filter (fun p : ℕ => (p:ℤ) < q), (if p * p ∣ m.toNat then 0 else -1)''')
fn('vaP', 'int, int -> int', '''fun m q => ∏ p ∈ m.toNat.primeFactors.filter (fun p : ℕ => (p:ℤ) < q), (if p * p ∣ m.toNat then 1 else (p:ℤ))''')
lemma('muP_start', 'm:int', 'muP(m, nthp(0)) == 1 and vaP(m, nthp(0)) == 1', '''
exact ⟨filter_lt_two (fun p => if p * p ∣ m.toNat then 0 else -1) m.toNat, filter_lt_two (fun p => if p * p ∣ m.toNat then 1 else (p:ℤ)) m.toNat⟩
''')
lemma('muP_step', 'm:int, i:int', '''implies(i >= 0 and m >= 1,
  muP(m, nthp(i + 1)) == muP(m, nthp(i)) * ite(m % nthp(i) != 0, 1, ite(m % (nthp(i) * nthp(i)) == 0, 0, -1)) and
  vaP(m, nthp(i + 1)) == vaP(m, nthp(i)) * ite(m % nthp(i) != 0, 1, ite(m % (nthp(i) * nthp(i)) == 0, 1, nthp(i))))''', '''
rintro ⟨hi, hm⟩
obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ m)
obtain ⟨i, rfl⟩ := Int.eq_ofNat_of_zero_le hi
have h1 : S.nthp i = (Nat.nth Nat.Prime i : ℕ) := by simp [S.nthp]
have d1 : ((m:ℤ) % (Nat.nth Nat.Prime i : ℕ) = 0) ↔ Nat.nth Nat.Prime i ∣ m :=
  ⟨fun h => by exact_mod_cast Int.dvd_of_emod_eq_zero h, fun h => Int.emod_eq_zero_of_dvd (by exact_mod_cast h)⟩
have d2 : ((m:ℤ) % ((Nat.nth Nat.Prime i : ℕ) * (Nat.nth Nat.Prime i : ℕ)) = 0) ↔ Nat.nth Nat.Prime i * Nat.nth Nat.Prime i ∣ m :=
  ⟨fun h => by exact_mod_cast Int.dvd_of_emod_eq_zero h, fun h => Int.emod_eq_zero_of_dvd (by exact_mod_cast h)⟩
simp only [S.muP, S.vaP, Int.toNat_natCast]
rw [filter_lt_step (fun p => if p * p ∣ m then 0 else -1) m (by omega) i, filter_lt_step (fun p => if p * p ∣ m then 1 else (p:ℤ)) m (by omega) i]
rw [h1]
simp only [ne_eq, d1, d2, ite_not]
trivial
''')
lemma('muP_done', 'm:int, q:int', 'implies(m >= 1 and q >= 1 and q * q > m, mu(m) == ite(muP(m, q) != 0 and vaP(m, q) < m, -muP(m, q), muP(m, q)))', '''
rintro ⟨hm, hq1, hq⟩
obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ m)
obtain ⟨q, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ q)
have hq' : m < q * q := by exact_mod_cast hq
simp only [S.mu, S.muP, S.vaP, Int.toNat_natCast, Nat.cast_lt]
by_cases hs : ∃ p ∈ m.primeFactors.filter (fun p => p < q), p * p ∣ m
· obtain ⟨p, hp, hpp⟩ := hs
  have z : ∏ p ∈ m.primeFactors.filter (fun p => p < q), (if p * p ∣ m then (0:ℤ) else -1) = 0 :=
    Finset.prod_eq_zero hp (if_pos hpp)
  rw [z]
  simp only [Finset.mem_filter, Nat.mem_primeFactors] at hp
  rw [ArithmeticFunction.moebius_eq_zero_of_not_squarefree]
  · simp
  · intro h
    exact hp.1.1.one_lt.ne' (Nat.isUnit_iff.1 (h p hpp))
· push Not at hs
  have hsq : Squarefree m := by
    rw [Nat.squarefree_iff_prime_squarefree]
    intro p hp hd
    have h1 := Nat.le_of_dvd (by omega) hd
    have : p < q := by by_contra hc; have : q * q ≤ p * p := Nat.mul_le_mul (by omega) (by omega)
                       omega
    exact hs p (by simp only [Finset.mem_filter, Nat.mem_primeFactors]; exact ⟨⟨hp, dvd_trans (dvd_mul_left _ _) hd, by omega⟩, this⟩) hd
  have e1 : ∏ p ∈ m.primeFactors.filter (fun p => p < q), (if p * p ∣ m then (0:ℤ) else -1) = (-1) ^ (m.primeFactors.filter (fun p => p < q)).card := by
    rw [← Finset.prod_const]
    exact Finset.prod_congr rfl (fun p hp => if_neg (hs p hp))
  have e2 : ∏ p ∈ m.primeFactors.filter (fun p => p < q), (if p * p ∣ m then (1:ℤ) else p) = ((∏ p ∈ m.primeFactors.filter (fun p => p < q), p : ℕ) : ℤ) := by
    push_cast
    exact Finset.prod_congr rfl (fun p hp => if_neg (hs p hp))
  rw [e1, e2]
  have hmu : ArithmeticFunction.moebius m = (-1) ^ m.primeFactors.card := by
    rw [ArithmeticFunction.moebius_apply_of_squarefree hsq, ← (ArithmeticFunction.cardDistinctFactors_eq_cardFactors_iff_squarefree (by omega)).2 hsq,
      ArithmeticFunction.cardDistinctFactors_apply]
    rfl
  have hall := Nat.prod_primeFactors_of_squarefree hsq
  have hsplit := Finset.filter_union_filter_not_eq (fun p => p < q) m.primeFactors
  have hdis := Finset.disjoint_filter_filter_not m.primeFactors m.primeFactors (fun p => p < q)
  have hprod : (∏ p ∈ m.primeFactors.filter (fun p => p < q), p) * (∏ p ∈ m.primeFactors.filter (fun p => ¬ p < q), p) = m := by
    rw [Finset.prod_filter_mul_prod_filter_not, hall]
  have hcard : m.primeFactors.card = (m.primeFactors.filter (fun p => p < q)).card + (m.primeFactors.filter (fun p => ¬ p < q)).card :=
    (Finset.card_filter_add_card_filter_not _).symm
  have hone : (m.primeFactors.filter (fun p => ¬ p < q)).card ≤ 1 := by
    rw [Finset.card_le_one]
    intro a ha b hb
    simp only [Finset.mem_filter, Nat.mem_primeFactors] at ha hb
    by_contra hne
    have h1 : a * b ∣ m := (Nat.coprime_primes ha.1.1 hb.1.1).2 hne |>.mul_dvd_of_dvd_of_dvd ha.1.2.1 hb.1.2.1
    have := Nat.le_of_dvd (by omega) h1
    have : q * q ≤ a * b := Nat.mul_le_mul (by omega) (by omega)
    omega
  rcases Nat.lt_or_ge (m.primeFactors.filter (fun p => ¬ p < q)).card 1 with h0 | h0
  · have h00 : m.primeFactors.filter (fun p => ¬ p < q) = ∅ := Finset.card_eq_zero.1 (by omega)
    rw [h00, Finset.prod_empty, mul_one] at hprod
    rw [hprod, if_neg (by omega), hmu, hcard, h00]; simp
  · obtain ⟨r, hr⟩ := Finset.card_eq_one.1 (by omega : (m.primeFactors.filter (fun p => ¬ p < q)).card = 1)
    have hrm : r ∈ m.primeFactors.filter (fun p => ¬ p < q) := by rw [hr]; simp
    simp only [Finset.mem_filter, Nat.mem_primeFactors] at hrm
    rw [hr, Finset.prod_singleton] at hprod
    have hpos : 0 < ∏ p ∈ m.primeFactors.filter (fun p => p < q), p := Nat.pos_of_ne_zero (fun h => by rw [h] at hprod; omega)
    have hlt : ∏ p ∈ m.primeFactors.filter (fun p => p < q), p < m := by
      have := hrm.1.1.two_le
      nlinarith
    rw [if_pos ⟨by simp, by exact_mod_cast hlt⟩, hmu, hcard, hr, Finset.card_singleton, pow_succ]; simp
''')
lemma('mul_div_self', 'k:int, j:int', 'implies(j >= 1, (k * j) // j == k)', 'intro h; exact Int.mul_ediv_cancel _ (by omega)')
