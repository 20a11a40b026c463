"""Units modulo n: primitive roots, orders, square roots modulo primes, linear congruences, discrete logarithms."""
from pyvc.theory import begin, fn, lemma, raw
begin('zn', ['arith', 'crt', 'primes', 'factor', 'arithf'])
fn('proot', 'int, int -> bool', 'fun a n => 2 ≤ n ∧ IsCoprime a n ∧ orderOf (a : ZMod n.toNat) = Nat.totient n.toNat')
raw('''
theorem pow_mod_one_iff (a n e : ℤ) (hn : 2 ≤ n) : S.powZ a e % n = 1 ↔ (a : ZMod n.toNat) ^ e.toNat = 1 := by
  have e1 : ((n.toNat : ℕ) : ℤ) = n := Int.toNat_of_nonneg (by omega)
  have : ((a ^ e.toNat : ℤ) : ZMod n.toNat) = ((1:ℤ) : ZMod n.toNat) ↔ a ^ e.toNat ≡ 1 [ZMOD n] := by
    rw [ZMod.intCast_eq_intCast_iff, e1]
  push_cast at this
  rw [this]
  simp only [S.powZ, Int.ModEq]
  rw [Int.emod_eq_of_lt (by norm_num : (0:ℤ) ≤ 1) (by omega)]
theorem unit_of_coprime (a n : ℤ) (hn : 2 ≤ n) (h : IsCoprime a n) : ∃ u : (ZMod n.toNat)ˣ, (u : ZMod n.toNat) = (a : ZMod n.toNat) := by
  have e1 : ((n.toNat : ℕ) : ℤ) = n := Int.toNat_of_nonneg (by omega)
  have : IsUnit (a : ZMod n.toNat) := by
    rw [← e1] at h
    exact (ZMod.coe_int_isUnit_iff_isCoprime a n.toNat).2 h.symm
  exact this
theorem proot_core (a n : ℤ) (hn : 2 ≤ n) (h : IsCoprime a n) :
    S.proot a n ↔ ∀ q : ℕ, q.Prime → q ∣ Nat.totient n.toNat → (a : ZMod n.toNat) ^ (Nat.totient n.toNat / q) ≠ 1 := by
  obtain ⟨u, hu⟩ := unit_of_coprime a n hn h
  have hpos : 0 < Nat.totient n.toNat := Nat.totient_pos.2 (by omega)
  have h1 : (a : ZMod n.toNat) ^ Nat.totient n.toNat = 1 := by
    rw [← hu, ← Units.val_pow_eq_pow_val, ZMod.pow_totient]; rfl
  constructor
  · rintro ⟨_, _, ho⟩ q hq hd hc
    have := orderOf_dvd_of_pow_eq_one hc
    rw [ho] at this
    have h3 : 0 < Nat.totient n.toNat / q := Nat.div_pos (Nat.le_of_dvd hpos hd) hq.pos
    have h4 := Nat.le_of_dvd h3 this
    have h5 : Nat.totient n.toNat / q < Nat.totient n.toNat := Nat.div_lt_self hpos hq.one_lt
    omega
  · intro H
    exact ⟨hn, h, orderOf_eq_of_pow_and_pow_div_prime hpos h1 H⟩
''')
lemma('proot_iff', 'a:int, n:int', '''implies(n >= 2 and gcdZ(a, n) == 1,
   iff(proot(a, n), forallT(int, q, implies(isprime(q) and phi(n) % q == 0, powZ(a, phi(n) // q) % n != 1), isprime(q))))''', '''
rintro ⟨hn, hg⟩
have hc : IsCoprime a n := by
  rw [Int.isCoprime_iff_gcd_eq_one]; simp only [S.gcdZ] at hg; exact_mod_cast hg
rw [proot_core a n hn hc]
have hphi : ∀ q : ℕ, (S.phi n / (q:ℤ)).toNat = Nat.totient n.toNat / q := by
  intro q; simp only [S.phi]; norm_cast
constructor
· intro H q ⟨hq, hd⟩
  obtain ⟨p, rfl, hp⟩ := (isprime_iff q).1 hq
  rw [Ne, pow_mod_one_iff a n _ hn, hphi]
  refine H p hp ?_
  have := Int.dvd_of_emod_eq_zero hd
  simp only [S.phi] at this; exact_mod_cast this
· intro H q hq hd
  have := H (q:ℤ) ⟨(isprime_nat q).2 hq, Int.emod_eq_zero_of_dvd (by simp only [S.phi]; exact_mod_cast hd)⟩
  rw [Ne, pow_mod_one_iff a n _ hn, hphi] at this
  exact this
''')
lemma('proot_gcd', 'a:int, n:int', 'implies(proot(a, n), n >= 2 and gcdZ(a, n) == 1)', '''
rintro ⟨hn, hc, _⟩
refine ⟨hn, ?_⟩
rw [Int.isCoprime_iff_gcd_eq_one] at hc
simp only [S.gcdZ]; exact_mod_cast hc
''')
raw('''
theorem proot_cyclic (n : ℤ) (hn : 2 ≤ n) : (∃ g : ℤ, S.proot g n) ↔ IsCyclic (ZMod n.toNat)ˣ := by
  haveI : NeZero n.toNat := ⟨by omega⟩
  constructor
  · rintro ⟨g, _, hc, ho⟩
    obtain ⟨u, hu⟩ := unit_of_coprime g n hn hc
    rw [← hu, orderOf_units] at ho
    exact isCyclic_of_orderOf_eq_card u (by rw [ho, Nat.card_eq_fintype_card, ZMod.card_units_eq_totient])
  · intro h
    obtain ⟨u, hu⟩ := IsCyclic.exists_generator (α := (ZMod n.toNat)ˣ)
    refine ⟨((u : ZMod n.toNat).val : ℤ), hn, ?_, ?_⟩
    · have h1 := ZMod.val_coe_unit_coprime u
      have e1 : ((n.toNat : ℕ) : ℤ) = n := Int.toNat_of_nonneg (by omega)
      have h2 := (Nat.isCoprime_iff_coprime).2 h1
      rwa [e1] at h2
    · have : (((u : ZMod n.toNat).val : ℤ) : ZMod n.toNat) = (u : ZMod n.toNat) := by simp
      rw [this, orderOf_units, orderOf_eq_card_of_forall_mem_zpowers hu, Nat.card_eq_fintype_card, ZMod.card_units_eq_totient]
''')
lemma('proot_no4', 'a:int, n:int', 'implies(n > 4 and n % 4 == 0, not proot(a, n))', '''
rintro ⟨h4, hm⟩ h
have hc := (proot_cyclic n (by omega)).1 ⟨a, h⟩
obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ n)
simp only [Int.toNat_natCast] at hc
rw [ZMod.isCyclic_units_iff] at hc
have hd : 2 ^ 2 ∣ k := by
  have : (4:ℤ) ∣ k := Int.dvd_of_emod_eq_zero hm
  norm_num; exact_mod_cast this
rcases hc with h | h | h | h | ⟨p, m, hp, hodd, hm1, h⟩
· omega
· omega
· omega
· omega
· have hcop : Nat.Coprime 2 (p ^ m) := by
    apply Nat.Coprime.pow_right
    exact (Nat.coprime_two_left).2 hodd
  rcases h with h | h
  · have : 2 ∣ p ^ m := by rw [← h]; exact dvd_trans (by norm_num) hd
    have := Nat.Coprime.eq_one_of_dvd hcop this
    omega
  · have : 2 ∣ p ^ m := by
      rw [h, pow_two] at hd
      exact Nat.dvd_of_mul_dvd_mul_left (by norm_num) hd
    have := Nat.Coprime.eq_one_of_dvd hcop this
    omega
''')

raw('''
theorem pf_card (A : ℤ → ℤ × ℤ) (k n : ℤ) (hn : 1 ≤ n) (hp : S.pfok A k) (he : S.prodPE A k = n) : k.toNat ≤ n.toNat.primeFactors.card := by
  have : (Finset.range k.toNat).card ≤ n.toNat.primeFactors.card := by
    refine Finset.card_le_card_of_injOn (s := Finset.range k.toNat) (t := n.toNat.primeFactors) (fun i : ℕ => (A (i:ℤ)).1.toNat) ?_ ?_
    · intro i hi
      simp only [Finset.coe_range, Set.mem_Iio] at hi
      obtain ⟨h1, h2, h3⟩ := hp i (by omega) (by omega)
      simp only [Finset.mem_coe, Nat.mem_primeFactors]
      refine ⟨h1.2, ?_, by omega⟩
      have hd : (A (i:ℤ)).1 ∣ n := by
        rw [← he]; simp only [S.prodPE]
        refine dvd_trans (dvd_pow_self _ (by omega : (A (i:ℤ)).2.toNat ≠ 0)) ?_
        exact Finset.dvd_prod_of_mem (fun i : ℕ => (A (i:ℤ)).1 ^ (A (i:ℤ)).2.toNat) (Finset.mem_range.2 hi)
      have h4 := h1.1
      obtain ⟨q, hq⟩ := Int.eq_ofNat_of_zero_le h4
      obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ n)
      rw [hq] at hd ⊢
      simp only [Int.toNat_natCast]
      exact_mod_cast hd
    · intro i hi j hj hij
      simp only [Finset.coe_range, Set.mem_Iio] at hi hj
      obtain ⟨h1, h2, h3⟩ := hp i (by omega) (by omega)
      obtain ⟨g1, g2, g3⟩ := hp j (by omega) (by omega)
      have hh := h1.1
      have gg := g1.1
      simp only at hij
      have e : (A (i:ℤ)).1 = (A (j:ℤ)).1 := by omega
      by_contra hne
      rcases lt_or_gt_of_ne hne with hl | hl
      · exact g3 i (by omega) (by omega) e
      · exact h3 j (by omega) (by omega) e.symm
  simpa using this
theorem proot_lt (n : ℤ) (h : ∃ g : ℤ, S.proot g n) : ∃ g : ℤ, 1 ≤ g ∧ g < n ∧ S.proot g n := by
  obtain ⟨g, hn, hc, ho⟩ := h
  have e1 : ((n.toNat : ℕ) : ℤ) = n := Int.toNat_of_nonneg (by omega)
  have hc2 : IsCoprime (g % n) n := by
    have := Int.emod_add_mul_ediv g n
    have e : g = g % n + n * (g / n) := this.symm
    rw [e] at hc
    exact (IsCoprime.add_mul_left_left_iff).1 hc
  have e2 : ((g % n : ℤ) : ZMod n.toNat) = (g : ZMod n.toNat) := by
    rw [ZMod.intCast_eq_intCast_iff, e1]; exact Int.mod_modEq _ _
  refine ⟨g % n, ?_, Int.emod_lt_of_pos _ (by omega), hn, hc2, by rw [e2]; exact ho⟩
  have h0 := Int.emod_nonneg g (by omega : n ≠ 0)
  by_contra hlt
  have : g % n = 0 := by omega
  rw [this, isCoprime_zero_left] at hc2
  rcases Int.isUnit_iff.1 hc2 with h | h <;> omega
''')
lemma('proot_exists', 'A:arr[tuple[int,int]], k:int, n:int', '''implies(n >= 2 and k >= 0 and pfok(A, k) and prodPE(A, k) == n,
   iff(not (n % 4 == 0 and n != 4) and k <= 2 and not (n % 2 == 1 and k > 1), exists(g, 1, n, proot(g, n))))''', '''
rintro ⟨hn, hk, hp, he⟩
have hcard := pf_card A k n (by omega) hp he
have iff1 : (∃ g : ℤ, 1 ≤ g ∧ g < n ∧ S.proot g n) ↔ IsCyclic (ZMod n.toNat)ˣ := by
  rw [← proot_cyclic n hn]
  exact ⟨fun ⟨g, _, _, h⟩ => ⟨g, h⟩, proot_lt n⟩
obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ n)
simp only [Int.toNat_natCast] at *
rw [ZMod.isCyclic_units_iff] at iff1
have iff2 : (¬ ((m:ℤ) % 4 = 0 ∧ (m:ℤ) ≠ 4) ∧ k ≤ 2 ∧ ¬ ((m:ℤ) % 2 = 1 ∧ 1 < k)) ↔ (m = 0 ∨ m = 1 ∨ m = 2 ∨ m = 4 ∨ ∃ p j : ℕ, p.Prime ∧ Odd p ∧ 1 ≤ j ∧ (m = p ^ j ∨ m = 2 * p ^ j)) := by
  have el : ∀ i : ℤ, 0 ≤ i → i < k → ∃ p e : ℕ, p.Prime ∧ 1 ≤ e ∧ (A i).1 = p ∧ (A i).2 = e := by
    intro i hi hik
    obtain ⟨h1, h2, _⟩ := hp i hi hik
    obtain ⟨p, hp1, hp2⟩ := (isprime_iff _).1 h1
    obtain ⟨e, he1⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ (A i).2)
    exact ⟨p, e, hp2, by omega, hp1, he1⟩
  constructor
  · rintro ⟨h4, h2, h1⟩
    right; right
    have hk1 : k ≠ 0 := by
      rintro rfl
      simp [S.prodPE] at he; omega
    rcases (by omega : k = 1 ∨ k = 2) with rfl | rfl
    · obtain ⟨p, e, hpp, he1, ha, hb⟩ := el 0 (by norm_num) (by norm_num)
      have hm : m = p ^ e := by
        have : ((p ^ e : ℕ) : ℤ) = m := by
          rw [← he]; simp [S.prodPE, ha, hb]
        exact_mod_cast this.symm
      rcases hpp.eq_two_or_odd' with rfl | hodd
      · rcases (by omega : e = 1 ∨ e = 2 ∨ 3 ≤ e) with rfl | rfl | h3
        · left; simpa using hm
        · right; left; simpa using hm
        · exfalso
          obtain ⟨t, rfl⟩ := Nat.exists_eq_add_of_le h3
          apply h4
          rw [pow_add] at hm
          have : 1 ≤ 2 ^ t := Nat.one_le_two_pow
          constructor
          · rw [hm]; push_cast; omega
          · rw [hm]; push_cast
            have : (1:ℤ) ≤ 2 ^ t := by exact_mod_cast this
            omega
      · right; right; exact ⟨p, e, hpp, hodd, he1, Or.inl hm⟩
    · obtain ⟨p, e, hpp, he1, ha, hb⟩ := el 0 (by norm_num) (by norm_num)
      obtain ⟨q, f, hqq, hf1, hc, hd⟩ := el 1 (by norm_num) (by norm_num)
      have hne : p ≠ q := by
        rintro rfl
        exact (hp 1 (by norm_num) (by norm_num)).2.2 0 (by norm_num) (by norm_num) (by rw [ha, hc])
      have hm : m = p ^ e * q ^ f := by
        have : ((p ^ e * q ^ f : ℕ) : ℤ) = m := by
          rw [← he]; simp [S.prodPE, Finset.prod_range_succ, ha, hb, hc, hd]
        exact_mod_cast this.symm
      have h4' : ¬ 4 ∣ m := by
        intro hd4
        have : (m:ℤ) = 4 := by
          by_contra hx
          exact h4 ⟨by omega, hx⟩
        have hm4 : m = 2 ^ 2 := by norm_num; exact_mod_cast this
        rw [hm4, Nat.primeFactors_prime_pow (by norm_num) Nat.prime_two] at hcard
        simp at hcard
      have h2m : 2 ∣ m := by omega
      have key : ∀ p q e f : ℕ, p.Prime → q.Prime → p ≠ q → 1 ≤ e → 1 ≤ f → m = p ^ e * q ^ f → p = 2 → m = 2 ∨ m = 4 ∨ ∃ p j : ℕ, p.Prime ∧ Odd p ∧ 1 ≤ j ∧ (m = p ^ j ∨ m = 2 * p ^ j) := by
        intro p q e f hp hq hne he hf hm hp2
        subst hp2
        have hoq : Odd q := by
          rcases hq.eq_two_or_odd' with h | h
          · exact absurd h.symm hne
          · exact h
        have e1 : e = 1 := by
          by_contra hx
          apply h4'
          rw [hm]
          apply Dvd.dvd.mul_right
          have : 2 ^ 2 ∣ 2 ^ e := pow_dvd_pow 2 (by omega)
          simpa using this
        right; right
        exact ⟨q, f, hq, hoq, hf, Or.inr (by rw [hm, e1, pow_one])⟩
      rw [hm] at h2m
      rcases (Nat.prime_two.dvd_mul).1 h2m with h | h
      · have := (Nat.prime_dvd_prime_iff_eq Nat.prime_two hpp).1 (Nat.prime_two.dvd_of_dvd_pow h)
        exact key p q e f hpp hqq hne he1 hf1 hm this.symm
      · have := (Nat.prime_dvd_prime_iff_eq Nat.prime_two hqq).1 (Nat.prime_two.dvd_of_dvd_pow h)
        exact key q p f e hqq hpp hne.symm hf1 he1 (by rw [hm]; ring) this.symm
  · rintro (h | h | h | h | ⟨p, j, hpp, hodd, hj, h⟩)
    · omega
    · omega
    · subst h
      rw [Nat.prime_two.primeFactors] at hcard
      simp at hcard
      refine ⟨by norm_num, by omega, by norm_num⟩
    · subst h
      rw [show (4:ℕ) = 2 ^ 2 by norm_num, Nat.primeFactors_prime_pow (by norm_num) Nat.prime_two] at hcard
      simp at hcard
      refine ⟨by norm_num, by omega, by norm_num⟩
    · have hop : Odd (p ^ j) := hodd.pow
      rcases h with rfl | rfl
      · rw [Nat.primeFactors_prime_pow (by omega) hpp] at hcard
        simp at hcard
        have : ¬ 2 ∣ p ^ j := by have := Nat.odd_iff.1 hop; omega
        refine ⟨by omega, by omega, by omega⟩
      · have hc2 : (2 * p ^ j).primeFactors.card ≤ 2 := by
          rw [Nat.primeFactors_mul (by norm_num) (by positivity [hpp.pos]), Nat.prime_two.primeFactors, Nat.primeFactors_prime_pow (by omega) hpp]
          exact (Finset.card_union_le _ _).trans (by simp)
        have h1 : ¬ 2 ∣ p ^ j := by have := Nat.odd_iff.1 hop; omega
        refine ⟨by omega, by omega, by omega⟩
rw [iff2]
constructor
· intro h
  obtain ⟨g, h1, h2, h3⟩ := iff1.2 h
  exact ⟨g, h1, h2, h3⟩
· rintro ⟨g, h1, h2, h3⟩
  exact iff1.1 ⟨g, h1, h2, h3⟩
''')

lemma('order_phi', 'a:int, n:int', 'implies(n >= 2 and gcdZ(a, n) == 1, powZ(a, phi(n)) % n == 1 and phi(n) >= 1)', '''
rintro ⟨hn, hg⟩
have hc : IsCoprime a n := by
  rw [Int.isCoprime_iff_gcd_eq_one]; simp only [S.gcdZ] at hg; exact_mod_cast hg
obtain ⟨u, hu⟩ := unit_of_coprime a n hn hc
have hpos : 0 < Nat.totient n.toNat := Nat.totient_pos.2 (by omega)
refine ⟨?_, by simp only [S.phi]; omega⟩
rw [pow_mod_one_iff a n _ hn]
simp only [S.phi, Int.toNat_natCast]
rw [← hu, ← Units.val_pow_eq_pow_val, ZMod.pow_totient]; rfl
''')
lemma('order_dvd', 'a:int, n:int, d:int', '''implies(n >= 2 and gcdZ(a, n) == 1 and d >= 1 and powZ(a, d) % n == 1 and
   forall(j, 1, d, implies(phi(n) % j == 0, powZ(a, j) % n != 1)), forall(j, 1, d, powZ(a, j) % n != 1))''', '''
rintro ⟨hn, hg, hd, h1, hj⟩ j hj1 hjd hc
have hpos : 0 < Nat.totient n.toNat := Nat.totient_pos.2 (by omega)
rw [pow_mod_one_iff a n _ hn] at hc
have h2 := (order_phi a n ⟨hn, hg⟩).1
rw [pow_mod_one_iff a n _ hn] at h2
simp only [S.phi, Int.toNat_natCast] at h2
have e1 := orderOf_dvd_of_pow_eq_one hc
have e2 := orderOf_dvd_of_pow_eq_one h2
have e3 := Nat.le_of_dvd (by omega) e1
have e4 : 0 < orderOf (a : ZMod n.toNat) := Nat.pos_of_dvd_of_pos e2 hpos
refine hj (orderOf (a : ZMod n.toNat)) (by omega) (by omega) ?_ ?_
· simp only [S.phi]
  exact Int.emod_eq_zero_of_dvd (by exact_mod_cast e2)
· rw [pow_mod_one_iff a n _ hn, Int.toNat_natCast]
  exact pow_orderOf_eq_one _
''')
lemma('phi_lt', 'n:int', 'implies(n >= 2, phi(n) < n and phi(n) >= 1)', '''
intro hn
have := Nat.totient_lt n.toNat (by omega)
have hpos : 0 < Nat.totient n.toNat := Nat.totient_pos.2 (by omega)
simp only [S.phi]; omega
''')
# square roots modulo a prime
lemma('two_roots', 'a:int, p:int, x:int', '''implies(isprime(p) and p >= 3 and 0 < a and a < p and 0 <= x and x < p and (x * x) % p == a,
   0 < x and x != p - x and ((p - x) * (p - x)) % p == a and forall(y, 0, p, implies((y * y - a) % p == 0, y == x or y == p - x)))''', '''
rintro ⟨hp, h3, ha, hap, hx, hxp, hxa⟩
obtain ⟨q, rfl, hq⟩ := (isprime_iff p).1 hp
have hpp := Nat.prime_iff_prime_int.1 hq
have hx0 : x ≠ 0 := by rintro rfl; simp at hxa; omega
refine ⟨by omega, ?_, ?_, ?_⟩
· intro he
  have : (q:ℤ) = 2 * x := by omega
  have h2 : 2 ∣ q := by omega
  have := (Nat.prime_dvd_prime_iff_eq Nat.prime_two hq).1 h2
  omega
· have : ((q:ℤ) - x) * (q - x) = x * x + q * (q - 2 * x) := by ring
  rw [this, Int.add_mul_emod_self_left]; exact hxa
· intro y hy hyq h
  have h1 : (q:ℤ) ∣ x * x - a := Int.dvd_of_emod_eq_zero (by rw [Int.sub_emod, hxa, Int.emod_eq_of_lt (by omega) hap]; simp)
  have h2 : (q:ℤ) ∣ y * y - a := Int.dvd_of_emod_eq_zero h
  have h4 : (q:ℤ) ∣ (y - x) * (y + x) := by
    have := dvd_sub h2 h1
    have e : y * y - a - (x * x - a) = (y - x) * (y + x) := by ring
    rwa [e] at this
  rcases hpp.dvd_or_dvd h4 with h5 | h5
  · left
    obtain ⟨c, hc⟩ := h5
    have : c = 0 := by
      by_contra hne
      rcases lt_or_gt_of_ne hne with h | h <;> nlinarith
    rw [this] at hc; omega
  · right
    obtain ⟨c, hc⟩ := h5
    have hxp2 : 0 < x := by omega
    have : c = 1 := by
      have : 0 < c := by
        by_contra hh
        have : (q:ℤ) * c ≤ 0 := mul_nonpos_of_nonneg_of_nonpos (by omega) (by omega)
        omega
      by_contra hne
      have : 2 ≤ c := by omega
      nlinarith
    rw [this] at hc; omega
''')
lemma('nonres', 'a:int, p:int', 'implies(isprime(p) and p >= 3 and a % p != 0 and jac(a, p) != 1, forallT(int, y, (y * y - a) % p != 0, y * y))', '''
rintro ⟨hp, h3, ha, hj⟩ y hy
have h0 := jac_prime_zero a p ⟨hp, ha⟩
have hj2 : S.jac a p = -1 := by omega
have e := euler_criterion a p ⟨hp, h3⟩
rw [hj2] at e
have hya : y * y ≡ a [ZMOD p] := (Int.modEq_iff_dvd.2 (by
  have := Int.dvd_of_emod_eq_zero hy
  rw [show a - y * y = -(y * y - a) by ring]; exact (Int.dvd_neg).2 this))
have hy0 : y % p ≠ 0 := by
  intro h
  apply ha
  have : y * y % p = 0 := by rw [Int.mul_emod, h]; simp
  rw [← this]; exact hya.symm
have f := fermat_little p y ⟨hp, hy0⟩
have : S.powZ y (p - 1) ≡ S.powZ a ((p - 1) / 2) [ZMOD p] := by
  simp only [S.powZ]
  have hodd : p % 2 = 1 := by
    obtain ⟨q, rfl, hq⟩ := (isprime_iff p).1 hp
    rcases hq.eq_two_or_odd with h | h <;> omega
  have e1 : (p - 1).toNat = 2 * ((p - 1) / 2).toNat := by omega
  rw [e1, pow_mul, pow_two]
  exact hya.pow _
have g : (1:ℤ) % p = (-1) % p := by
  rw [Int.emod_eq_of_lt (by norm_num) (by omega : (1:ℤ) < p), ← e, ← this.eq, f]
have : (p:ℤ) ∣ 1 - (-1) := Int.dvd_of_emod_eq_zero (Int.emod_emod_of_dvd _ dvd_rfl ▸ by rw [Int.sub_emod, g]; simp)
have := Int.le_of_dvd (by norm_num) this
omega
''')
raw('''
theorem zp (a p : ℤ) (hp : S.isprime p) (h3 : 3 ≤ p) (ha : a % p ≠ 0) (hj : S.jac a p = 1) : (a : ZMod p.toNat) ^ ((p - 1) / 2).toNat = 1 := by
  have e := euler_criterion a p ⟨hp, h3⟩
  rw [hj, Int.emod_eq_of_lt (by norm_num : (0:ℤ) ≤ 1) (by omega)] at e
  exact (pow_mod_one_iff a p _ (by omega)).1 e
theorem zp2 (a p : ℤ) (hp : S.isprime p) (h3 : 3 ≤ p) (hj : S.jac a p = -1) : (a : ZMod p.toNat) ^ ((p - 1) / 2).toNat = -1 := by
  have e := euler_criterion a p ⟨hp, h3⟩
  rw [hj] at e
  have e1 : ((p.toNat : ℕ) : ℤ) = p := Int.toNat_of_nonneg (by omega)
  have : ((S.powZ a ((p - 1) / 2) : ℤ) : ZMod p.toNat) = ((-1 : ℤ) : ZMod p.toNat) := by
    rw [ZMod.intCast_eq_intCast_iff, e1]; exact e
  simp only [S.powZ] at this
  push_cast at this
  exact this
theorem zmod_eq (x y p : ℤ) (hp : 2 ≤ p) : (x : ZMod p.toNat) = (y : ZMod p.toNat) ↔ x % p = y % p := by
  have e1 : ((p.toNat : ℕ) : ℤ) = p := Int.toNat_of_nonneg (by omega)
  rw [ZMod.intCast_eq_intCast_iff, e1]; rfl
theorem zmod_mod (x p : ℤ) (hp : 2 ≤ p) : ((x % p : ℤ) : ZMod p.toNat) = (x : ZMod p.toNat) := by
  rw [zmod_eq _ _ _ hp]; exact Int.emod_emod_of_dvd x dvd_rfl
theorem mySqOne {q : ℕ} [Fact q.Prime] {x : ZMod q} (h : x ^ 2 = 1) : x = 1 ∨ x = -1 := by
  have : (x - 1) * (x + 1) = 0 := by linear_combination h
  rcases mul_eq_zero.1 this with h | h
  · left; linear_combination h
  · right; linear_combination h
theorem zfield (p : ℤ) (hp : S.isprime p) : Fact (p.toNat.Prime) := ⟨hp.2⟩
''')
lemma('sq34', 'a:int, p:int', 'implies(isprime(p) and p % 4 == 3 and a % p != 0 and jac(a, p) == 1, ((powZ(a, (p + 1) // 4) % p) * (powZ(a, (p + 1) // 4) % p)) % p == a % p)', '''
rintro ⟨hp, h4, ha, hj⟩
have h2 := prime_ge2 p hp
have h := zp a p hp (by omega) ha hj
rw [← zmod_eq _ _ _ h2]
push_cast
rw [zmod_mod _ _ h2]
simp only [S.powZ]
push_cast
rw [← pow_add, show ((p+1)/4).toNat + ((p+1)/4).toNat = ((p-1)/2).toNat + 1 by omega, pow_add, h]; simp
''')
lemma('sq58', 'a:int, p:int, x:int', '''implies(isprime(p) and p % 8 == 5 and a % p != 0 and jac(a, p) == 1 and x == powZ(a, (p + 3) // 8) % p and (x * x) % p != a % p,
   ((x * (powZ(2, (p - 1) // 4) % p) % p) * (x * (powZ(2, (p - 1) // 4) % p) % p)) % p == a % p)''', '''
rintro ⟨hp, h4, ha, hj, hx, hn⟩
have h2 := prime_ge2 p hp
haveI := zfield p hp
have h := zp a p hp (by omega) ha hj
have hx2 : (x : ZMod p.toNat) = (a : ZMod p.toNat) ^ ((p+3)/8).toNat := by
  rw [hx, zmod_mod _ _ h2]; simp only [S.powZ]; push_cast; rfl
have hj2 : S.jac 2 p = -1 := by
  simp only [S.jac]
  rw [jacobiSym.at_two (Nat.odd_iff.2 (by omega : p.toNat % 2 = 1)), ZMod.χ₈_nat_mod_eight, show p.toNat % 8 = 5 by omega]; rfl
have g := zp2 2 p hp (by omega) hj2
have hs : ((a : ZMod p.toNat) ^ ((p-1)/4).toNat) ^ 2 = 1 := by
  rw [← pow_mul, show ((p-1)/4).toNat * 2 = ((p-1)/2).toNat by omega, h]
have hxx : (x : ZMod p.toNat) * x = a * (a : ZMod p.toNat) ^ ((p-1)/4).toNat := by
  rw [hx2, ← pow_add, ← pow_succ']
  congr 1; omega
have hm : (a : ZMod p.toNat) ^ ((p-1)/4).toNat = -1 := by
  rcases sq_eq_one_iff_of_ne_zero'.1 hs with h | h
  · exfalso; apply hn
    rw [← zmod_eq _ _ _ h2]; push_cast; rw [hxx, h, mul_one]
  · exact h
rw [← zmod_eq _ _ _ h2]
push_cast
rw [zmod_mod _ _ h2]
push_cast
rw [zmod_mod _ _ h2]
simp only [S.powZ]
push_cast
have g2 : (2 : ZMod p.toNat) ^ ((p-1)/4).toNat * 2 ^ ((p-1)/4).toNat = -1 := by
  rw [← pow_add, show ((p-1)/4).toNat + ((p-1)/4).toNat = ((p-1)/2).toNat by omega]; exact_mod_cast g
calc (x : ZMod p.toNat) * 2 ^ ((p-1)/4).toNat * (x * 2 ^ ((p-1)/4).toNat) = (x * x) * (2 ^ ((p-1)/4).toNat * 2 ^ ((p-1)/4).toNat) := by ring
  _ = a := by rw [g2, hxx, hm]; ring
'''.replace("sq_eq_one_iff_of_ne_zero'.1 hs", "mySqOne hs").replace("rcases mySqOne hs with", "rcases (sq_eq_one_iff_of_ne hs) with").replace("(sq_eq_one_iff_of_ne hs)", "mySqOne hs"))
# Tonelli-Shanks as a loop over the bits of m
fn('tsI', 'int, int, int, int, int, int -> bool', '''fun A D p s i m => 0 ≤ m ∧ 0 ≤ i ∧ i ≤ s ∧ 1 ≤ s ∧ (1 ≤ i → m % 2 = 0) ∧ (i = 0 → m = 0) ∧
  (D : ZMod p.toNat) ^ (2 ^ (s - 1).toNat) = -1 ∧ (A : ZMod p.toNat) ^ (2 ^ (s - 1).toNat) = 1 ∧
  ((A : ZMod p.toNat) * (D : ZMod p.toNat) ^ m.toNat) ^ (2 ^ (s - i).toNat) = 1''')
lemma('ts_start', 'a:int, d:int, p:int, s:int, t:int', '''implies(isprime(p) and p >= 3 and a % p != 0 and jac(a, p) == 1 and jac(d, p) == -1 and s >= 1 and t >= 0 and p - 1 == powZ(2, s) * t,
   tsI(powZ(a, t) % p, powZ(d, t) % p, p, s, 0, 0))''', '''
rintro ⟨hp, h3, ha, hj, hd, hs, ht, he⟩
have h2 := prime_ge2 p hp
have e1 := zp a p hp h3 ha hj
have e2 := zp2 d p hp h3 hd
obtain ⟨k, rfl⟩ : ∃ k : ℕ, s = k + 1 := ⟨(s-1).toNat, by omega⟩
obtain ⟨t, rfl⟩ := Int.eq_ofNat_of_zero_le ht
have e3 : ((p - 1) / 2).toNat = t * 2 ^ k := by
  simp only [S.powZ] at he
  have : ((k:ℤ) + 1).toNat = k + 1 := by omega
  rw [this, pow_succ] at he
  have h5 : (p - 1) / 2 = ((t * 2 ^ k : ℕ) : ℤ) := by
    rw [he]; push_cast
    rw [show (2:ℤ) ^ k * 2 * t = 2 * (t * 2 ^ k) by ring]; simp
  rw [h5, Int.toNat_natCast]
rw [e3, pow_mul] at e1 e2
have z1 : ((S.powZ a t % p : ℤ) : ZMod p.toNat) = (a : ZMod p.toNat) ^ t := by rw [zmod_mod _ _ h2]; simp [S.powZ]
have z2 : ((S.powZ d t % p : ℤ) : ZMod p.toNat) = (d : ZMod p.toNat) ^ t := by rw [zmod_mod _ _ h2]; simp [S.powZ]
refine ⟨le_refl _, le_refl _, by omega, by omega, by omega, fun _ => rfl, ?_, ?_, ?_⟩
· rw [z2, show ((k:ℤ) + 1 - 1).toNat = k by omega]; exact e2
· rw [z1, show ((k:ℤ) + 1 - 1).toNat = k by omega]; exact e1
· rw [z1, show ((k:ℤ) + 1 - 0).toNat = k + 1 by omega, pow_succ, pow_mul]
  simp only [Int.toNat_zero, pow_zero, mul_one]
  rw [e1, one_pow]
''')
lemma('ts_step', 'A:int, D:int, p:int, s:int, i:int, m:int', '''implies(isprime(p) and p >= 3 and tsI(A, D, p, s, i, m) and i < s,
   ite(powZ(A * (powZ(D, m) % p), powZ(2, s - 1 - i)) % p == p - 1, tsI(A, D, p, s, i + 1, m + powZ(2, i)), tsI(A, D, p, s, i + 1, m)) and powZ(2, i) >= 1)''', '''
rintro ⟨hp, h3, ⟨hm, hi, his, hs, hev, h0, hD, hA, hinv⟩, hlt⟩
have h2 := prime_ge2 p hp
haveI := zfield p hp
have hpw : S.powZ 2 i = ((2 ^ i.toNat : ℕ) : ℤ) := by simp [S.powZ]
have hpos : 1 ≤ S.powZ 2 i := by
  rw [hpw]; have : 1 ≤ 2 ^ i.toNat := Nat.one_le_two_pow
  exact_mod_cast this
refine ⟨?_, hpos⟩
have hv : ((S.powZ (A * (S.powZ D m % p)) (S.powZ 2 (s - 1 - i)) % p : ℤ) : ZMod p.toNat) = ((A : ZMod p.toNat) * (D : ZMod p.toNat) ^ m.toNat) ^ (2 ^ (s - 1 - i).toNat) := by
  rw [zmod_mod _ _ h2]
  have e : (S.powZ 2 (s-1-i)).toNat = 2 ^ (s-1-i).toNat := by
    have : S.powZ 2 (s-1-i) = ((2 ^ (s-1-i).toNat : ℕ) : ℤ) := by simp [S.powZ]
    rw [this, Int.toNat_natCast]
  show (((A * (S.powZ D m % p)) ^ (S.powZ 2 (s-1-i)).toNat : ℤ) : ZMod p.toNat) = _
  rw [e]; push_cast; rw [zmod_mod _ _ h2]; simp [S.powZ]
have hsq : (((A : ZMod p.toNat) * (D : ZMod p.toNat) ^ m.toNat) ^ (2 ^ (s - 1 - i).toNat)) ^ 2 = 1 := by
  rw [← pow_mul, ← pow_succ, show (s-1-i).toNat + 1 = (s - i).toNat by omega]; exact hinv
have hm1 : ((p - 1 : ℤ) : ZMod p.toNat) = -1 := by
  have : ((p : ℤ) : ZMod p.toNat) = ((0:ℤ) : ZMod p.toNat) := by rw [zmod_eq _ _ _ h2]; simp
  push_cast; rw [this]; simp
split_ifs with hc
· rw [hc, hm1] at hv
  have hi1 : 1 ≤ i := by
    by_contra hh
    have hi0 : i = 0 := by omega
    subst hi0
    rw [h0 rfl] at hv
    simp only [Int.toNat_zero, pow_zero, mul_one, sub_zero] at hv
    rw [hA] at hv
    have : ((-1 : ℤ) : ZMod p.toNat) = ((1:ℤ) : ZMod p.toNat) := by push_cast; exact hv
    rw [zmod_eq _ _ _ h2] at this
    have := Int.emod_emod_of_dvd 0 (dvd_refl p)
    have h7 : (p:ℤ) ∣ -1 - 1 := Int.dvd_of_emod_eq_zero (by rw [Int.sub_emod, ‹-1 % p = 1 % p›]; simp)
    have := Int.le_of_dvd (by norm_num : (0:ℤ) < 2) ((Int.dvd_neg).1 (by simpa using h7))
    omega
  have hmt : (m + S.powZ 2 i).toNat = m.toNat + 2 ^ i.toNat := by rw [hpw]; omega
  refine ⟨by omega, by omega, by omega, hs, fun _ => ?_, by omega, hD, hA, ?_⟩
  · obtain ⟨j, rfl⟩ : ∃ j : ℕ, i = j + 1 := ⟨(i-1).toNat, by omega⟩
    rw [hpw, show ((j:ℤ)+1).toNat = j + 1 by omega, pow_succ]; push_cast
    have := hev (by omega); omega
  · rw [hmt, pow_add, ← mul_assoc, mul_pow, show (s - (i+1)).toNat = (s - 1 - i).toNat by omega, ← hv, ← pow_mul, ← pow_add,
      show i.toNat + (s-1-i).toNat = (s-1).toNat by omega, hD]; simp
· have h1 : ((A : ZMod p.toNat) * (D : ZMod p.toNat) ^ m.toNat) ^ (2 ^ (s - 1 - i).toNat) = 1 := by
    rcases mySqOne hsq with h | h
    · exact h
    · exfalso; apply hc
      rw [h, ← hm1, zmod_eq _ _ _ h2] at hv
      rw [Int.emod_emod_of_dvd _ dvd_rfl, Int.emod_eq_of_lt (by omega : 0 ≤ p - 1) (by omega)] at hv
      exact hv
  refine ⟨hm, by omega, by omega, hs, fun _ => ?_, by omega, hD, hA, ?_⟩
  · by_cases hi0 : i = 0
    · rw [h0 hi0]; rfl
    · exact hev (by omega)
  · rw [show (s - (i+1)).toNat = (s - 1 - i).toNat by omega]; exact h1
''')
lemma('ts_end', 'a:int, D:int, p:int, s:int, m:int, t:int, x:int', '''implies(isprime(p) and p >= 3 and tsI(powZ(a, t) % p, D, p, s, s, m) and t >= 1 and t % 2 == 1 and
   x == ((powZ(a, (t + 1) // 2) % p) * (powZ(D, m // 2) % p)) % p, (x * x) % p == a % p and m >= 0)''', '''
rintro ⟨hp, h3, ⟨hm, hi, his, hs, hev, h0, hD, hA, hinv⟩, ht, hto, hx⟩
have h2 := prime_ge2 p hp
refine ⟨?_, hm⟩
have hme := hev hs
have z1 : ((S.powZ a t % p : ℤ) : ZMod p.toNat) = (a : ZMod p.toNat) ^ t.toNat := by rw [zmod_mod _ _ h2]; simp [S.powZ]
rw [z1] at hinv
simp only [sub_self, Int.toNat_zero, pow_zero, pow_one] at hinv
have hxz : (x : ZMod p.toNat) = (a : ZMod p.toNat) ^ ((t+1)/2).toNat * (D : ZMod p.toNat) ^ (m/2).toNat := by
  rw [hx, zmod_mod _ _ h2]; push_cast; rw [zmod_mod _ _ h2, zmod_mod _ _ h2]; simp [S.powZ]
rw [← zmod_eq _ _ _ h2]
push_cast
rw [hxz]
calc (a : ZMod p.toNat) ^ ((t+1)/2).toNat * (D : ZMod p.toNat) ^ (m/2).toNat * ((a : ZMod p.toNat) ^ ((t+1)/2).toNat * (D : ZMod p.toNat) ^ (m/2).toNat)
    = (a : ZMod p.toNat) ^ (((t+1)/2).toNat + ((t+1)/2).toNat) * (D : ZMod p.toNat) ^ ((m/2).toNat + (m/2).toNat) := by rw [pow_add, pow_add]; ring
  _ = (a : ZMod p.toNat) ^ (t.toNat + 1) * (D : ZMod p.toNat) ^ m.toNat := by
      rw [show ((t+1)/2).toNat + ((t+1)/2).toNat = t.toNat + 1 by omega, show (m/2).toNat + (m/2).toNat = m.toNat by omega]
  _ = a * ((a : ZMod p.toNat) ^ t.toNat * (D : ZMod p.toNat) ^ m.toNat) := by rw [pow_succ]; ring
  _ = a := by rw [hinv, mul_one]
''')
# linear congruences
macro_lin = 'd == gcdZ(a, n) and d == a * u + n * v and b % d == 0 and n >= 2'
fn('linS', 'int, int, int, int, int -> int', 'fun b u n d k => (b * u / d + k * n / d) % n')
lemma('lin_def', 'b:int, u:int, n:int, d:int, k:int', 'linS(b, u, n, d, k) == (b * u // d + k * n // d) % n', 'rfl')
lemma('lin_dpos', 'a:int, n:int', 'implies(n >= 2, gcdZ(a, n) >= 1)', '''
intro hn; simp only [S.gcdZ]
have := Int.gcd_pos_of_ne_zero_right a (by omega : n ≠ 0)
omega
''')
lemma('lin_sound', 'a:int, b:int, n:int, u:int, v:int, d:int, k:int', '''implies(d == gcdZ(a, n) and d == a * u + n * v and b % d == 0 and n >= 2,
   d >= 1 and (a * linS(b, u, n, d, k) - b) % n == 0 and 0 <= linS(b, u, n, d, k) and linS(b, u, n, d, k) < n)''', '''
rintro ⟨hd, he, hb, hn⟩
have hdp : 0 < d := by
  rw [hd]; simp only [S.gcdZ]
  have := Int.gcd_pos_of_ne_zero_right a (by omega : n ≠ 0)
  exact_mod_cast this
simp only [S.linS]
refine ⟨by omega, ?_, Int.emod_nonneg _ (by omega), Int.emod_lt_of_pos _ (by omega)⟩
obtain ⟨c, rfl⟩ := Int.dvd_of_emod_eq_zero hb
obtain ⟨n', hn'⟩ : d ∣ n := by rw [hd]; exact Int.gcd_dvd_right a n
obtain ⟨a', ha'⟩ : d ∣ a := by rw [hd]; exact Int.gcd_dvd_left a n
have e1 : d * c * u / d = c * u := by rw [mul_assoc, Int.mul_ediv_cancel_left _ (by omega)]
have e2 : k * n / d = k * n' := by rw [hn', show k * (d * n') = d * (k * n') by ring, Int.mul_ediv_cancel_left _ (by omega)]
rw [e1, e2]
apply Int.emod_eq_zero_of_dvd
have h1 : n ∣ a * ((c * u + k * n') % n) - a * (c * u + k * n') := by
  rw [← mul_sub]
  refine Dvd.dvd.mul_left ?_ a
  have := Int.emod_add_mul_ediv (c * u + k * n') n
  exact ⟨-((c * u + k * n') / n), by linear_combination this⟩
have h2 : n ∣ a * (c * u + k * n') - d * c := by
  refine ⟨a' * k - v * c, ?_⟩
  have : a * n' = a' * n := by rw [ha', hn']; ring
  have e : d * c = (a * u + n * v) * c := by rw [← he]
  rw [e]
  linear_combination k * this
have := dvd_add h1 h2
have e : a * ((c * u + k * n') % n) - a * (c * u + k * n') + (a * (c * u + k * n') - d * c) = a * ((c * u + k * n') % n) - d * c := by ring
rwa [e] at this
''')
lemma('lin_nosol', 'a:int, b:int, n:int, x:int', 'implies(n >= 2 and b % gcdZ(a, n) != 0, (a * x - b) % n != 0)', '''
rintro ⟨hn, hb⟩ h
apply hb
have h1 := Int.dvd_of_emod_eq_zero h
have hdn : (Int.gcd a n : ℤ) ∣ n := Int.gcd_dvd_right a n
have hda : (Int.gcd a n : ℤ) ∣ a := Int.gcd_dvd_left a n
have h2 := dvd_sub (Dvd.dvd.mul_right hda x) (dvd_trans hdn h1)
rw [show a * x - (a * x - b) = b by ring] at h2
exact Int.emod_eq_zero_of_dvd h2
''')
lemma('lin_complete', 'a:int, b:int, n:int, u:int, v:int, d:int', '''implies(d == gcdZ(a, n) and d == a * u + n * v and b % d == 0 and n >= 2,
   forall(x, 0, n, implies((a * x - b) % n == 0, exists(k, 0, d, linS(b, u, n, d, k) == x))) and
   forall(j, 0, d, forall(k, 0, d, implies(linS(b, u, n, d, j) == linS(b, u, n, d, k), j == k))))''', '''
rintro ⟨hd, he, hb, hn⟩
have hdp : 0 < d := by
  rw [hd]; simp only [S.gcdZ]
  have := Int.gcd_pos_of_ne_zero_right a (by omega : n ≠ 0)
  exact_mod_cast this
obtain ⟨n', hn'⟩ : d ∣ n := by rw [hd]; exact Int.gcd_dvd_right a n
have hn'p : 0 < n' := by
  by_contra hh
  have : d * n' ≤ 0 := mul_nonpos_of_nonneg_of_nonpos (by omega) (by omega)
  omega
have e2 : ∀ k, k * n / d = k * n' := by
  intro k
  rw [hn', show k * (d * n') = d * (k * n') by ring, Int.mul_ediv_cancel_left _ (by omega)]
simp only [S.linS]
constructor
· intro x hx hxn hs
  obtain ⟨c, rfl⟩ := Int.dvd_of_emod_eq_zero hb
  obtain ⟨a', ha'⟩ : d ∣ a := by rw [hd]; exact Int.gcd_dvd_left a n
  have e1 : d * c * u / d = c * u := by rw [mul_assoc, Int.mul_ediv_cancel_left _ (by omega)]
  have hu : a' * u + n' * v = 1 := by
    have : d * (a' * u + n' * v) = d * 1 := by
      rw [ha', hn'] at he
      nlinarith
    exact mul_left_cancel₀ (by omega) this
  have h1 : n' ∣ a' * x - c := by
    have := Int.dvd_of_emod_eq_zero hs
    rw [ha', hn', show d * a' * x - d * c = d * (a' * x - c) by ring] at this
    exact Int.dvd_of_mul_dvd_mul_left (by omega) this |> fun h => h
  obtain ⟨w, hw⟩ := h1
  have h3 : n' ∣ x - c * u := by
    refine ⟨u * w + v * x, ?_⟩
    linear_combination u * hw - x * hu
  obtain ⟨z, hz⟩ := h3
  refine ⟨z % d, Int.emod_nonneg _ (by omega), Int.emod_lt_of_pos _ hdp, ?_⟩
  rw [e1, e2]
  have hz2 := Int.emod_add_mul_ediv z d
  have : c * u + z % d * n' = x + n * (-(z / d)) := by
    rw [hn']
    have hzz : z % d = z - d * (z / d) := by linarith
    rw [hzz]; linear_combination -hz
  rw [this, Int.add_mul_emod_self_left, Int.emod_eq_of_lt hx hxn]
· intro j hj hjd k hk hkd h
  rw [e2, e2] at h
  have hdv : n ∣ (b * u / d + j * n') - (b * u / d + k * n') := Int.dvd_of_emod_eq_zero (by rw [Int.sub_emod, h]; simp)
  rw [show (b * u / d + j * n') - (b * u / d + k * n') = (j - k) * n' by ring, hn'] at hdv
  have h4 : d ∣ j - k := Int.dvd_of_mul_dvd_mul_right (by omega : n' ≠ 0) hdv
  obtain ⟨c, hc⟩ := h4
  have : c = 0 := by
    by_contra hne
    rcases lt_or_gt_of_ne hne with h | h <;> nlinarith
  rw [this] at hc; omega
''')

# discrete logarithms
lemma('pow_mod_add', 'a:int, p:int, e:int, f:int', 'implies(p >= 1 and e >= 0 and f >= 0, ((powZ(a, e) % p) * (powZ(a, f) % p)) % p == powZ(a, e + f) % p)', '''
rintro ⟨hp, he, hf⟩
rw [← Int.mul_emod]; simp only [S.powZ]
rw [← pow_add, Int.toNat_add he hf]
''')
lemma('pow_mod_next', 'a:int, b:int, p:int, e:int', 'implies(p >= 1 and e >= 0, (((b * powZ(a, e)) % p) * a) % p == (b * powZ(a, e + 1)) % p and (b * a) % p == (b * powZ(a, 1)) % p)', '''
rintro ⟨hp, he⟩
constructor
· rw [Int.emod_mul_emod_left_helper]
· simp [S.powZ]
'''.replace('rw [Int.emod_mul_emod_left_helper]', """have : b * S.powZ a (e + 1) = b * S.powZ a e * a := by
    simp only [S.powZ]; rw [show (e+1).toNat = e.toNat + 1 by omega, pow_succ]; ring
  rw [this, Int.mul_emod, Int.emod_emod_of_dvd _ dvd_rfl, ← Int.mul_emod]"""))
lemma('dlog_hit', 'a:int, b:int, p:int, e:int, k:int', 'implies(p >= 2 and gcdZ(a, p) == 1 and 0 <= k and k <= e and powZ(a, e) % p == (b * powZ(a, k)) % p, powZ(a, e - k) % p == b % p)', '''
rintro ⟨hp, hg, hk, hke, h⟩
have hc : IsCoprime a p := by
  rw [Int.isCoprime_iff_gcd_eq_one]; simp only [S.gcdZ] at hg; exact_mod_cast hg
have h1 : p ∣ S.powZ a e - b * S.powZ a k := Int.dvd_of_emod_eq_zero (by rw [Int.sub_emod, h]; simp)
have h2 : S.powZ a e - b * S.powZ a k = S.powZ a k * (S.powZ a (e - k) - b) := by
  have : S.powZ a e = S.powZ a k * S.powZ a (e - k) := by
    simp only [S.powZ]; rw [← pow_add]; congr 1; omega
  rw [this]; ring
rw [h2] at h1
have hc2 : IsCoprime p (S.powZ a k) := by simp only [S.powZ]; exact hc.symm.pow_right
have h3 := hc2.dvd_of_dvd_mul_left h1
exact ((Int.modEq_iff_dvd.2 h3).symm : _ ≡ _ [ZMOD p])
''')
lemma('dlog_none', 'a:int, b:int, p:int, m:int', '''implies(p >= 2 and gcdZ(a, p) == 1 and m >= 1 and m * m > p and
   forall(k, 1, m + 1, forall(q, 1, m + 1, powZ(a, m * q) % p != (b * powZ(a, k)) % p)), forallT(int, x, implies(x >= 0, powZ(a, x) % p != b % p), powZ(a, x)))''', '''
rintro ⟨hp, hg, hm, hmm, H⟩ x hx h
have hphi := order_phi a p ⟨hp, hg⟩
have hle : S.phi p ≤ p - 1 := by
  have := Nat.totient_lt p.toNat (by omega)
  simp only [S.phi]; omega
have hz := (pow_mod_one_iff a p _ hp).1 hphi.1
-- reduce x below p
have hy : S.powZ a (x % S.phi p) % p = b % p := by
  rw [← h, ← zmod_eq _ _ _ hp]
  simp only [S.powZ]; push_cast
  have e := Int.emod_add_mul_ediv x (S.phi p)
  have h0 := Int.emod_nonneg x (by omega : S.phi p ≠ 0)
  have h1 : 0 ≤ x / S.phi p := Int.ediv_nonneg hx (by omega)
  obtain ⟨u, hu⟩ := Int.eq_ofNat_of_zero_le h0
  obtain ⟨w, hw⟩ := Int.eq_ofNat_of_zero_le h1
  obtain ⟨f, hf⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ S.phi p)
  rw [hf] at hz hw hu e ⊢
  rw [hu, hw] at e
  have ex : x.toNat = u + f * w := by
    have : x = ((u + f * w : ℕ) : ℤ) := by rw [← e]; push_cast; rfl
    rw [this, Int.toNat_natCast]
  rw [hu, ex, pow_add, pow_mul]
  simp only [Int.toNat_natCast] at hz ⊢
  rw [hz]; simp
have h0 := Int.emod_nonneg x (by omega : S.phi p ≠ 0)
have h1 := Int.emod_lt_of_pos x (by omega : 0 < S.phi p)
generalize x % S.phi p = y at hy h0 h1
have e := Int.emod_add_mul_ediv y m
have r0 := Int.emod_nonneg y (by omega : m ≠ 0)
have r1 := Int.emod_lt_of_pos y (by omega : 0 < m)
have q0 : 0 ≤ y / m := Int.ediv_nonneg h0 (by omega)
have q1 : y / m < m := Int.ediv_lt_of_lt_mul (by omega) (by omega)
refine H (m - y % m) (by omega) (by omega) (y / m + 1) (by omega) (by omega) ?_
have : S.powZ a (m * (y / m + 1)) = S.powZ a y * S.powZ a (m - y % m) := by
  simp only [S.powZ]; rw [← pow_add]; congr 1
  have : m * (y / m + 1) = y + (m - y % m) := by linear_combination e
  rw [this, Int.toNat_add h0 (by omega)]
rw [this, Int.mul_emod, hy, ← Int.mul_emod]
''')
lemma('pow_one_mod', 'a:int, p:int', 'implies(p >= 2, powZ(a, 0) % p == 1)', '''
intro hp; simp only [S.powZ, Int.toNat_zero, pow_zero]; exact Int.emod_eq_of_lt (by norm_num) (by omega)
''')
lemma('isq_bound', 'p:int, s:int', 'implies(p >= 0 and s >= 0 and p < (s + 1) * (s + 1), (s + 1) * (s + 1) > p)', 'rintro ⟨_, _, h⟩; exact h')
# roots of unity modulo a prime
raw('''
theorem proot_order (g p : ℤ) (hp : S.isprime p) (hg : S.proot g p) : orderOf (g : ZMod p.toNat) = (p - 1).toNat := by
  obtain ⟨_, _, ho⟩ := hg
  rw [ho, Nat.totient_prime hp.2]; omega
theorem powmod_z (x e p : ℤ) (hp : 2 ≤ p) : ((S.powZ x e % p : ℤ) : ZMod p.toNat) = (x : ZMod p.toNat) ^ e.toNat := by
  rw [zmod_mod _ _ hp]; simp [S.powZ]
theorem rooth (g n p d h : ℤ) (hp : S.isprime p) (hg : S.proot g p) (hn : 1 ≤ n) (hd : d = S.gcdZ n (p - 1)) (hh : h = S.powZ g ((p - 1) / d) % p) :
    1 ≤ d ∧ IsPrimitiveRoot (h : ZMod p.toNat) d.toNat ∧ d ∣ n ∧ d ∣ p - 1 := by
  have h2 := prime_ge2 p hp
  have hd1 : 1 ≤ d := by
    rw [hd]; simp only [S.gcdZ]
    have := Int.gcd_pos_of_ne_zero_left (p - 1) (by omega : n ≠ 0)
    omega
  have dn : d ∣ n := by rw [hd]; exact Int.gcd_dvd_left n (p-1)
  have dp : d ∣ p - 1 := by rw [hd]; exact Int.gcd_dvd_right n (p-1)
  refine ⟨hd1, ?_, dn, dp⟩
  have ho := proot_order g p hp hg
  obtain ⟨e, he⟩ := dp
  have hz : (h : ZMod p.toNat) = (g : ZMod p.toNat) ^ e.toNat := by
    rw [hh, powmod_z _ _ _ h2, he, Int.mul_ediv_cancel_left _ (by omega)]
  have he1 : 1 ≤ e := by
    by_contra hx
    have : d * e ≤ 0 := mul_nonpos_of_nonneg_of_nonpos (by omega) (by omega)
    omega
  obtain ⟨d', rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ d)
  obtain ⟨e', rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ e)
  have hN : (p - 1).toNat = d' * e' := by rw [he]; norm_cast
  rw [hN] at ho
  have : orderOf (h : ZMod p.toNat) = d' := by
    rw [hz]; simp only [Int.toNat_natCast]
    rw [orderOf_pow_of_dvd (by omega) (by rw [ho]; exact Dvd.intro_left _ rfl), ho]
    exact Nat.mul_div_cancel _ (by omega)
  simp only [Int.toNat_natCast]
  exact this ▸ IsPrimitiveRoot.orderOf _
''')
lemma('ru_sound', 'g:int, n:int, p:int, d:int, h:int, i:int', '''implies(isprime(p) and p >= 3 and proot(g, p) and n >= 1 and d == gcdZ(n, p - 1) and h == powZ(g, (p - 1) // d) % p and 0 <= i,
   d >= 1 and powZ(powZ(h, i) % p, n) % p == 1)''', '''
rintro ⟨hp, h3, hg, hn, hd, hh, hi⟩
obtain ⟨h1, hr, dn, dp⟩ := rooth g n p d h hp hg hn hd hh
refine ⟨h1, ?_⟩
rw [pow_mod_one_iff _ _ _ (by omega), powmod_z _ _ _ (by omega)]
obtain ⟨c, rfl⟩ := dn
have hc : 0 ≤ c := by
  by_contra hx
  have : d * c ≤ 0 := mul_nonpos_of_nonneg_of_nonpos (by omega) (by omega)
  omega
have e : (d * c).toNat = d.toNat * c.toNat := Int.toNat_mul (by omega) hc
rw [e, ← pow_mul, show i.toNat * (d.toNat * c.toNat) = d.toNat * (i.toNat * c.toNat) by ring, pow_mul, hr.pow_eq_one, one_pow]
''')
lemma('ru_complete', 'g:int, n:int, p:int, d:int, h:int', '''implies(isprime(p) and p >= 3 and proot(g, p) and n >= 1 and d == gcdZ(n, p - 1) and h == powZ(g, (p - 1) // d) % p,
   forall(x, 0, p, implies(powZ(x, n) % p == 1, exists(i, 0, d, powZ(h, i) % p == x))) and
   forall(i, 0, d, forall(j, 0, d, implies(powZ(h, i) % p == powZ(h, j) % p, i == j))))''', '''
rintro ⟨hp, h3, hg, hn, hd, hh⟩
obtain ⟨h1, hr, dn, dp⟩ := rooth g n p d h hp hg hn hd hh
haveI := zfield p hp
have h2 := prime_ge2 p hp
constructor
· intro x hx hxp hxn
  rw [pow_mod_one_iff _ _ _ h2] at hxn
  have hx0 : (x : ZMod p.toNat) ≠ 0 := by
    intro hc; rw [hc, zero_pow (by omega)] at hxn; exact zero_ne_one hxn
  have hf := ZMod.pow_card_sub_one_eq_one hx0
  have hxd : (x : ZMod p.toNat) ^ d.toNat = 1 := by
    have := pow_gcd_eq_one.2 ⟨hxn, hf⟩
    have e : d.toNat = n.toNat.gcd (p.toNat - 1) := by
      rw [hd]; simp only [S.gcdZ, Int.toNat_natCast]
      rw [Int.gcd_eq_natAbs]; congr 1 <;> omega
    rwa [e]
  haveI : NeZero d.toNat := ⟨by omega⟩
  obtain ⟨i, hi, he⟩ := hr.eq_pow_of_pow_eq_one hxd
  refine ⟨(i:ℤ), by omega, by omega, ?_⟩
  have : ((S.powZ h i % p : ℤ) : ZMod p.toNat) = (x : ZMod p.toNat) := by
    rw [powmod_z _ _ _ h2]; exact he
  rw [zmod_eq _ _ _ h2, Int.emod_emod_of_dvd _ dvd_rfl, Int.emod_eq_of_lt hx hxp] at this
  exact this
· intro i hi hid j hj hjd h
  have : ((S.powZ h i % p : ℤ) : ZMod p.toNat) = ((S.powZ h j % p : ℤ) : ZMod p.toNat) := by rw [h]
  rw [powmod_z _ _ _ h2, powmod_z _ _ _ h2] at this
  have := hr.pow_inj (by omega) (by omega) this
  omega
'''.replace("intro i hi hid j hj hjd h\n", "intro i hi hid j hj hjd hij\n").replace("rw [h]\n", "rw [hij]\n"))
lemma('rm_none', 'g:int, n:int, p:int, d:int, x:int', '''implies(isprime(p) and p >= 3 and proot(g, p) and n >= 1 and d == gcdZ(n, p - 1) and ((p - 1) // d) % 2 != 0, powZ(x, n) % p != p - 1)''', '''
rintro ⟨hp, h3, hg, hn, hd, hodd⟩ hx
obtain ⟨h1, hr, ⟨c, dn⟩, ⟨e, dp⟩⟩ := rooth g n p d _ hp hg hn hd rfl
haveI := zfield p hp
have h2 := prime_ge2 p hp
have hxz : (x : ZMod p.toNat) ^ n.toNat = -1 := by
  have : ((S.powZ x n % p : ℤ) : ZMod p.toNat) = ((p - 1 : ℤ) : ZMod p.toNat) := by rw [hx]
  rw [powmod_z _ _ _ h2] at this
  rw [this]
  have : ((p : ℤ) : ZMod p.toNat) = ((0:ℤ) : ZMod p.toNat) := by rw [zmod_eq _ _ _ h2]; simp
  push_cast; rw [this]; simp
rw [dp, Int.mul_ediv_cancel_left _ (by omega)] at hodd
have he1 : 1 ≤ e := by
  by_contra hx
  have : d * e ≤ 0 := mul_nonpos_of_nonneg_of_nonpos (by omega) (by omega)
  omega
have hx0 : (x : ZMod p.toNat) ≠ 0 := by
  intro hc; rw [hc, zero_pow (by omega)] at hxz
  have : (1 : ZMod p.toNat) = 0 := by linear_combination hxz
  exact one_ne_zero this
have hf := ZMod.pow_card_sub_one_eq_one hx0
-- (x^n)^e = 1 since n e = c (p-1); but also (-1)^e = -1
have hc0 : 0 ≤ c := by
  by_contra hx
  have : d * c ≤ 0 := mul_nonpos_of_nonneg_of_nonpos (by omega) (by omega)
  omega
have h4 : (x : ZMod p.toNat) ^ (n.toNat * e.toNat) = 1 := by
  have : n.toNat * e.toNat = (p.toNat - 1) * c.toNat := by
    zify [show 1 ≤ p.toNat by omega]
    rw [Int.toNat_of_nonneg (by omega), Int.toNat_of_nonneg (by omega), Int.toNat_of_nonneg (by omega), Int.toNat_of_nonneg hc0, dp, dn]; ring
  rw [this, pow_mul, hf, one_pow]
rw [pow_mul, hxz, Odd.neg_one_pow (Nat.odd_iff.2 (by omega))] at h4
have : ((-1 : ℤ) : ZMod p.toNat) = ((1:ℤ) : ZMod p.toNat) := by push_cast; exact h4
rw [zmod_eq _ _ _ h2] at this
have h7 : (p:ℤ) ∣ -1 - 1 := Int.dvd_of_emod_eq_zero (by rw [Int.sub_emod, this]; simp)
have := Int.le_of_dvd (by norm_num : (0:ℤ) < 2) ((Int.dvd_neg).1 (by simpa using h7))
omega
''')

lemma('rm_all', 'g:int, n:int, p:int, d:int, r:int', '''implies(isprime(p) and p >= 3 and proot(g, p) and n >= 1 and d == gcdZ(n, p - 1) and ((p - 1) // d) % 2 == 0 and r == powZ(g, (p - 1) // (2 * d)) % p,
   forall(x, 0, p, implies(powZ(x, n) % p == 1, powZ((r * x) % p, n) % p == p - 1)) and
   forall(y, 0, p, implies(powZ(y, n) % p == p - 1, exists(x, 0, p, powZ(x, n) % p == 1 and (r * x) % p == y))) and
   forall(x, 0, p, forall(y, 0, p, implies((r * x) % p == (r * y) % p, x == y))))''', '''
rintro ⟨hp, h3, hg, hn, hd, hev, hr⟩
obtain ⟨h1, _, ⟨c, dn⟩, ⟨e, dp⟩⟩ := rooth g n p d _ hp hg hn hd rfl
haveI := zfield p hp
have h2 := prime_ge2 p hp
have ho := proot_order g p hp hg
rw [dp, Int.mul_ediv_cancel_left _ (by omega)] at hev
have he1 : 1 ≤ e := by
  by_contra hx
  have : d * e ≤ 0 := mul_nonpos_of_nonneg_of_nonpos (by omega) (by omega)
  omega
have hc1 : 1 ≤ c := by
  by_contra hx
  have : d * c ≤ 0 := mul_nonpos_of_nonneg_of_nonpos (by omega) (by omega)
  omega
obtain ⟨f, rfl⟩ : ∃ f, e = 2 * f := ⟨e / 2, by omega⟩
have hm1 : ((p - 1 : ℤ) : ZMod p.toNat) = -1 := by
  have : ((p : ℤ) : ZMod p.toNat) = ((0:ℤ) : ZMod p.toNat) := by rw [zmod_eq _ _ _ h2]; simp
  push_cast; rw [this]; simp
have m1 : ∀ x : ℤ, S.powZ x n % p = p - 1 ↔ (x : ZMod p.toNat) ^ n.toNat = -1 := by
  intro x
  have e1 : (x : ZMod p.toNat) ^ n.toNat = ((S.powZ x n : ℤ) : ZMod p.toNat) := by simp [S.powZ]
  rw [e1, ← hm1, zmod_eq _ _ _ h2, Int.emod_eq_of_lt (by omega : 0 ≤ p - 1) (by omega)]
-- c is odd
have hcop : IsCoprime c (2 * f) := by
  rw [Int.isCoprime_iff_gcd_eq_one]
  have h5 : (Int.gcd (d * c) (d * (2 * f)) : ℤ) = d := by rw [← dn, ← dp]; exact hd.symm
  rw [Int.gcd_mul_left] at h5
  push_cast at h5
  rw [abs_of_pos (by omega : 0 < d)] at h5
  have : (Int.gcd c (2*f) : ℤ) = 1 := by
    have h6 : d * (Int.gcd c (2*f) : ℤ) = d * 1 := by rw [h5, mul_one]
    exact mul_left_cancel₀ (by omega) h6
  exact_mod_cast this
have hcodd : c % 2 = 1 := by
  by_contra hx
  have h2c : (2:ℤ) ∣ c := by omega
  have := hcop.isUnit_of_dvd' h2c (Dvd.intro _ rfl)
  rcases Int.isUnit_iff.1 this with h | h <;> omega
have hrz : (r : ZMod p.toNat) = (g : ZMod p.toNat) ^ f.toNat := by
  rw [hr, powmod_z _ _ _ h2, dp, show d * (2 * f) = (2 * d) * f by ring, Int.mul_ediv_cancel_left _ (by omega)]
-- g^((p-1)/2) = -1
have hN : (p - 1).toNat = 2 * (d.toNat * f.toNat) := by
  zify [show 0 ≤ p - 1 by omega]
  rw [Int.toNat_of_nonneg (by omega), Int.toNat_of_nonneg (by omega), Int.toNat_of_nonneg (by omega), dp]; ring
have hgh : (g : ZMod p.toNat) ^ (d.toNat * f.toNat) = -1 := by
  have hs : ((g : ZMod p.toNat) ^ (d.toNat * f.toNat)) ^ 2 = 1 := by
    rw [← pow_mul, mul_comm, ← hN, ← ho]; exact pow_orderOf_eq_one _
  rcases mySqOne hs with h | h
  · exfalso
    have h7 := Nat.le_of_dvd (by positivity_helper) (orderOf_dvd_of_pow_eq_one h)
    rw [ho, hN] at h7
    have : 0 < d.toNat * f.toNat := Nat.mul_pos (by omega) (by omega)
    omega
  · exact h
have hrn : (r : ZMod p.toNat) ^ n.toNat = -1 := by
  rw [hrz, ← pow_mul, dn, Int.toNat_mul (by omega) (by omega), show f.toNat * (d.toNat * c.toNat) = d.toNat * f.toNat * c.toNat by ring, pow_mul, hgh]
  exact Odd.neg_one_pow (Nat.odd_iff.2 (by omega))
have hr0 : (r : ZMod p.toNat) ≠ 0 := by
  intro hc; rw [hc, zero_pow (by omega)] at hrn
  have : (1 : ZMod p.toNat) = 0 := by linear_combination hrn
  exact one_ne_zero this
refine ⟨?_, ?_, ?_⟩
· intro x hx hxp h
  rw [m1, zmod_mod _ _ h2]; push_cast
  rw [mul_pow, hrn, (pow_mod_one_iff _ _ _ h2).1 h, mul_one]
· intro y hy hyp h
  rw [m1] at h
  have h8 : ((((y : ZMod p.toNat) / r).val : ℤ) : ZMod p.toNat) = (y : ZMod p.toNat) / r := by simp
  refine ⟨(((y : ZMod p.toNat) / r).val : ℤ), by omega, ?_, ?_, ?_⟩
  · have := ZMod.val_lt ((y : ZMod p.toNat) / (r : ZMod p.toNat))
    omega
  · rw [pow_mod_one_iff _ _ _ h2, h8, div_pow, hrn, h]; simp
  · have : ((r * (((y : ZMod p.toNat) / r).val : ℤ) : ℤ) : ZMod p.toNat) = (y : ZMod p.toNat) := by
      push_cast; push_cast at h8; rw [h8]; field_simp
    rw [zmod_eq _ _ _ h2, Int.emod_eq_of_lt hy hyp] at this
    exact this
· intro x hx hxp y hy hyp h
  have : (r : ZMod p.toNat) * x = r * y := by
    have : ((r * x : ℤ) : ZMod p.toNat) = ((r * y : ℤ) : ZMod p.toNat) := by rw [zmod_eq _ _ _ h2]; exact h
    push_cast at this; exact this
  have := mul_left_cancel₀ hr0 this
  rw [zmod_eq _ _ _ h2, Int.emod_eq_of_lt hx hxp, Int.emod_eq_of_lt hy hyp] at this
  exact this
'''.replace("(by positivity_helper)", "(Nat.mul_pos (by omega) (by omega))"))
# Fibonacci primitive roots
lemma('fib_roots', 'p:int, i2:int, r:int', '''implies(isprime(p) and p >= 3 and (i2 * 2) % p == 1, 
   iff((r * r - r - 1) % p == 0, ((2 * r - 1) * (2 * r - 1) - 5) % p == 0) and (((1 + (2 * r - 1) % p) * i2) % p - r) % p == 0)''', '''
rintro ⟨hp, h3, hi⟩
have h2 := prime_ge2 p hp
haveI := zfield p hp
have hz : ((i2 : ZMod p.toNat)) * 2 = 1 := by
  have : ((i2 * 2 : ℤ) : ZMod p.toNat) = ((1:ℤ) : ZMod p.toNat) := by
    rw [zmod_eq _ _ _ h2, hi]; exact (Int.emod_eq_of_lt (by norm_num) (by omega)).symm
  push_cast at this; exact this
have zz : ∀ x : ℤ, x % p = 0 ↔ (x : ZMod p.toNat) = 0 := by
  intro x
  have : ((0:ℤ) : ZMod p.toNat) = 0 := by simp
  rw [← this, zmod_eq _ _ _ h2]; simp
refine ⟨?_, ?_⟩
· rw [zz, zz]; push_cast
  constructor
  · intro h; linear_combination 4 * h
  · intro h
    have : (i2 : ZMod p.toNat) * 2 * (i2 * 2) * ((r:ZMod p.toNat) * r - r - 1) = 0 := by linear_combination (i2 : ZMod p.toNat) * i2 * h
    rw [hz] at this; linear_combination this
· rw [zz]; push_cast; rw [zmod_mod _ _ h2]; push_cast; rw [zmod_mod _ _ h2]; push_cast
  linear_combination (r : ZMod p.toNat) * hz
''')

# opaque square classes: sqm(x, a, p) : x is a square root of a modulo p
fn('sqm', 'int, int, int -> bool', 'fun x a p => (x * x - a) % p = 0')
lemma('sqm_def', 'x:int, a:int, p:int', 'sqm(x, a, p) == ((x * x - a) % p == 0)', 'rfl')
lemma('sqm_red', 'x:int, a:int, p:int', 'implies(p >= 2, sqm(x, a % p, p) == sqm(x, a, p) and jac(a % p, p) == jac(a, p))', '''
intro hp
constructor
· simp only [S.sqm, eq_iff_iff]
  rw [Int.sub_emod, Int.emod_emod_of_dvd _ dvd_rfl, ← Int.sub_emod]
· simp only [S.jac]
  obtain ⟨q, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ p)
  simp only [Int.toNat_natCast]
  exact (jacobiSym.mod_left a q).symm
''')
lemma('sqm_of', 'x:int, a:int, p:int', 'implies(p >= 2 and (x * x) % p == a % p, sqm(x, a, p))', '''
rintro ⟨hp, h⟩
simp only [S.sqm]; rw [Int.sub_emod, h]; simp
''')
lemma('sqm_two', 'a:int, p:int, x:int', '''implies(isprime(p) and p >= 3 and a % p != 0 and 0 <= x and x < p and (x * x) % p == a % p,
   0 < x and x != p - x and sqm(x, a, p) and sqm(p - x, a, p) and forall(y, 0, p, implies(sqm(y, a, p), y == x or y == p - x)))''', '''
rintro ⟨hp, h3, ha, hx, hxp, hxa⟩
have h0 := Int.emod_nonneg a (by omega : p ≠ 0)
have h1 := Int.emod_lt_of_pos a (by omega : 0 < p)
obtain ⟨r1, r2, r3, r4⟩ := two_roots (a % p) p x ⟨hp, h3, by omega, h1, hx, hxp, hxa⟩
refine ⟨r1, r2, sqm_of x a p ⟨by omega, hxa⟩, sqm_of (p - x) a p ⟨by omega, r3⟩, ?_⟩
intro y hy hyp h
refine r4 y hy hyp ?_
have := (sqm_red y a p (by omega)).1
rw [← this] at h
exact h
''')
lemma('sqm_none', 'a:int, p:int', 'implies(isprime(p) and p >= 3 and a % p != 0 and jac(a, p) != 1, forallT(int, y, not sqm(y, a, p), sqm(y, a, p)))', '''
rintro ⟨hp, h3, ha, hj⟩ y h
exact nonres a p ⟨hp, h3, ha, hj⟩ y h
''')
lemma('sqm_zero', 'a:int, p:int', 'implies(isprime(p) and a % p == 0, sqm(0, a, p) and forall(y, 0, p, implies(sqm(y, a, p), y == 0)))', '''
rintro ⟨hp, ha⟩
have hd := Int.dvd_of_emod_eq_zero ha
constructor
· simp only [S.sqm]
  exact Int.emod_eq_zero_of_dvd (by simpa using hd)
· intro y hy hyp h
  obtain ⟨q, rfl, hq⟩ := (isprime_iff p).1 hp
  have h1 : (q:ℤ) ∣ y * y := by
    have := dvd_add (Int.dvd_of_emod_eq_zero h) hd
    simpa using this
  rcases (Nat.prime_iff_prime_int.1 hq).dvd_or_dvd h1 with h | h <;>
  · have := Int.le_of_dvd (by by_contra hh; push_neg at hh; omega) h
    omega
'''.replace('''  rcases (Nat.prime_iff_prime_int.1 hq).dvd_or_dvd h1 with h | h <;>
  · have := Int.le_of_dvd (by by_contra hh; push_neg at hh; omega) h
    omega
''','''  have h2 : (q:ℤ) ∣ y := by
    rcases (Nat.prime_iff_prime_int.1 hq).dvd_or_dvd h1 with h | h <;> exact h
  by_contra hne
  have := Int.le_of_dvd (by omega) h2
  omega
'''))
lemma('sqm_p2', 'a:int', 'sqm(a % 2, a, 2) and forall(y, 0, 2, implies(sqm(y, a, 2), y == a % 2))', '''
constructor
· simp only [S.sqm]
  rcases Int.emod_two_eq_zero_or_one a with h | h <;> rw [h] <;> omega
· intro y h0 h1 h
  simp only [S.sqm] at h
  rcases (by omega : y = 0 ∨ y = 1) with rfl | rfl <;> omega
''')
lemma('ts_m', 'A:int, D:int, p:int, s:int, i:int, m:int', 'implies(tsI(A, D, p, s, i, m), m >= 0)', 'exact fun h => h.1')
lemma('odd_part', 'p:int, s:int', 'implies(p >= 3 and p % 2 == 1 and s >= 0 and (p - 1) % powZ(2, s) == 0 and (p - 1) % powZ(2, s + 1) != 0, s >= 1 and p - 1 == powZ(2, s) * ((p - 1) // powZ(2, s)) and ((p - 1) // powZ(2, s)) % 2 == 1 and (p - 1) // powZ(2, s) >= 1)', '''
rintro ⟨h3, hp, hs, hd, hnd⟩
obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le hs
simp only [S.powZ] at *
rw [show ((k:ℤ) + 1).toNat = k + 1 by omega, pow_succ] at hnd
simp only [Int.toNat_natCast] at *
obtain ⟨t, ht⟩ := Int.dvd_of_emod_eq_zero hd
have hpos : (0:ℤ) < 2 ^ k := by positivity
rw [ht, Int.mul_ediv_cancel_left _ (by omega)]
have hto : t % 2 = 1 := by
  by_contra hx
  apply hnd
  apply Int.emod_eq_zero_of_dvd
  obtain ⟨u, rfl⟩ : ∃ u, t = 2 * u := ⟨t / 2, by omega⟩
  exact ⟨u, by rw [ht]; ring⟩
refine ⟨?_, rfl, hto, ?_⟩
· by_contra hx
  have : k = 0 := by omega
  subst this
  simp at ht; omega
· by_contra hx
  have : 2 ^ k * t ≤ 0 := mul_nonpos_of_nonneg_of_nonpos (by omega) (by omega)
  omega
''')
lemma('prime_odd', 'p:int', 'implies(isprime(p) and p != 2, p >= 3 and p % 2 == 1)', '''
rintro ⟨hp, h2⟩
have := prime_ge2 p hp
refine ⟨by omega, ?_⟩
obtain ⟨q, rfl, hq⟩ := (isprime_iff p).1 hp
rcases hq.eq_two_or_odd with h | h <;> omega
''')

fn('linP', 'int, int, int, int -> bool', 'fun x a b n => (a * x - b) % n = 0')
lemma('linP_nosol', 'a:int, b:int, n:int, x:int', 'implies(n >= 2 and b % gcdZ(a, n) != 0, not linP(x, a, b, n))', 'exact lin_nosol a b n x')
lemma('linP_all', 'a:int, b:int, n:int, u:int, v:int, d:int', '''implies(d == gcdZ(a, n) and d == a * u + n * v and b % d == 0 and n >= 2,
   forallT(int, k, 0 <= linS(b, u, n, d, k) and linS(b, u, n, d, k) < n and linP(linS(b, u, n, d, k), a, b, n), linS(b, u, n, d, k)) and
   forall(x, 0, n, implies(linP(x, a, b, n), exists(k, 0, d, linS(b, u, n, d, k) == x)), linP(x, a, b, n)) and
   forall2(j, k, 0 <= j and j < d and 0 <= k and k < d and linS(b, u, n, d, j) == linS(b, u, n, d, k), j == k, linS(b, u, n, d, j), linS(b, u, n, d, k)))''', '''
intro h
obtain ⟨h1, h2⟩ := lin_complete a b n u v d h
refine ⟨fun k => ?_, h1, ?_⟩
· obtain ⟨_, g1, g2, g3⟩ := lin_sound a b n u v d k h
  exact ⟨g2, g3, g1⟩
· rintro j k ⟨a1, a2, a3, a4, a5⟩
  exact h2 j a1 a2 k a3 a4 a5
''')
# opaque powers modulo p and root predicates
fn('pwm', 'int, int, int -> int', 'fun h i p => h ^ i.toNat % p')
lemma('pwm_def', 'h:int, i:int, p:int', 'pwm(h, i, p) == powZ(h, i) % p', 'rfl')
lemma('pwm_step', 'h:int, i:int, p:int', 'implies(p >= 2 and i >= 0, pwm(h, i + 1, p) == (pwm(h, i, p) * h) % p and pwm(h, 0, p) == 1 and 0 <= pwm(h, i, p) and pwm(h, i, p) < p)', '''
rintro ⟨hp, hi⟩
simp only [S.pwm]
refine ⟨?_, ?_, Int.emod_nonneg _ (by omega), Int.emod_lt_of_pos _ (by omega)⟩
· rw [show (i+1).toNat = i.toNat + 1 by omega, pow_succ, Int.mul_emod, Int.mul_emod (h ^ i.toNat % p) h, Int.emod_emod_of_dvd _ dvd_rfl]
· simp; exact Int.emod_eq_of_lt (by norm_num) (by omega)
''')
fn('rou', 'int, int, int -> bool', 'fun x n p => x ^ n.toNat % p = 1')
fn('rom', 'int, int, int -> bool', 'fun x n p => x ^ n.toNat % p = p - 1')
fn('mulm', 'int, int, int -> int', 'fun r x p => r * x % p')
lemma('mulm_def', 'r:int, x:int, p:int', 'mulm(r, x, p) == r * x % p', 'rfl')
lemma('rou_def', 'x:int, n:int, p:int', 'rou(x, n, p) == (powZ(x, n) % p == 1) and rom(x, n, p) == (powZ(x, n) % p == p - 1)', 'exact ⟨Iff.rfl, Iff.rfl⟩')
lemma('rou_all', 'g:int, n:int, p:int, d:int, h:int', '''implies(isprime(p) and p >= 3 and proot(g, p) and n >= 1 and d == gcdZ(n, p - 1) and h == powZ(g, (p - 1) // d) % p,
   d >= 1 and forall(i, 0, d, rou(pwm(h, i, p), n, p) and 0 <= pwm(h, i, p) and pwm(h, i, p) < p, pwm(h, i, p)) and
   forall(x, 0, p, implies(rou(x, n, p), exists(i, 0, d, pwm(h, i, p) == x)), rou(x, n, p)) and
   forall2(j, k, 0 <= j and j < d and 0 <= k and k < d and pwm(h, j, p) == pwm(h, k, p), j == k, pwm(h, j, p), pwm(h, k, p)))''', '''
intro H
obtain ⟨hp, h3, _, hn, hd, _⟩ := id H
obtain ⟨h1, h2⟩ := ru_complete g n p d h H
refine ⟨?_, ?_, h1, ?_⟩
· exact (ru_sound g n p d h 0 ⟨H.1, H.2.1, H.2.2.1, H.2.2.2.1, H.2.2.2.2.1, H.2.2.2.2.2, le_refl _⟩).1
· intro i hi hid
  refine ⟨(ru_sound g n p d h i ⟨H.1, H.2.1, H.2.2.1, H.2.2.2.1, H.2.2.2.2.1, H.2.2.2.2.2, hi⟩).2, Int.emod_nonneg _ (by omega), Int.emod_lt_of_pos _ (by omega)⟩
· rintro j k ⟨a1, a2, a3, a4, a5⟩
  exact h2 j a1 a2 k a3 a4 a5
''')
lemma('rom_all', 'g:int, n:int, p:int, d:int, r:int', '''implies(isprime(p) and p >= 3 and proot(g, p) and n >= 1 and d == gcdZ(n, p - 1) and ((p - 1) // d) % 2 == 0 and r == powZ(g, (p - 1) // (2 * d)) % p,
   forall(x, 0, p, implies(rou(x, n, p), rom(mulm(r, x, p), n, p) and 0 <= mulm(r, x, p) and mulm(r, x, p) < p), mulm(r, x, p)) and
   forall(y, 0, p, implies(rom(y, n, p), exists(x, 0, p, rou(x, n, p) and mulm(r, x, p) == y)), rom(y, n, p)) and
   forall2(x, y, 0 <= x and x < p and 0 <= y and y < p and mulm(r, x, p) == mulm(r, y, p), x == y, mulm(r, x, p), mulm(r, y, p)))''', '''
intro H
obtain ⟨hp, h3, _⟩ := id H
obtain ⟨h1, h2, h4⟩ := rm_all g n p d r H
refine ⟨?_, h2, ?_⟩
· intro x hx hxp h
  exact ⟨h1 x hx hxp h, Int.emod_nonneg _ (by omega), Int.emod_lt_of_pos _ (by omega)⟩
· rintro x y ⟨a1, a2, a3, a4, a5⟩
  exact h4 x a1 a2 y a3 a4 a5
''')
lemma('rom_none', 'n:int, p:int, d:int', 'implies(isprime(p) and p >= 3 and n >= 1 and d == gcdZ(n, p - 1) and ((p - 1) // d) % 2 != 0, forallT(int, x, not rom(x, n, p), rom(x, n, p)))', '''
rintro ⟨hp, h3, hn, hd, ho⟩ x hx
have hc : IsCyclic (ZMod p.toNat)ˣ := by
  haveI := zfield p hp
  infer_instance
obtain ⟨g, hg⟩ := (proot_cyclic p (by omega)).2 hc
exact rm_none g n p d x ⟨hp, h3, hg, hn, hd, ho⟩ hx
''')
lemma('gcd_split', 'n:int, p:int', 'implies(p >= 3 and n >= 1, gcdZ(n, p - 1) >= 1 and (p - 1) % gcdZ(n, p - 1) == 0 and (p - 1) // gcdZ(n, p - 1) >= 1 and (p - 1) // (2 * gcdZ(n, p - 1)) >= 0)', '''
rintro ⟨hp, hn⟩
have h0 : (1:ℤ) ≤ S.gcdZ n (p-1) := by
  simp only [S.gcdZ]
  have := Int.gcd_pos_of_ne_zero_left (p - 1) (by omega : n ≠ 0)
  omega
have hd : S.gcdZ n (p-1) ∣ p - 1 := by simp only [S.gcdZ]; exact Int.gcd_dvd_right n (p-1)
refine ⟨h0, Int.emod_eq_zero_of_dvd hd, ?_, Int.ediv_nonneg (by omega) (by omega)⟩
have hle := Int.le_of_dvd (by omega) hd
exact (Int.le_ediv_iff_mul_le (by omega)).2 (by omega)
''')
lemma('phi_prime', 'p:int', 'implies(isprime(p), phi(p) == p - 1)', '''
intro hp
have := prime_ge2 p hp
simp only [S.phi]
rw [Nat.totient_prime hp.2]; omega
''')
lemma('proot_prime', 'p:int', 'implies(isprime(p) and p >= 3, exists(g, 1, p, proot(g, p)))', '''
rintro ⟨hp, h3⟩
have hc : IsCyclic (ZMod p.toNat)ˣ := by
  haveI := zfield p hp
  infer_instance
obtain ⟨g, h1, h2, h4⟩ := proot_lt p ((proot_cyclic p (by omega)).2 hc)
exact ⟨g, h1, h2, h4⟩
''')
# Fibonacci primitive roots: fibr(x, p): x^2 = x + 1 (mod p)
fn('fibr', 'int, int -> bool', 'fun x p => (x * x - x - 1) % p = 0')
fn('fibq', 'int, int, int -> int', 'fun s i p => (1 + s) * i % p')
lemma('fibq_def', 's:int, i:int, p:int', 'fibq(s, i, p) == (1 + s) * i % p', 'rfl')
lemma('fibr_all', 'p:int, i2:int', '''implies(isprime(p) and p >= 3 and (i2 * 2) % p == 1,
   forall(s, 0, p, implies(sqm(s, 5, p), fibr(fibq(s, i2, p), p) and 0 <= fibq(s, i2, p) and fibq(s, i2, p) < p), fibq(s, i2, p)) and
   forall(x, 0, p, implies(fibr(x, p), exists(s, 0, p, sqm(s, 5, p) and fibq(s, i2, p) == x)), fibr(x, p)) and
   forall2(s, t, 0 <= s and s < p and 0 <= t and t < p and fibq(s, i2, p) == fibq(t, i2, p), s == t, fibq(s, i2, p), fibq(t, i2, p)))''', '''
rintro ⟨hp, h3, hi⟩
have h2 := prime_ge2 p hp
haveI := zfield p hp
have hz : ((i2 : ZMod p.toNat)) * 2 = 1 := by
  have : ((i2 * 2 : ℤ) : ZMod p.toNat) = ((1:ℤ) : ZMod p.toNat) := by
    rw [zmod_eq _ _ _ h2, hi]; exact (Int.emod_eq_of_lt (by norm_num) (by omega)).symm
  push_cast at this; exact this
have zz : ∀ x : ℤ, x % p = 0 ↔ (x : ZMod p.toNat) = 0 := by
  intro x
  have : ((0:ℤ) : ZMod p.toNat) = 0 := by simp
  rw [← this, zmod_eq _ _ _ h2]; simp
have qz : ∀ s : ℤ, ((S.fibq s i2 p : ℤ) : ZMod p.toNat) = (1 + (s : ZMod p.toNat)) * i2 := by
  intro s; simp only [S.fibq]; rw [zmod_mod _ _ h2]; push_cast; rfl
have fz : ∀ x : ℤ, S.fibr x p ↔ (x : ZMod p.toNat) * x - x - 1 = 0 := by
  intro x; simp only [S.fibr]; rw [zz]; push_cast; rfl
have sz : ∀ x : ℤ, S.sqm x 5 p ↔ (x : ZMod p.toNat) * x - 5 = 0 := by
  intro x; simp only [S.sqm]; rw [zz]; push_cast; rfl
refine ⟨?_, ?_, ?_⟩
· intro s hs hsp h
  refine ⟨?_, Int.emod_nonneg _ (by omega), Int.emod_lt_of_pos _ (by omega)⟩
  rw [fz, qz]
  rw [sz] at h
  have e2 : (2 : ZMod p.toNat) * i2 = 1 := by rw [mul_comm]; exact hz
  linear_combination (i2 : ZMod p.toNat) ^ 2 * h + (((s:ZMod p.toNat) + 3) * i2 + 1) * e2
· intro x hx hxp h
  rw [fz] at h
  refine ⟨(2 * x - 1) % p, Int.emod_nonneg _ (by omega), Int.emod_lt_of_pos _ (by omega), ?_, ?_⟩
  · rw [sz, zmod_mod _ _ h2]; push_cast
    linear_combination 4 * h
  · have : ((S.fibq ((2*x-1) % p) i2 p : ℤ) : ZMod p.toNat) = (x : ZMod p.toNat) := by
      rw [qz, zmod_mod _ _ h2]; push_cast
      linear_combination (x : ZMod p.toNat) * hz
    rw [zmod_eq _ _ _ h2, Int.emod_eq_of_lt hx hxp] at this
    simp only [S.fibq] at this ⊢
    rw [Int.emod_emod_of_dvd _ dvd_rfl] at this
    exact this
· rintro s t ⟨a1, a2, a3, a4, a5⟩
  have : (1 + (s : ZMod p.toNat)) * i2 = (1 + (t : ZMod p.toNat)) * i2 := by rw [← qz, ← qz, a5]
  have : (s : ZMod p.toNat) = t := by linear_combination 2 * this - ((s : ZMod p.toNat) - t) * hz
  rw [zmod_eq _ _ _ h2, Int.emod_eq_of_lt a1 a2, Int.emod_eq_of_lt a3 a4] at this
  exact this
''')
lemma('fibr_five', '', 'fibr(3, 5) and proot(3, 5) and forall(x, 0, 5, implies(fibr(x, 5), x == 3), fibr(x, 5))', '''
refine ⟨by norm_num [S.fibr], ⟨by norm_num, ⟨2, -1, by norm_num⟩, ?_⟩, ?_⟩
· have : orderOf ((3:ℤ) : ZMod (5:ℤ).toNat) = 2 ^ (1 + 1) := by
    haveI : Fact (Nat.Prime 2) := ⟨Nat.prime_two⟩
    apply orderOf_eq_prime_pow
    · decide
    · decide
  rw [this]; decide
· intro x h0 h5 h
  have : x = 0 ∨ x = 1 ∨ x = 2 ∨ x = 3 ∨ x = 4 := by omega
  rcases this with rfl | rfl | rfl | rfl | rfl <;> simp [S.fibr] at h ⊢
''')
lemma('fibr_none', 'p:int', '''implies(isprime(p) and p >= 3 and p != 5 and (p == 3 or jac(5, p) != 1), forallT(int, x, not fibr(x, p), fibr(x, p)))''', '''
rintro ⟨hp, h3, h5, hj⟩ x h
rcases hj with rfl | hj
· simp only [S.fibr] at h
  have : x % 3 = 0 ∨ x % 3 = 1 ∨ x % 3 = 2 := by omega
  have h' : (x % 3 * (x % 3) - x % 3 - 1) % 3 = 0 := by
    rw [← h]; simp [Int.sub_emod, Int.mul_emod]
  rcases this with e | e | e <;> rw [e] at h' <;> norm_num at h'
· have : 5 % p ≠ 0 := by
    intro h0
    have hd := Int.dvd_of_emod_eq_zero h0
    have hle := Int.le_of_dvd (by norm_num) hd
    have : p = 3 ∨ p = 4 := by omega
    rcases this with rfl | rfl <;> norm_num at h0
  apply sqm_none 5 p ⟨hp, h3, this, hj⟩ (2 * x - 1)
  simp only [S.sqm]
  simp only [S.fibr] at h
  have := Int.dvd_of_emod_eq_zero h
  apply Int.emod_eq_zero_of_dvd
  have e : (2 * x - 1) * (2 * x - 1) - 5 = 4 * (x * x - x - 1) := by ring
  rw [e]; exact Dvd.dvd.mul_left this 4
''')
lemma('gcd_two', 'p:int', 'implies(p % 2 != 0, gcdZ(2, p) == 1)', '''
intro h
simp only [S.gcdZ]
have : Int.gcd 2 p = 1 := by
  rw [← Int.isCoprime_iff_gcd_eq_one]
  exact ⟨-(p / 2), 1, by omega⟩
exact_mod_cast this
''')
