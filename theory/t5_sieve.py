"""Sieves: survivors of crossing out, and lists that enumerate the primes."""
from pyvc.theory import begin, fn, lemma, raw
begin('sieve', ['primes'])
fn('k6', 'int -> int', 'fun i => 3 * i + 1 + i % 2', smt=None)
fn('surv', 'int, int -> bool', 'fun v Q => ∀ q : ℤ, S.isprime q → 5 ≤ q → q < Q → v % q = 0 → v < q * q')
lemma('k6_def', 'i:int', 'k6(i) == 3 * i + 1 + i % 2 and k6(i) % 2 == 1 and k6(i) % 3 != 0', 'refine ⟨rfl, ?_, ?_⟩ <;> simp only [S.k6] <;> omega')
raw('''
theorem k6_gap (i q : ℤ) (h2 : q % 2 = 1) (h3 : q % 3 ≠ 0) (hl : S.k6 i ≤ q) (hr : q < S.k6 (i + 1)) : q = S.k6 i := by
  simp only [S.k6] at *
  rcases Int.emod_two_eq_zero_or_one i with h | h
  · obtain ⟨w, rfl⟩ : ∃ w, i = 2 * w := ⟨i / 2, by omega⟩
    have : (2 * w + 1) % 2 = 1 := by omega
    rw [this] at hr; rw [h] at hl; rw [h]; omega
  · obtain ⟨w, rfl⟩ : ∃ w, i = 2 * w + 1 := ⟨i / 2, by omega⟩
    have : (2 * w + 1 + 1) % 2 = 0 := by omega
    rw [this] at hr; rw [h] at hl; rw [h]; omega
''')
lemma('surv_start', 'v:int, Q:int', 'implies(Q <= 5, surv(v, Q))', 'intro hQ q hq h5 h1; omega')
raw('''
theorem surv_le (v Q Q' : ℤ) (h : S.surv v Q) (hq : ∀ q, S.isprime q → 5 ≤ q → Q ≤ q → q < Q' → v % q = 0 → v < q * q) : S.surv v Q' := by
  intro q h1 h2 h3 h4
  by_cases hc : q < Q
  · exact h q h1 h2 hc h4
  · exact hq q h1 h2 (by omega) h3 h4
theorem prime6 (q : ℤ) (h : S.isprime q) (h5 : 5 ≤ q) : q % 2 = 1 ∧ q % 3 ≠ 0 := by
  constructor
  · by_contra hc
    rcases prime_dvd q 2 ⟨h, by norm_num, by omega⟩ with h | h <;> omega
  · intro hc
    rcases prime_dvd q 3 ⟨h, by norm_num, by omega⟩ with h | h <;> omega
''')
lemma('surv_prime', 'v:int, Q:int', 'implies(v >= 5 and v % 2 == 1 and v % 3 != 0 and surv(v, Q) and Q >= 1 and v < Q * Q, isprime(v))', '''
rintro ⟨h5, h2, h3, hs, hQ, hlt⟩
obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ v)
rw [isprime_nat]
by_contra hp
obtain ⟨p, hp1, hp2, hp3⟩ := exists_small_factor n (by omega) hp
have hpp := (isprime_nat p).2 hp1
have hd : (n:ℤ) % p = 0 := Int.emod_eq_zero_of_dvd (by exact_mod_cast hp2)
have hp5 : 5 ≤ p := by
  have := hp1.two_le
  by_contra hc
  have : p = 2 ∨ p = 3 ∨ p = 4 := by omega
  rcases this with rfl | rfl | rfl
  · push_cast at hd; omega
  · push_cast at hd; omega
  · exact absurd hp1 (by norm_num)
have hpz : (p:ℤ) * p ≤ n := by exact_mod_cast hp3
have hpQ : (p:ℤ) < Q := by by_contra hc; nlinarith
have := hs p hpp (by exact_mod_cast hp5) hpQ hd
omega
''')
lemma('surv_of_prime', 'v:int, Q:int', 'implies(isprime(v), surv(v, Q))', '''
intro h q hq h5 hl hm
have := prime_ge2 v h
rcases prime_dvd v q ⟨h, by omega, hm⟩ with h1 | h1
· omega
· subst h1; nlinarith
''')
lemma('surv_self', 'i:int', 'implies(i >= 1 and surv(k6(i), k6(i)), isprime(k6(i)) and k6(i) >= 5)', '''
rintro ⟨hi, hs⟩
have h := k6_def i
have h5 : S.k6 i ≥ 5 := by omega
exact ⟨surv_prime _ _ ⟨h5, by omega, by omega, hs, by omega, by nlinarith⟩, h5⟩
''')
lemma('surv_skip', 'v:int, i:int', 'implies(i >= 0 and (i == 0 or not isprime(k6(i))), surv(v, k6(i + 1)) == surv(v, k6(i)))', '''
rintro ⟨hi, hp⟩
have h := k6_def i
have h1 := k6_def (i+1)
constructor
· intro hs q a b c d; exact hs q a b (by omega) d
· intro hs
  refine surv_le _ _ _ hs ?_
  intro q hq h5 hl hr hm
  exfalso
  have h6 := prime6 q hq h5
  have : q = S.k6 i := k6_gap i q h6.1 h6.2 hl hr
  rcases hp with h0 | h0
  · subst h0; omega
  · exact h0 (this ▸ hq)
''')
lemma('surv_cross', 'v:int, i:int', 'implies(i >= 1 and isprime(k6(i)), surv(v, k6(i + 1)) == (surv(v, k6(i)) and (v % k6(i) != 0 or v < k6(i) * k6(i))))', '''
rintro ⟨hi, hp⟩
have h := k6_def i
have h1 := k6_def (i+1)
constructor
· intro hs
  refine ⟨fun q a b c d => hs q a b (by omega) d, ?_⟩
  by_cases hm : v % S.k6 i = 0
  · right; exact hs _ hp (by omega) (by omega) hm
  · left; exact hm
· rintro ⟨hs, hv⟩
  refine surv_le _ _ _ hs ?_
  intro q hq h5 hl hr hm
  have h6 := prime6 q hq h5
  have : q = S.k6 i := k6_gap i q h6.1 h6.2 hl hr
  subst this
  rcases hv with hv | hv
  · exact absurd hm hv
  · exact hv
''')
lemma('cross_hit', 'i:int, j:int, k:int, a:int, b:int', '''implies(i >= 1 and j >= 0 and k == k6(i) and a == k * k // 3 and
  b == (k * k + 4 * k - 2 * k * (i % 2)) // 3,
  ((j >= a and (j - a) % (2 * k) == 0) or (j >= b and (j - b) % (2 * k) == 0)) == (k6(j) % k == 0 and k6(j) >= k * k))''', '''
rintro ⟨hi, hj, hk, ha, hb⟩
have h1 := k6_def i
have h2 := k6_def j
rw [← hk] at h1
have hk5 : k ≥ 5 := by omega
rcases Int.emod_two_eq_zero_or_one i with he | he
· -- k = 6u+1
  obtain ⟨u, hu⟩ : ∃ u, k = 6 * u + 1 := ⟨i / 2, by omega⟩
  have hkk : k * k = 6 * (6 * u * u + 2 * u) + 1 := by rw [hu]; ring
  have ha2 : a = 2 * (6 * u * u + 2 * u) := by omega
  have hb2 : b = 2 * (6 * u * u + 2 * u + 4 * u) + 1 := by
    rw [hb, he]
    have : k * k + 4 * k - 2 * k * 0 = 6 * (6 * u * u + 2 * u + 4 * u) + 5 := by rw [hkk, hu]; ring
    rw [this]; omega
  constructor
  · rintro (⟨hja, hm⟩ | ⟨hja, hm⟩)
    · obtain ⟨t, ht⟩ := Int.dvd_of_emod_eq_zero hm
      have e : S.k6 j = k * (k + 6 * t) := by
        have e1 : j = 2 * (6 * u * u + 2 * u + k * t) := by rw [ha2] at ht; linarith
        have : j % 2 = 0 := by omega
        rw [h2.1, this, e1]; rw [show k * (k + 6 * t) = k * k + 6 * (k * t) by ring, hkk]; ring
      have ht0 : t ≥ 0 := by by_contra hc; nlinarith
      exact ⟨by rw [e]; exact Int.mul_emod_right _ _, by rw [e]; nlinarith⟩
    · obtain ⟨t, ht⟩ := Int.dvd_of_emod_eq_zero hm
      have e : S.k6 j = k * (k + 4 + 6 * t) := by
        have e1 : j = 2 * (6 * u * u + 2 * u + 4 * u + k * t) + 1 := by rw [hb2] at ht; linarith
        have : j % 2 = 1 := by omega
        rw [h2.1, this, e1]; rw [show k * (k + 4 + 6 * t) = k * k + 4 * k + 6 * (k * t) by ring, hkk, hu]; ring
      have ht0 : t ≥ 0 := by by_contra hc; nlinarith
      exact ⟨by rw [e]; exact Int.mul_emod_right _ _, by rw [e]; nlinarith⟩
  · rintro ⟨hm, hge⟩
    obtain ⟨c, hc⟩ := Int.dvd_of_emod_eq_zero hm
    have hck : c ≥ k := by by_contra hx; nlinarith
    have hodd : c % 2 = 1 := by
      by_contra hx
      obtain ⟨c', rfl⟩ : ∃ c', c = 2 * c' := ⟨c / 2, by omega⟩
      have : S.k6 j = 2 * (k * c') := by rw [hc]; ring
      omega
    have h3 : c % 3 ≠ 0 := by
      intro hx
      obtain ⟨c', rfl⟩ : ∃ c', c = 3 * c' := ⟨c / 3, by omega⟩
      have : S.k6 j = 3 * (k * c') := by rw [hc]; ring
      omega
    rcases (by omega : c % 6 = 1 ∨ c % 6 = 5) with h6 | h6
    · obtain ⟨t, ht⟩ : ∃ t, c = k + 6 * t := ⟨(c - k) / 6, by omega⟩
      left
      have ht0 : t ≥ 0 := by omega
      have e : S.k6 j = 6 * (6 * u * u + 2 * u + k * t) + 1 := by rw [hc, ht]; linarith [hkk, (by ring : k * (k + 6 * t) = k * k + 6 * (k * t))]
      have e1 : j - a = 2 * k * t := by
        have : j = 2 * (6 * u * u + 2 * u + k * t) := by omega
        rw [this, ha2]; ring
      have : 2 * k * t ≥ 0 := by nlinarith
      exact ⟨by omega, by rw [e1]; exact Int.mul_emod_right _ _⟩
    · obtain ⟨t, ht⟩ : ∃ t, c = k + 4 + 6 * t := ⟨(c - k - 4) / 6, by omega⟩
      right
      have ht0 : t ≥ 0 := by omega
      have e : S.k6 j = 6 * (6 * u * u + 2 * u + 4 * u + k * t) + 5 := by
        rw [hc, ht]; linarith [hkk, (by ring : k * (k + 4 + 6 * t) = k * k + 4 * k + 6 * (k * t))]
      have e1 : j - b = 2 * k * t := by
        have : j = 2 * (6 * u * u + 2 * u + 4 * u + k * t) + 1 := by omega
        rw [this, hb2]; ring
      have : 2 * k * t ≥ 0 := by nlinarith
      exact ⟨by omega, by rw [e1]; exact Int.mul_emod_right _ _⟩
· obtain ⟨u, hu⟩ : ∃ u, k = 6 * u + 5 := ⟨i / 2, by omega⟩
  have hu0 : u ≥ 0 := by omega
  have hkk : k * k = 6 * (6 * u * u + 10 * u + 4) + 1 := by rw [hu]; ring
  have ha2 : a = 2 * (6 * u * u + 10 * u + 4) := by omega
  have hb2 : b = 2 * (6 * u * u + 10 * u + 4 + 2 * u + 1) + 1 := by
    rw [hb, he]
    have : k * k + 4 * k - 2 * k * 1 = 6 * (6 * u * u + 10 * u + 4 + 2 * u + 1) + 5 := by rw [hkk, hu]; ring
    rw [this]; omega
  constructor
  · rintro (⟨hja, hm⟩ | ⟨hja, hm⟩)
    · obtain ⟨t, ht⟩ := Int.dvd_of_emod_eq_zero hm
      have e : S.k6 j = k * (k + 6 * t) := by
        have e1 : j = 2 * (6 * u * u + 10 * u + 4 + k * t) := by rw [ha2] at ht; linarith
        have : j % 2 = 0 := by omega
        rw [h2.1, this, e1]; rw [show k * (k + 6 * t) = k * k + 6 * (k * t) by ring, hkk]; ring
      have ht0 : t ≥ 0 := by by_contra hc; nlinarith
      exact ⟨by rw [e]; exact Int.mul_emod_right _ _, by rw [e]; nlinarith⟩
    · obtain ⟨t, ht⟩ := Int.dvd_of_emod_eq_zero hm
      have e : S.k6 j = k * (k + 2 + 6 * t) := by
        have e1 : j = 2 * (6 * u * u + 10 * u + 4 + 2 * u + 1 + k * t) + 1 := by rw [hb2] at ht; linarith
        have : j % 2 = 1 := by omega
        rw [h2.1, this, e1]; rw [show k * (k + 2 + 6 * t) = k * k + 2 * k + 6 * (k * t) by ring, hkk, hu]; ring
      have ht0 : t ≥ 0 := by by_contra hc; nlinarith
      exact ⟨by rw [e]; exact Int.mul_emod_right _ _, by rw [e]; nlinarith⟩
  · rintro ⟨hm, hge⟩
    obtain ⟨c, hc⟩ := Int.dvd_of_emod_eq_zero hm
    have hck : c ≥ k := by by_contra hx; nlinarith
    have hodd : c % 2 = 1 := by
      by_contra hx
      obtain ⟨c', rfl⟩ : ∃ c', c = 2 * c' := ⟨c / 2, by omega⟩
      have : S.k6 j = 2 * (k * c') := by rw [hc]; ring
      omega
    have h3 : c % 3 ≠ 0 := by
      intro hx
      obtain ⟨c', rfl⟩ : ∃ c', c = 3 * c' := ⟨c / 3, by omega⟩
      have : S.k6 j = 3 * (k * c') := by rw [hc]; ring
      omega
    rcases (by omega : c % 6 = 5 ∨ c % 6 = 1) with h6 | h6
    · obtain ⟨t, ht⟩ : ∃ t, c = k + 6 * t := ⟨(c - k) / 6, by omega⟩
      left
      have ht0 : t ≥ 0 := by omega
      have e : S.k6 j = 6 * (6 * u * u + 10 * u + 4 + k * t) + 1 := by rw [hc, ht]; linarith [hkk, (by ring : k * (k + 6 * t) = k * k + 6 * (k * t))]
      have e1 : j - a = 2 * k * t := by
        have : j = 2 * (6 * u * u + 10 * u + 4 + k * t) := by omega
        rw [this, ha2]; ring
      have : 2 * k * t ≥ 0 := by nlinarith
      exact ⟨by omega, by rw [e1]; exact Int.mul_emod_right _ _⟩
    · obtain ⟨t, ht⟩ : ∃ t, c = k + 2 + 6 * t := ⟨(c - k - 2) / 6, by omega⟩
      right
      have ht0 : t ≥ 0 := by omega
      have e : S.k6 j = 6 * (6 * u * u + 10 * u + 4 + 2 * u + 1 + k * t) + 5 := by
        rw [hc, ht]; linarith [hkk, (by ring : k * (k + 2 + 6 * t) = k * k + 2 * k + 6 * (k * t))]
      have e1 : j - b = 2 * k * t := by
        have : j = 2 * (6 * u * u + 10 * u + 4 + 2 * u + 1 + k * t) + 1 := by omega
        rw [this, hb2]; ring
      have : 2 * k * t ≥ 0 := by nlinarith
      exact ⟨by omega, by rw [e1]; exact Int.mul_emod_right _ _⟩
''')
lemma('isprime5', '', 'isprime(5) and not isprime(4) and not isprime(6)', '''
exact ⟨(isprime_nat 5).2 (by norm_num), fun h => absurd ((isprime_nat 4).1 h) (by norm_num), fun h => absurd ((isprime_nat 6).1 h) (by norm_num)⟩
''')
lemma('prime_k6', 'q:int', 'implies(isprime(q) and q != 2 and q != 3, q >= 5 and q == k6(q // 3) and q // 3 >= 1)', '''
rintro ⟨h, h2, h3⟩
have hp := prime_ge2 q h
have h5 : q ≥ 5 := by
  by_contra hc
  have : q = 4 := by omega
  subst this
  exact notprime_dvd 4 2 ⟨by norm_num, by norm_num, by norm_num⟩ h
have h6 := prime6 q h h5
have := k6_def (q / 3)
exact ⟨h5, by omega, by omega⟩
''')
lemma('primes_enum', 'A:arr[int], m:int, n:int', '''implies(m >= 0 and forall2(i, j, 0 <= i and i < j and j < m, A[i] < A[j]) and
  forall(i, 0, m, isprime(A[i]) and A[i] <= n) and forallT(int, q, implies(isprime(q) and q <= n, exists(i, 0, m, A[i] == q))),
  m == pc(n + 1) and forall(j, 0, m, A[j] == nthp(j)))''', '''
rintro ⟨hm, hinc, hp, hc⟩
obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le hm
have hmono : ∀ i j : ℕ, i < m → j < m → (A i < A j ↔ i < j) := by
  intro i j hi hj
  constructor
  · intro h
    by_contra hx
    rcases lt_or_eq_of_le (not_lt.1 hx) with h1 | h1
    · have := hinc j i ⟨by omega, by exact_mod_cast h1, by exact_mod_cast hi⟩; omega
    · subst h1; omega
  · intro h; exact hinc i j ⟨by omega, by exact_mod_cast h, by exact_mod_cast hj⟩
have key : ∀ (k : ℕ) (B : ℤ), k ≤ m → (∀ i : ℕ, i < k → A i < B) → (∀ i : ℕ, i < m → A i < B → i < k) → B ≤ n + 1 → Nat.count Nat.Prime B.toNat = k := by
  intro k B hk h1 h2 hB
  rw [Nat.count_eq_card_filter_range]
  have : (Finset.range B.toNat).filter Nat.Prime = (Finset.range k).image (fun i : ℕ => (A i).toNat) := by
    ext q
    simp only [Finset.mem_filter, Finset.mem_range, Finset.mem_image]
    constructor
    · rintro ⟨hq, hqp⟩
      obtain ⟨i, hi0, him, hi⟩ := hc q ⟨(isprime_nat q).2 hqp, by omega⟩
      obtain ⟨i, rfl⟩ := Int.eq_ofNat_of_zero_le hi0
      exact ⟨i, h2 i (by omega) (by rw [hi]; omega), by rw [hi]; simp⟩
    · rintro ⟨i, hi, rfl⟩
      have h3 := hp i (by omega) (by omega)
      have h4 := prime_ge2 _ h3.1
      have h5 := h1 i hi
      exact ⟨by omega, h3.1.2⟩
  rw [this, Finset.card_image_of_injOn, Finset.card_range]
  intro i hi j hj hij
  simp only [Finset.coe_range, Set.mem_Iio] at hi hj
  have h3 := prime_ge2 _ (hp i (by omega) (by omega)).1
  have h4 := prime_ge2 _ (hp j (by omega) (by omega)).1
  simp only at hij
  by_contra hne
  rcases lt_or_gt_of_ne hne with h | h
  · have := (hmono i j (by omega) (by omega)).2 h; omega
  · have := (hmono j i (by omega) (by omega)).2 h; omega
constructor
· simp only [S.pc]
  rw [key m (n+1) le_rfl (fun i hi => by have := (hp i (by omega) (by omega)).2; omega) (fun i hi _ => hi) le_rfl]
· intro j hj0 hjm
  obtain ⟨j, rfl⟩ := Int.eq_ofNat_of_zero_le hj0
  have hj : j < m := by omega
  have h1 := key j (A j) (by omega) (fun i hi => (hmono i j (by omega) hj).2 hi) (fun i hi h => (hmono i j hi hj).1 h)
    (by have := (hp j (by omega) hjm).2; omega)
  have h2 := hp j (by omega) hjm
  have h3 := prime_ge2 _ h2.1
  simp only [S.nthp, Int.toNat_natCast]
  have h4 := Nat.nth_count h2.1.2
  rw [h1] at h4
  rw [h4]
  omega
''')
lemma('luo_step', 'i:int', '''implies(i >= 1, k6(i) == k6(i - 1) + 2 * (1 + i % 2) and
  k6(i) * k6(i) == k6(i - 1) * k6(i - 1) + 12 * (1 + i % 2) * i and
  k6(i) * k6(i) + 4 * k6(i) - 2 * k6(i) * (i % 2) == k6(i) * k6(i) - 1 + 3 * (2 * i * (2 - i % 2) + 1) + 2 and
  k6(i) * k6(i) % 3 == 1)''', '''
intro h
simp only [S.k6]
rcases Int.emod_two_eq_zero_or_one i with h2 | h2
· obtain ⟨w, rfl⟩ : ∃ w, i = 2 * w := ⟨i / 2, by omega⟩
  have e : (2 * w - 1) % 2 = 1 := by omega
  rw [h2, e]
  refine ⟨by ring, by ring, by ring, ?_⟩
  have : (3 * (2 * w) + 1 + 0) * (3 * (2 * w) + 1 + 0) = 3 * (12 * w * w + 4 * w) + 1 := by ring
  rw [this]; omega
· obtain ⟨w, rfl⟩ : ∃ w, i = 2 * w + 1 := ⟨i / 2, by omega⟩
  have e : (2 * w + 1 - 1) % 2 = 0 := by omega
  rw [h2, e]
  refine ⟨by ring, by ring, by ring, ?_⟩
  have : (3 * (2 * w + 1) + 1 + 1) * (3 * (2 * w + 1) + 1 + 1) = 3 * (12 * w * w + 20 * w + 8) + 1 := by ring
  rw [this]; omega
''')
fn('surv2', 'int, int -> bool', 'fun v Q => ∀ q : ℤ, S.isprime q → 3 ≤ q → q < Q → v % q = 0 → v < q * q')
lemma('surv2_start', 'v:int, Q:int', 'implies(Q <= 3, surv2(v, Q))', 'intro hQ q hq h5 h1; omega')
lemma('surv2_of_prime', 'v:int, Q:int', 'implies(isprime(v), surv2(v, Q))', '''
intro h q hq h5 hl hm
have := prime_ge2 v h
rcases prime_dvd v q ⟨h, by omega, hm⟩ with h1 | h1
· omega
· subst h1; nlinarith
''')
lemma('surv2_prime', 'v:int, Q:int', 'implies(v >= 3 and v % 2 == 1 and surv2(v, Q) and Q >= 1 and v < Q * Q, isprime(v))', '''
rintro ⟨h5, h2, hs, hQ, hlt⟩
obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ v)
rw [isprime_nat]
by_contra hp
obtain ⟨p, hp1, hp2, hp3⟩ := exists_small_factor n (by omega) hp
have hpp := (isprime_nat p).2 hp1
have hd : (n:ℤ) % p = 0 := Int.emod_eq_zero_of_dvd (by exact_mod_cast hp2)
have hp5 : 3 ≤ p := by
  have := hp1.two_le
  by_contra hc
  have : p = 2 := by omega
  subst this
  push_cast at hd; omega
have hpz : (p:ℤ) * p ≤ n := by exact_mod_cast hp3
have hpQ : (p:ℤ) < Q := by by_contra hc; nlinarith
have := hs p hpp (by exact_mod_cast hp5) hpQ hd
omega
''')
lemma('surv2_cross', 'v:int, k:int', '''implies(k >= 3 and k % 2 == 1, surv2(v, k + 2) == (surv2(v, k) and (not isprime(k) or v % k != 0 or v < k * k)))''', '''
rintro ⟨hk, h2⟩
constructor
· intro hs
  refine ⟨fun q a b c d => hs q a b (by omega) d, ?_⟩
  by_cases hp : S.isprime k
  · by_cases hm : v % k = 0
    · right; right; exact hs _ hp (by omega) (by omega) hm
    · right; left; exact hm
  · left; exact hp
· rintro ⟨hs, hv⟩ q hq h5 hr hm
  by_cases hc : q < k
  · exact hs q hq h5 hc hm
  have : q ≠ k + 1 := by
    rintro rfl
    rcases prime_dvd (k+1) 2 ⟨hq, by norm_num, by omega⟩ with h | h <;> omega
  have : q = k := by omega
  subst this
  rcases hv with hv | hv | hv
  · exact absurd hq hv
  · exact absurd hm hv
  · exact hv
''')
lemma('surv2_self', 'k:int', 'implies(k >= 3 and k % 2 == 1 and surv2(k, k), isprime(k))', '''
rintro ⟨h, h2, hs⟩
exact surv2_prime _ _ ⟨h, h2, hs, by omega, by nlinarith⟩
''')
lemma('cross_hit2', 'k:int, j:int, s:int', '''implies(k >= 3 and k % 2 == 1 and j >= 0 and s == k * k // 2,
  (j >= s and (j - s) % k == 0) == ((2 * j + 1) % k == 0 and 2 * j + 1 >= k * k))''', '''
rintro ⟨hk, h2, hj, rfl⟩
obtain ⟨u, rfl⟩ : ∃ u, k = 2 * u + 1 := ⟨k / 2, by omega⟩
have e : (2 * u + 1) * (2 * u + 1) = 2 * (2 * u * u + 2 * u) + 1 := by ring
have e2 : (2 * u + 1) * (2 * u + 1) / 2 = 2 * u * u + 2 * u := by rw [e]; omega
rw [e2]
constructor
· rintro ⟨h, hm⟩
  obtain ⟨t, ht⟩ := Int.dvd_of_emod_eq_zero hm
  have : 2 * j + 1 = (2 * u + 1) * (2 * u + 1 + 2 * t) := by
    have : j = (2 * u * u + 2 * u) + (2 * u + 1) * t := by linarith
    rw [this]; ring
  exact ⟨by rw [this]; exact Int.mul_emod_right _ _, by omega⟩
· rintro ⟨hm, hge⟩
  obtain ⟨c, hc⟩ := Int.dvd_of_emod_eq_zero hm
  have hodd : c % 2 = 1 := by
    by_contra hx
    obtain ⟨c', rfl⟩ : ∃ c', c = 2 * c' := ⟨c / 2, by omega⟩
    have : 2 * j + 1 = 2 * ((2 * u + 1) * c') := by rw [hc]; ring
    omega
  obtain ⟨t, ht⟩ : ∃ t, c = 2 * u + 1 + 2 * t := ⟨(c - (2 * u + 1)) / 2, by omega⟩
  have : j - (2 * u * u + 2 * u) = (2 * u + 1) * t := by
    rw [ht] at hc
    have : 2 * j + 1 = 2 * (2 * u * u + 2 * u) + 1 + 2 * ((2 * u + 1) * t) := by rw [hc]; ring
    omega
  exact ⟨by omega, by rw [this]; exact Int.mul_emod_right _ _⟩
''')
