"""Perfect powers and squares."""
from pyvc.theory import begin, fn, lemma, raw
begin('class', ['arithf', 'factor', 'arith'])
A = 'A:arr[tuple[int,int]]'
fn('kpow', 'int, int -> bool', 'fun n k => ∃ b : ℤ, b ^ k.toNat = n')
fn('perfpow', 'int -> bool', 'fun n => ∃ k : ℤ, 2 ≤ k ∧ ∃ b : ℤ, b ^ k.toNat = n')
fn('issq', 'int -> bool', 'fun n => ∃ r : ℤ, r * r = n')
fn('sqmod', 'int, int -> int', 'fun k m => (k * k) % m')
lemma('sq_res', 'n:int, m:int', 'implies(m > 0, not issq(n) or exists(k, 0, m, n % m == sqmod(k, m)))', '''
intro hm
by_cases h : ∃ r : ℤ, r * r = n
· obtain ⟨r, hr⟩ := h
  right
  refine ⟨r % m, Int.emod_nonneg _ (by omega), Int.emod_lt_of_pos _ hm, ?_⟩
  simp only [S.sqmod]
  rw [← hr, Int.mul_emod]
· left; exact h
''')
lemma('root_uniq', 'n:int, q:int', 'implies(q >= 0 and q * q <= n and n < (q + 1) * (q + 1) and issq(n), q * q == n)', '''
rintro ⟨h0, h1, h2, r, h3⟩
have : |r| = q := by
  have a : |r| * |r| = n := by rw [abs_mul_abs_self]; exact h3
  nlinarith [abs_nonneg r, lt_or_ge (|r|) q, (lt_trichotomy (|r|) q)]
rw [← this, abs_mul_abs_self]; exact h3
'''.replace("  nlinarith [abs_nonneg r, lt_or_ge (|r|) q, (lt_trichotomy (|r|) q)]", '''  have p := abs_nonneg r
  apply le_antisymm
  · by_contra hc; push_neg at hc; nlinarith
  · by_contra hc; push_neg at hc; nlinarith'''))
lemma('kpow_root', 'n:int, k:int, r:int', 'implies(k >= 1 and r >= 0 and powZ(r, k) <= n and n < powZ(r + 1, k), iff(kpow(n, k), powZ(r, k) == n))', '''
rintro ⟨hk, hr, h1, h2⟩
simp only [S.powZ, S.kpow] at *
constructor
· rintro ⟨b, hb⟩
  have hn : 0 ≤ n := le_trans (by positivity) h1
  have hb' : |b| ^ k.toNat = n := by rw [← abs_pow, hb, abs_of_nonneg hn]
  have hk0 : k.toNat ≠ 0 := by omega
  have : |b| = r := by
    apply le_antisymm
    · by_contra hc; push_neg at hc
      have := pow_le_pow_left₀ (by omega : 0 ≤ r + 1) (by omega : r + 1 ≤ |b|) k.toNat
      omega
    · by_contra hc; push_neg at hc
      have := pow_lt_pow_left₀ hc (abs_nonneg b) hk0
      omega
  rw [← this]; exact hb'
· intro h; exact ⟨r, h⟩
''')
lemma('perfpow_bound', 'n:int', 'implies(n >= 2 and forall(j, 2, bitlen(n) + 1, not kpow(n, j)), not perfpow(n))', '''
rintro ⟨hn, h⟩ ⟨k, hk, b, hb⟩
refine h k hk ?_ ⟨b, hb⟩
have hb' : |b| ^ k.toNat = n := by rw [← abs_pow, hb, abs_of_nonneg (by omega)]
have hb2 : 2 ≤ |b| := by
  by_contra hc; push_neg at hc
  have p := abs_nonneg b
  rcases (by omega : |b| = 0 ∨ |b| = 1) with e | e
  · rw [e, zero_pow (by omega)] at hb'; omega
  · rw [e, one_pow] at hb'; omega
have h3 := (bitlen_bounds n (by omega)).2.2
by_contra hc; push_neg at hc
have h4 := pow_le_pow_left₀ (by norm_num) hb2 k.toNat
have h5 : (2:ℤ) ^ (S.bitlen n).toNat ≤ 2 ^ k.toNat := pow_le_pow_right₀ (by norm_num) (by omega)
simp only [S.powZ] at h3
omega
''')
lemma('perfpow_pow2', 'n:int, k:int', 'implies(n >= 2 and k >= 2 and powZ(2, k) > n and forall(j, 2, k, not kpow(n, j)), not perfpow(n))', '''
rintro ⟨hn, hk2, hp, h⟩ ⟨k', hk, b, hb⟩
refine h k' hk ?_ ⟨b, hb⟩
have hb' : |b| ^ k'.toNat = n := by rw [← abs_pow, hb, abs_of_nonneg (by omega)]
have hb2 : 2 ≤ |b| := by
  by_contra hc; push_neg at hc
  have p := abs_nonneg b
  rcases (by omega : |b| = 0 ∨ |b| = 1) with e | e
  · rw [e, zero_pow (by omega)] at hb'; omega
  · rw [e, one_pow] at hb'; omega
by_contra hc; push_neg at hc
have h4 := pow_le_pow_left₀ (by norm_num) hb2 k'.toNat
have h5 : (2:ℤ) ^ k.toNat ≤ 2 ^ k'.toNat := pow_le_pow_right₀ (by norm_num) (by omega)
simp only [S.powZ] at hp
omega
''')
lemma('kpow_one', 'n:int, b:int, k:int', 'implies(k >= 2 and powZ(b, k) == n, kpow(n, k) and perfpow(n))', 'rintro ⟨h, h2⟩; exact ⟨⟨b, h2⟩, k, h, b, h2⟩')
lemma('kpow_base', 'b:int, k:int, n:int', 'implies(n >= 2 and b >= 0 and k >= 2 and powZ(b, k) == n, b >= 2 and b < n)', '''
rintro ⟨hn, hb, hk, h⟩
simp only [S.powZ] at h
have hb2 : 2 ≤ b := by
  by_contra hc; push_neg at hc
  rcases (by omega : b = 0 ∨ b = 1) with e | e
  · rw [e, zero_pow (by omega)] at h; omega
  · rw [e, one_pow] at h; omega
refine ⟨hb2, ?_⟩
have := pow_lt_pow_right₀ (by omega : 1 < b) (by omega : 1 < k.toNat)
rw [pow_one] at this; omega
''')
lemma('powZ_powZ', 'a:int, j:int, k:int', 'implies(j >= 0 and k >= 0, powZ(powZ(a, j), k) == powZ(a, j * k))', '''
rintro ⟨hj, hk⟩
obtain ⟨j, rfl⟩ := Int.eq_ofNat_of_zero_le hj
obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le hk
simp only [S.powZ, Int.toNat_natCast]
rw [← pow_mul, ← Nat.cast_mul, Int.toNat_natCast]
''')
lemma('powZ_mulbase', 'a:int, b:int, k:int', 'powZ(a * b, k) == powZ(a, k) * powZ(b, k)', 'simp only [S.powZ, mul_pow]')
raw('''
theorem pf_val (A : ℤ → ℤ × ℤ) (m : ℤ) (h : S.pfok A m) (n : ℕ) (hn : (n:ℤ) ≤ m) : ∃ M : ℕ, S.prodPE A n = M ∧ 0 < M ∧
    (∀ i : ℕ, i < n → M.factorization (A i).1.toNat = (A i).2.toNat) ∧
    (∀ p : ℕ, p.Prime → (∀ i : ℕ, i < n → (A i).1 ≠ p) → M.factorization p = 0) := by
  induction n with
  | zero => exact ⟨1, by simp [S.prodPE], by norm_num, by intro i hi; omega, by intro p _ _; simp⟩
  | succ n ih =>
    obtain ⟨M, h1, h2, h3, h4⟩ := ih (by push_cast at hn; omega)
    obtain ⟨p, hp, hpp⟩ := (isprime_iff _).1 (h n (by omega) (by push_cast at hn; omega)).1
    have hd := (h n (by omega) (by push_cast at hn; omega)).2.2
    have hpe : p ^ (A n).2.toNat ≠ 0 := pow_ne_zero _ hpp.ne_zero
    have hM0 : M.factorization p = 0 := by
      apply h4 p hpp
      intro i hi e
      exact hd i (by omega) (by exact_mod_cast hi) (by rw [e, hp])
    refine ⟨M * p ^ (A n).2.toNat, ?_, Nat.mul_pos h2 (Nat.pos_of_ne_zero hpe), ?_, ?_⟩
    · push_cast
      rw [prodPE_succ A n (by omega), h1, hp, S.powZ]
    · intro i hi
      rw [Nat.factorization_mul h2.ne' hpe, Finsupp.add_apply, hpp.factorization_pow]
      rcases Nat.lt_succ_iff_lt_or_eq.1 hi with hi | rfl
      · rw [h3 i hi, Finsupp.single_apply, if_neg, add_zero]
        intro e
        have hi1 := (isprime_iff _).1 (h i (by omega) (by push_cast at hn; omega)).1
        obtain ⟨q, hq, hqq⟩ := hi1
        apply hd i (by omega) (by exact_mod_cast hi)
        rw [hq] at e
        simp only [Int.toNat_natCast] at e
        rw [hq, hp, e]
      · rw [hp, Int.toNat_natCast, hM0, Finsupp.single_eq_same, zero_add]
    · intro q hq hall
      rw [Nat.factorization_mul h2.ne' hpe, Finsupp.add_apply, hpp.factorization_pow, h4 q hq (fun i hi => hall i (by omega)),
        Finsupp.single_apply, if_neg, zero_add]
      intro e
      exact hall n (by omega) (by rw [hp, e])
''')
lemma('pf_kpow', A + ', n:int, k:int', 'implies(pfok(A, n) and n >= 0 and k >= 1 and kpow(prodPE(A, n), k), forall(i, 0, n, A[i][1] % k == 0))', '''
rintro ⟨h, hn, hk, b, hb⟩ i hi0 hin
obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le hn
obtain ⟨i, rfl⟩ := Int.eq_ofNat_of_zero_le hi0
obtain ⟨M, h1, h2, h3, _⟩ := pf_val A n h n le_rfl
rw [h1] at hb
have hM : M = b.natAbs ^ k.toNat := by
  have := congrArg Int.natAbs hb
  rw [Int.natAbs_pow] at this
  simpa using this.symm
have h5 := h3 i (by exact_mod_cast hin)
rw [hM, Nat.factorization_pow] at h5
simp only [Finsupp.smul_apply, smul_eq_mul] at h5
have h6 := (h i hi0 hin).2.1
apply Int.emod_eq_zero_of_dvd
refine ⟨(b.natAbs.factorization (A i).1.toNat : ℤ), ?_⟩
have h7 : ((A i).2.toNat : ℤ) = (A i).2 := Int.toNat_of_nonneg (by omega)
have h8 : (k.toNat : ℤ) = k := Int.toNat_of_nonneg (by omega)
rw [← h7, ← h5]; push_cast; rw [h8]
''')
lemma('pf_gcd_one', A + ', E:arr[int], n:int, k:int', '''implies(n >= 1 and pfok(A, n) and k >= 2 and kpow(prodPE(A, n), k) and forall(i, 0, n, E[i] == A[i][1]),
  gcdA(E, n) % k == 0)''', '''
rintro ⟨hn, h, hk, hp, hE⟩
have := pf_kpow A n k ⟨h, by omega, by omega, hp⟩
apply Int.emod_eq_zero_of_dvd
simp only [S.gcdA]
apply Finset.dvd_gcd
intro i hi
rw [Finset.mem_range] at hi
rw [hE i (by omega) (by omega)]
exact Int.dvd_of_emod_eq_zero (this i (by omega) (by omega))
''')
lemma('gcdA_dvd', 'E:arr[int], n:int', 'implies(n >= 1 and E[0] >= 1, gcdA(E, n) >= 1 and forall(i, 0, n, E[i] % gcdA(E, n) == 0))', '''
rintro ⟨hn, h0⟩
simp only [S.gcdA]
have hd : ∀ i : ℤ, 0 ≤ i ∧ i < n → (Finset.range n.toNat).gcd (fun i : ℕ => E (i:ℤ)) ∣ E i := by
  rintro i ⟨a, b⟩
  obtain ⟨i, rfl⟩ := Int.eq_ofNat_of_zero_le a
  exact Finset.gcd_dvd (f := fun i : ℕ => E (i:ℤ)) (Finset.mem_range.2 (by omega))
refine ⟨?_, fun i hi hj => Int.emod_eq_zero_of_dvd (hd i ⟨hi, hj⟩)⟩
have h1 : 0 ≤ (Finset.range n.toNat).gcd (fun i : ℕ => E (i:ℤ)) := by
  rw [← Finset.normalize_gcd, ← Int.abs_eq_normalize]; exact abs_nonneg _
have h2 := hd 0 ⟨le_refl _, by omega⟩
rcases h1.lt_or_eq with h | h
· omega
· rw [← h] at h2; have := zero_dvd_iff.1 h2; omega
''')
lemma('base_notpow', A + ', E:arr[int], n:int, r:int, d:int', '''implies(n >= 1 and pfok(A, n) and forall(i, 0, n, E[i] == A[i][1]) and d == gcdA(E, n) and d >= 1 and powZ(r, d) == prodPE(A, n), not perfpow(r))''', '''
rintro ⟨hn, h, hE, hd, hd1, hr⟩ ⟨k, hk, b, hb⟩
have h1 : S.kpow (S.prodPE A n) (k * d) := by
  refine ⟨b, ?_⟩
  rw [← hr, S.powZ, ← hb, ← pow_mul]
  congr 1
  have e1 : (k.toNat : ℤ) = k := Int.toNat_of_nonneg (by omega)
  have e2 : (d.toNat : ℤ) = d := Int.toNat_of_nonneg (by omega)
  obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ k)
  obtain ⟨d, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ d)
  rw [← Nat.cast_mul, Int.toNat_natCast, Int.toNat_natCast, Int.toNat_natCast]
have h2 := pf_gcd_one A E n (k * d) ⟨hn, h, by nlinarith, h1, hE⟩
rw [← hd] at h2
have h3 := Int.le_of_dvd (by omega) (Int.dvd_of_emod_eq_zero h2)
nlinarith
''')
lemma('pf_div', 'e:int, d:int', 'implies(d >= 1 and e >= 0 and e % d == 0, (e // d) * d == e and e // d >= 0)', '''
rintro ⟨h1, h2, h3⟩
exact ⟨Int.ediv_mul_cancel (Int.dvd_of_emod_eq_zero h3), Int.ediv_nonneg h2 (by omega)⟩
''')
lemma('perfpow_def', 'n:int', 'implies(perfpow(n), existsT(int, k, k >= 2 and kpow(n, k)))', 'rintro ⟨k, h, b, hb⟩; exact ⟨k, h, b, hb⟩')
lemma('issq_intro', 'n:int, r:int', 'implies(r * r == n, issq(n))', 'intro h; exact ⟨r, h⟩')
lemma('sq_kpow', 'n:int', 'implies(issq(n), kpow(n, 2)) and implies(issq(n), n >= 0)', '''
exact ⟨fun ⟨r, h⟩ => ⟨r, by rw [← h]; simp [pow_two]⟩, fun ⟨r, h⟩ => by rw [← h]; exact mul_self_nonneg r⟩
''')
lemma('fact_pos', 'n:int', 'implies(n >= 0, factZ(n) >= 1 and factZ(n + 1) == (n + 1) * factZ(n))', '''
intro h
obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h
have : ((n:ℤ) + 1).toNat = n + 1 := by omega
simp only [S.factZ, this, Int.toNat_natCast, Nat.factorial_succ]
have := Nat.factorial_pos n
constructor
· omega
· push_cast; ring
''')
lemma('fact_gap', 'n:int, k:int', 'implies(k >= 2 and factZ(k - 1) > n and (k == 2 or factZ(k - 2) < n), forallT(int, m, implies(m >= 0, factZ(m) != n)))', '''
rintro ⟨hk, h1, h2⟩ m hm
simp only [S.factZ] at *
have mono : ∀ a b : ℤ, a ≤ b → (Nat.factorial a.toNat : ℤ) ≤ Nat.factorial b.toNat := by
  intro a b hab
  exact_mod_cast Nat.factorial_le (by omega)
rcases lt_or_ge m (k - 1) with h | h
· rcases h2 with h2 | h2
  · have e : m.toNat = 0 := by omega
    have e2 : (k - 1).toNat = 1 := by omega
    rw [e]; rw [e2] at h1
    simp at h1 ⊢
    omega
  · have := mono m (k - 2) (by omega); omega
· have := mono (k - 1) m h; omega
''')
