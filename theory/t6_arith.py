"""Arithmetic functions over prime factorizations, factorials."""
from pyvc.theory import begin, fn, lemma, raw
begin('arithf', ['factor', 'arith'])
A = 'A:arr[tuple[int,int]]'
fn('pfok', 'arr[tuple[int,int]], int -> bool', '''fun A n => ∀ i : ℤ, 0 ≤ i → i < n → S.isprime (A i).1 ∧ 1 ≤ (A i).2 ∧ ∀ j : ℤ, 0 ≤ j → j < i → (A j).1 ≠ (A i).1''')
fn('phi', 'int -> int', 'fun n => (Nat.totient n.toNat : ℤ)')
fn('tau', 'int -> int', 'fun n => (ArithmeticFunction.sigma 0 n.toNat : ℤ)')
fn('sig', 'int, int -> int', 'fun k n => (ArithmeticFunction.sigma k.toNat n.toNat : ℤ)')
fn('mu', 'int -> int', 'fun n => ArithmeticFunction.moebius n.toNat')
fn('carml', 'int -> int', 'fun n => (ArithmeticFunction.carmichael n.toNat : ℤ)')
fn('sqfree', 'int -> bool', 'fun n => Squarefree n.toNat')
lemma('pfok_intro', A + ', n:int', '''implies(forall(i, 0, n, isprime(A[i][0]) and A[i][1] >= 1) and forall2(i, j, 0 <= i and i < j and j < n, A[i][0] != A[j][0], A[i], A[j]), pfok(A, n))''', '''
rintro ⟨h1, h2⟩ i hi hn
exact ⟨(h1 i hi hn).1, (h1 i hi hn).2, fun j hj hji => h2 j i ⟨hj, hji, hn⟩⟩
''')
lemma('pfok_at', A + ', n:int, i:int', 'implies(pfok(A, n) and 0 <= i and i < n, isprime(A[i][0]) and A[i][1] >= 1 and A[i][0] >= 2)', '''
rintro ⟨h, h0, hn⟩
exact ⟨(h i h0 hn).1, (h i h0 hn).2.1, prime_ge2 _ (h i h0 hn).1⟩
''')
raw('''
theorem pf_split (A : ℤ → ℤ × ℤ) (n : ℕ) (m : ℤ) (hm : (n:ℤ) < m) (h : S.pfok A m) :
    ∃ (M p e : ℕ), S.prodPE A n = M ∧ 0 < M ∧ (A n).1 = p ∧ (A n).2 = e ∧ p.Prime ∧ 1 ≤ e ∧ Nat.Coprime M (p ^ e) ∧
      S.prodPE A ((n:ℤ) + 1) = ((M * p ^ e : ℕ) : ℤ) := by
  have pos : ∀ k : ℕ, (k:ℤ) ≤ m → ∃ M : ℕ, S.prodPE A k = M ∧ 0 < M := by
    intro k hk
    induction k with
    | zero => exact ⟨1, by simp [S.prodPE], by norm_num⟩
    | succ k ih =>
      obtain ⟨M, h1, h2⟩ := ih (by push_cast at hk; omega)
      obtain ⟨p, hp, hpp⟩ := (isprime_iff _).1 (h k (by omega) (by push_cast at hk; omega)).1
      refine ⟨M * p ^ (A k).2.toNat, ?_, Nat.mul_pos h2 (Nat.pow_pos hpp.pos)⟩
      push_cast
      rw [prodPE_succ A k (by omega), h1, hp, S.powZ]
  obtain ⟨M, h1, h2⟩ := pos n (by omega)
  obtain ⟨hp0, he, hd⟩ := h n (by omega) hm
  obtain ⟨p, hp, hpp⟩ := (isprime_iff _).1 hp0
  refine ⟨M, p, (A n).2.toNat, h1, h2, hp, by omega, hpp, by omega, ?_, ?_⟩
  · apply Nat.Coprime.pow_right
    rw [Nat.coprime_comm, Nat.Prime.coprime_iff_not_dvd hpp]
    intro hdv
    obtain ⟨i, hi0, hin, hi⟩ := prodPE_prime A n p ⟨by omega, (isprime_nat p).2 hpp, by
      rw [h1]; exact Int.emod_eq_zero_of_dvd (by exact_mod_cast hdv)⟩
    obtain ⟨q, hq, hqq⟩ := (isprime_iff _).1 (h i hi0 (by omega)).1
    have hne := hd i hi0 hin
    rw [hq] at hi hne
    rw [hp] at hne
    have : p ∣ q := by exact_mod_cast Int.dvd_of_emod_eq_zero hi
    rcases (Nat.dvd_prime hqq).1 this with h3 | h3
    · exact hpp.one_lt.ne' h3
    · exact hne (by rw [h3])
  · rw [prodPE_succ A n (by omega), h1, hp, S.powZ]; push_cast; rfl
''')
SPLIT = '''
rintro ⟨hok, h0, hn⟩
obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h0
obtain ⟨M, p, e, h1, h2, h3, h4, h5, h6, h7, h8⟩ := pf_split A n m hn hok
'''
HY = A + ', m:int, n:int'
lemma('prodPE_pos', HY, 'implies(pfok(A, m) and 0 <= n and n < m, prodPE(A, n) >= 1 and prodPE(A, n + 1) >= 1)', SPLIT + '''
rw [h1, h8]
exact ⟨by exact_mod_cast h2, by exact_mod_cast Nat.mul_pos h2 (Nat.pow_pos h5.pos)⟩
''')
lemma('phi_step', HY, '''implies(pfok(A, m) and 0 <= n and n < m,
  phi(prodPE(A, n + 1)) == phi(prodPE(A, n)) * (powZ(A[n][0], A[n][1] - 1) * (A[n][0] - 1)))''', SPLIT + '''
rw [h8, h1, h3, h4]
simp only [S.phi, S.powZ, Int.toNat_natCast]
rw [Nat.totient_mul h7, Nat.totient_prime_pow h5 (by omega)]
push_cast [h5.one_le]
rw [show ((e:ℤ) - 1).toNat = e - 1 by omega]
''')
lemma('tau_step', HY, '''implies(pfok(A, m) and 0 <= n and n < m, tau(prodPE(A, n + 1)) == tau(prodPE(A, n)) * (A[n][1] + 1))''', SPLIT + '''
rw [h8, h1, h4]
simp only [S.tau, Int.toNat_natCast]
rw [ArithmeticFunction.isMultiplicative_sigma.map_mul_of_coprime h7, ArithmeticFunction.sigma_zero_apply_prime_pow h5]
push_cast; rfl
''')
lemma('sig_step', HY + ', k:int', '''implies(pfok(A, m) and 0 <= n and n < m and k >= 1, powZ(powZ(A[n][0], k), A[n][1] + 1) >= 1 and powZ(A[n][0], k) >= 2 and
  sig(k, prodPE(A, n + 1)) == sig(k, prodPE(A, n)) * ((powZ(powZ(A[n][0], k), A[n][1] + 1) - 1) // (powZ(A[n][0], k) - 1)))''', '''
rintro ⟨hok, h0, hn, hk⟩
obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h0
obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ k)
obtain ⟨M, p, e, h1, h2, h3, h4, h5, h6, h7, h8⟩ := pf_split A n m hn hok
rw [h8, h1, h3, h4]
have hp2 : 2 ≤ p ^ k := le_trans h5.two_le (Nat.le_self_pow (by omega) p)
simp only [S.sig, S.powZ, Int.toNat_natCast]
rw [show ((e:ℤ) + 1).toNat = e + 1 by omega]
have hp2' : (2:ℤ) ≤ (p:ℤ) ^ k := by exact_mod_cast hp2
refine ⟨Int.add_one_le_iff.2 (pow_pos (by omega) _), hp2', ?_⟩
rw [ArithmeticFunction.isMultiplicative_sigma.map_mul_of_coprime h7, ArithmeticFunction.sigma_apply_prime_pow h5]
push_cast
congr 1
have hg := geom_sum_mul ((p:ℤ) ^ k) (e + 1)
rw [← hg, Int.mul_ediv_cancel _ (by omega)]
apply Finset.sum_congr rfl
intro j _
rw [← pow_mul, mul_comm]
''')
lemma('mu_step', HY, '''implies(pfok(A, m) and 0 <= n and n < m, mu(prodPE(A, n + 1)) == mu(prodPE(A, n)) * ite(A[n][1] == 1, -1, 0) and
  iff(sqfree(prodPE(A, n + 1)), sqfree(prodPE(A, n)) and A[n][1] == 1))''', SPLIT + '''
rw [h8, h1, h4]
simp only [S.mu, S.sqfree, Int.toNat_natCast]
rw [ArithmeticFunction.isMultiplicative_moebius.map_mul_of_coprime h7, ArithmeticFunction.moebius_apply_prime_pow h5 (by omega),
  Nat.squarefree_mul h7, Nat.squarefree_pow_iff h5.ne_one (by omega)]
refine ⟨?_, ?_⟩
· by_cases h : e = 1
  · simp [h]
  · rw [if_neg h, if_neg (by exact_mod_cast h)]
· constructor
  · rintro ⟨a, b, c⟩; exact ⟨a, by exact_mod_cast c⟩
  · rintro ⟨a, c⟩; exact ⟨a, h5.prime.squarefree, by exact_mod_cast c⟩
''')
lemma('arithf_one', '', 'phi(1) == 1 and tau(1) == 1 and mu(1) == 1 and carml(1) == 1 and sqfree(1) and forallT(int, k, sig(k, 1) == 1, sig(k, 1))', '''
refine ⟨by simp [S.phi], by simp [S.tau], by simp [S.mu], ?_, by simp [S.sqfree], fun k => by simp [S.sig]⟩
have h : ArithmeticFunction.carmichael 1 = 1 := by
  have := ArithmeticFunction.carmichael_dvd_totient 1
  simpa using this
simp [S.carml, h]
''')
lemma('phi_pos', 'n:int', 'implies(n >= 1, phi(n) >= 1 and phi(n) <= n)', '''
intro h
obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ n)
simp only [S.phi, Int.toNat_natCast]
have := Nat.totient_pos.2 (by omega : 0 < n)
have := Nat.totient_le n
omega
''')
lemma('sig_zero', 'n:int', 'sig(0, n) == tau(n)', 'simp [S.sig, S.tau]')

lemma('carml_list', A + ', n:int, T:arr[int]', '''implies(pfok(A, n) and n >= 0 and forall(i, 0, n, T[i] ==
  ite(A[i][0] != 2, powZ(A[i][0], A[i][1] - 1) * (A[i][0] - 1), ite(A[i][1] <= 2, powZ(2, A[i][1] - 1), powZ(2, A[i][1] - 2)))),
  carml(prodPE(A, n)) == lcmA(T, n) and forall(i, 0, n, T[i] >= 1) and implies(n == 1, lcmA(T, n) == T[0]))''', '''
rintro ⟨hok, h0, hT⟩
have hterm : ∀ k : ℕ, (k:ℤ) < n → ∀ p e : ℕ, (A k).1 = p → (A k).2 = e → p.Prime → 1 ≤ e →
    T k = (ArithmeticFunction.carmichael (p ^ e) : ℤ) := by
  intro k hk p e hp he hpp h1
  rw [hT k (by omega) hk, hp, he]
  simp only [S.powZ]
  by_cases h2 : p = 2
  · subst h2
    rw [if_neg (by simp)]
    by_cases h3 : e ≤ 2
    · rw [if_pos (by exact_mod_cast h3), ArithmeticFunction.carmichael_two_pow_of_le_two h3, show ((e:ℤ) - 1).toNat = e - 1 by omega]
      push_cast; rfl
    · rw [if_neg (by exact_mod_cast h3), ArithmeticFunction.carmichael_two_pow_of_ne_two (by omega), show ((e:ℤ) - 2).toNat = e - 2 by omega]
      push_cast; rfl
  · rw [if_pos (by exact_mod_cast h2), ArithmeticFunction.carmichael_pow_of_prime_ne_two e hpp h2, Nat.totient_prime_pow hpp (by omega),
      show ((e:ℤ) - 1).toNat = e - 1 by omega]
    push_cast [hpp.one_le]; rfl
have hpos : ∀ k : ℕ, (k:ℤ) < n → T k ≥ 1 := by
  intro k hk
  obtain ⟨M, p, e, h1, h2, h3, h4, h5, h6, h7, h8⟩ := pf_split A k n hk hok
  rw [hterm k hk p e h3 h4 h5 h6]
  have : 0 < ArithmeticFunction.carmichael (p ^ e) := by
    rw [ArithmeticFunction.carmichael_eq_exponent (by exact (Nat.pow_pos h5.pos).ne')]
    haveI : NeZero (p ^ e) := ⟨(Nat.pow_pos h5.pos).ne'⟩
    exact Monoid.exponent_pos_of_exists _ (Fintype.card_pos) (fun g => pow_card_eq_one)
  omega
refine ⟨?_, ?_, ?_⟩
· obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h0
  have key : ∀ k : ℕ, k ≤ n → S.carml (S.prodPE A k) = S.lcmA T k := by
    intro k hk
    induction k with
    | zero =>
      have := arithf_one
      simp only [Int.natCast_zero, prodPE_zero, lcmA_zero]
      exact this.2.2.2.1
    | succ k ih =>
      obtain ⟨M, p, e, h1, h2, h3, h4, h5, h6, h7, h8⟩ := pf_split A k n (by omega) hok
      have ih' := ih (by omega)
      push_cast
      rw [h8, lcmA_succ T k (by omega), ← ih', h1, hterm k (by omega) p e h3 h4 h5 h6]
      simp only [S.carml, S.lcmZ, Int.toNat_natCast]
      rw [ArithmeticFunction.carmichael_mul h7]
      simp [Int.lcm]
  exact key n (le_refl _)
· intro i hi hn
  obtain ⟨i, rfl⟩ := Int.eq_ofNat_of_zero_le hi
  exact hpos i hn
· intro h
  subst h
  have := lcmA_succ T 0 (by omega)
  simp only [lcmA_zero, lcm_one_left] at this
  rw [show (1:ℤ) = 0 + 1 by ring, this, abs_of_nonneg]
  have := hpos 0 (by norm_num)
  simp at this
  omega
''')
# factorials from the odd parts
fn('factZ', 'int -> int', 'fun n => (Nat.factorial n.toNat : ℤ)')
fn('oddf', 'int -> int', 'fun n => ∏ j ∈ (Finset.range (n.toNat + 1)).filter (fun j => j % 2 = 1), (j:ℤ)')
fn('ofp', 'int, int -> int', 'fun n k => ∏ i ∈ Finset.range k.toNat, S.oddf (n / 2 ^ i)')
raw('''
theorem oddf_nat (n : ℕ) : S.oddf ((n:ℤ) + 1) = if (n + 1) % 2 = 1 then S.oddf n * ((n:ℤ) + 1) else S.oddf n := by
  simp only [S.oddf, show ((n:ℤ) + 1).toNat = n + 1 by omega, Int.toNat_natCast]
  rw [Finset.range_add_one (n := n + 1), Finset.filter_insert]
  split
  · rw [Finset.prod_insert (by simp)]; push_cast; ring
  · rfl
theorem fact_half (n : ℕ) : (n.factorial : ℤ) = 2 ^ (n / 2) * ((n / 2).factorial : ℤ) * S.oddf n := by
  induction n with
  | zero => simp [S.oddf, Finset.prod_filter]
  | succ n ih =>
    rw [Nat.factorial_succ]
    push_cast
    rw [ih, oddf_nat]
    rcases Nat.mod_two_eq_zero_or_one n with h | h
    · rw [if_pos (by omega), show (n + 1) / 2 = n / 2 by omega]; ring
    · rw [if_neg (by omega), show (n + 1) / 2 = n / 2 + 1 by omega, Nat.factorial_succ]
      have : ((n:ℤ) + 1) = 2 * ((n / 2 : ℕ) + 1) := by omega
      push_cast at *
      rw [this, pow_succ]; ring
theorem popc_half (n : ℕ) : S.popc n = S.popc ((n / 2 : ℕ) : ℤ) + (n % 2 : ℕ) := by
  simp only [S.popc, Int.natAbs_natCast]
  rcases Nat.eq_zero_or_pos n with h | h
  · subst h; simp
  · rw [Nat.digits_def' (by norm_num) h]; simp; ring
theorem popc_le (n : ℕ) : S.popc n ≤ n ∧ 0 ≤ S.popc n := by
  induction n using Nat.strong_induction_on with
  | _ n ih =>
    rcases Nat.eq_zero_or_pos n with h | h
    · subst h; simp [S.popc]
    · have := ih (n / 2) (by omega)
      rw [popc_half n]
      push_cast at *
      omega
theorem fact_ofp (k : ℕ) : ∀ n : ℕ, n < 2 ^ k → (n.factorial : ℤ) = 2 ^ ((n:ℤ) - S.popc n).toNat * S.ofp n k := by
  induction k with
  | zero => intro n hn; have : n = 0 := by simpa using hn
            subst this; simp [S.ofp, S.popc]
  | succ k ih =>
    intro n hn
    have h2 := ih (n / 2) (by rw [pow_succ] at hn; omega)
    have h3 := popc_le (n / 2)
    rw [fact_half, h2]
    have e : S.ofp n ((k + 1 : ℕ) : ℤ) = S.oddf n * S.ofp ((n / 2 : ℕ) : ℤ) k := by
      simp only [S.ofp, Int.toNat_natCast, Finset.prod_range_succ']
      rw [mul_comm]
      congr 1
      · simp
      · apply Finset.prod_congr rfl
        intro i _
        congr 1
        rw [pow_succ', Int.natCast_div, Int.ediv_ediv_of_nonneg (by norm_num)]; rfl
    rw [e, popc_half n]
    have e2 : ((n:ℤ) - (S.popc ((n / 2 : ℕ) : ℤ) + ((n % 2 : ℕ) : ℤ))).toNat = n / 2 + (((n / 2 : ℕ) : ℤ) - S.popc ((n / 2 : ℕ) : ℤ)).toNat := by
      omega
    rw [e2, pow_add]; ring
''')
lemma('oddf_step', 'j:int', 'implies(j >= 1 and j % 2 == 1, oddf(j) == j * oddf(j - 1) and oddf(j + 1) == oddf(j))', '''
rintro ⟨h1, h2⟩
obtain ⟨j, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ j)
obtain ⟨j, rfl⟩ : ∃ i, j = i + 1 := ⟨j - 1, by omega⟩
have e1 := oddf_nat j
have e2 := oddf_nat (j + 1)
rw [if_pos (by omega)] at e1
rw [if_neg (by omega)] at e2
push_cast at *
refine ⟨?_, e2⟩
rw [e1]
simp only [add_sub_cancel_right]
ring
''')
lemma('oddf_pos', 'j:int', 'oddf(j) >= 1', '''
simp only [S.oddf]
suffices this : (0:ℤ) < ∏ j ∈ (Finset.range (j.toNat + 1)).filter (fun j => j % 2 = 1), (j:ℤ) by
  exact Int.add_one_le_iff.2 this
apply Finset.prod_pos
intro i hi
simp only [Finset.mem_filter] at hi
omega
''')
lemma('ofp_zero', 'n:int', 'ofp(n, 0) == 1', 'simp [S.ofp]')
lemma('ofp_step', 'n:int, k:int, prod:int, q:int', '''implies(k >= 1 and q * oddf(n // powZ(2, k)) == oddf(n // powZ(2, k - 1)) and
   prod * powZ(oddf(n // powZ(2, k - 1)), k - 1) == ofp(n, k - 1), prod * powZ(q, k) * powZ(oddf(n // powZ(2, k)), k) == ofp(n, k))''', '''
rintro ⟨hk, hq, hp⟩
obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ k)
obtain ⟨k, rfl⟩ : ∃ i, k = i + 1 := ⟨k - 1, by omega⟩
simp only [S.ofp, S.powZ, Int.toNat_natCast, Finset.prod_range_succ, show (((k + 1 : ℕ) : ℤ) - 1).toNat = k by omega] at *
rw [← hp, mul_assoc, ← mul_pow, hq, pow_succ]; ring
''')
lemma('fact_done', 'n:int, k:int', '''implies(n >= 1 and k >= 0 and n // powZ(2, k) == 1, factZ(n) == ofp(n, k) * powZ(2, n - popc(n)) and n - popc(n) >= 0 and oddf(1) == 1)''', '''
rintro ⟨hn, hk, h⟩
obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ n)
obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le hk
have o1 : S.oddf 1 = 1 := by decide
refine ⟨?_, by have := popc_le n; omega, o1⟩
simp only [S.powZ, Int.toNat_natCast] at h
have hlt : n < 2 ^ (k + 1) := by
  have h2 : (0:ℤ) < 2 ^ k := by positivity
  have := Int.lt_ediv_add_one_mul_self (n:ℤ) h2
  rw [h] at this
  rw [pow_succ]; zify; linarith
have e := fact_ofp (k + 1) n hlt
simp only [S.factZ, Int.toNat_natCast, S.powZ]
rw [e]
have : S.ofp n ((k + 1 : ℕ) : ℤ) = S.ofp n k := by
  simp only [S.ofp, Int.toNat_natCast, Finset.prod_range_succ, h, o1, mul_one]
rw [this, mul_comm]
''')
lemma('bitlen_shift', 'n:int', '''implies(n >= 1, n // powZ(2, bitlen(n) - 1) == 1 and bitlen(n) >= 1 and
  forall(k, 0, bitlen(n), powZ(2, k) >= 1 and n // powZ(2, k) >= 1, powZ(2, k)) and
  forall(k, 1, bitlen(n), n // powZ(2, k) == (n // powZ(2, k - 1)) // 2, powZ(2, k)))''', '''
intro h
have hb := bitlen_bounds n h
have hpos : ∀ k : ℤ, 0 < S.powZ 2 k := fun k => by simp only [S.powZ]; positivity
refine ⟨?_, hb.1, ?_, ?_⟩
· have h2 : S.powZ 2 (S.bitlen n) = 2 * S.powZ 2 (S.bitlen n - 1) := by
    have := powZ_succ 2 (S.bitlen n - 1) (by omega)
    rw [← this]; congr 1; ring
  have := hpos (S.bitlen n - 1)
  have a := (Int.le_ediv_iff_mul_le this (a := 1) (b := n)).2 (by omega)
  have b := Int.ediv_lt_of_lt_mul this (show n < 2 * S.powZ 2 (S.bitlen n - 1) by omega)
  omega
· intro k hk hkb
  refine ⟨hpos k, ?_⟩
  have := powZ_mono 2 k (S.bitlen n - 1) ⟨by norm_num, hk, by omega⟩
  exact (Int.le_ediv_iff_mul_le (hpos k)).2 (by omega)
· intro k hk hkb
  have := powZ_succ 2 (k - 1) (by omega)
  rw [show k - 1 + 1 = k by ring] at this
  rw [this, mul_comm, Int.ediv_ediv_of_nonneg (hpos _).le]
''')
fn('primorialZ', 'int -> int', 'fun n => ∏ i ∈ Finset.range n.toNat, S.nthp (i:ℤ)')
lemma('primorial_zero', '', 'primorialZ(0) == 1', 'simp [S.primorialZ]')
lemma('primorial_succ', 'n:int', 'implies(n >= 0, primorialZ(n + 1) == primorialZ(n) * nthp(n))', '''
intro h
simp only [S.primorialZ, toNat_succ' n h, Finset.prod_range_succ, cast_toNat' n h]
''')
lemma('sqfree_all', A + ', n:int', '''implies(pfok(A, n) and n >= 0, iff(sqfree(prodPE(A, n)), forall(i, 0, n, A[i][1] == 1)) and
  mu(prodPE(A, n)) == ite(forall(i, 0, n, A[i][1] == 1), powZ(-1, n), 0))''', '''
rintro ⟨hok, h0⟩
obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h0
have key : ∀ k : ℕ, k ≤ n → (S.sqfree (S.prodPE A k) ↔ ∀ i : ℤ, 0 ≤ i → i < k → (A i).2 = 1) ∧
    ((∀ i : ℤ, 0 ≤ i → i < k → (A i).2 = 1) → S.mu (S.prodPE A k) = S.powZ (-1) k) ∧
    ((¬ ∀ i : ℤ, 0 ≤ i → i < k → (A i).2 = 1) → S.mu (S.prodPE A k) = 0) := by
  intro k hk
  induction k with
  | zero =>
    have := arithf_one
    simp only [Int.natCast_zero, prodPE_zero, powZ_zero]
    exact ⟨⟨fun _ i h1 h2 => by omega, fun _ => this.2.2.2.2.1⟩, fun _ => this.2.2.1, fun h => absurd (fun i h1 h2 => by omega) h⟩
  | succ k ih =>
    obtain ⟨i1, i2, i3⟩ := ih (by omega)
    obtain ⟨s1, s2⟩ := mu_step A n k ⟨hok, by omega, by omega⟩
    push_cast
    have hall : (∀ i : ℤ, 0 ≤ i → i < (k:ℤ) + 1 → (A i).2 = 1) ↔ (∀ i : ℤ, 0 ≤ i → i < k → (A i).2 = 1) ∧ (A k).2 = 1 := by
      constructor
      · intro h; exact ⟨fun i a b => h i a (by omega), h k (by omega) (by omega)⟩
      · rintro ⟨h, h2⟩ i a b
        rcases lt_or_eq_of_le (show i ≤ k by omega) with c | c
        · exact h i a c
        · rw [c]; exact h2
    refine ⟨?_, ?_, ?_⟩
    · rw [s2, hall, i1]
    · intro h
      rw [hall] at h
      rw [s1, i2 h.1, if_pos h.2]
      have := powZ_succ (-1) k (by omega)
      rw [this]; ring
    · intro h
      rw [hall, not_and_or] at h
      rw [s1]
      rcases h with h | h
      · rw [i3 h, zero_mul]
      · rw [if_neg h, mul_zero]
have := key n (le_refl _)
refine ⟨this.1, ?_⟩
split
· rename_i h; exact this.2.1 h
· rename_i h; exact this.2.2 h
''')
lemma('fact_small', '', 'factZ(0) == 1 and factZ(1) == 1', 'exact ⟨by simp [S.factZ], by simp [S.factZ]⟩')
