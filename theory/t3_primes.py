"""Primes: enumeration, counting, trial division, Miller-Rabin, Euler."""
from pyvc.theory import begin, fn, lemma, raw
begin('primes', ['arith'])
fn('isprime', 'int -> bool', 'fun n => 0 ≤ n ∧ Nat.Prime n.toNat')
fn('nthp', 'int -> int', 'fun k => (Nat.nth Nat.Prime k.toNat : ℤ)')
fn('pc', 'int -> int', 'fun n => (Nat.count Nat.Prime n.toNat : ℤ)')
fn('nextp', 'int -> int', 'fun n => (Nat.nth Nat.Prime (Nat.count Nat.Prime (n+1).toNat) : ℤ)')
raw('''
theorem isprime_iff (n : ℤ) : S.isprime n ↔ ∃ p : ℕ, n = p ∧ p.Prime := by
  constructor
  · rintro ⟨h, hp⟩; exact ⟨n.toNat, by omega, hp⟩
  · rintro ⟨p, rfl, hp⟩; exact ⟨by omega, by simpa using hp⟩
theorem isprime_nat (p : ℕ) : S.isprime (p:ℤ) ↔ p.Prime := by
  constructor
  · rintro ⟨_, hp⟩; simpa using hp
  · intro hp; exact ⟨by omega, by simpa using hp⟩
theorem isprime_int (n : ℤ) (h : 0 ≤ n) : S.isprime n ↔ Prime n := by
  obtain ⟨p, rfl⟩ := Int.eq_ofNat_of_zero_le h
  rw [isprime_nat, Nat.prime_iff_prime_int]
''')
lemma('prime_ge2', 'n:int', 'implies(isprime(n), n >= 2)', '''
rintro ⟨h, hp⟩
have := hp.two_le
omega
''', pats=['isprime(n)'])
lemma('prime_dvd', 'p:int, d:int', 'implies(isprime(p) and d >= 1 and p % d == 0, d == 1 or d == p)', '''
rintro ⟨hp, hd, hm⟩
obtain ⟨p, rfl, hp1⟩ := (isprime_iff p).1 hp
obtain ⟨d, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ d)
have : d ∣ p := by exact_mod_cast Int.dvd_of_emod_eq_zero hm
rcases (Nat.dvd_prime hp1).1 this with h | h
· left; exact_mod_cast h
· right; exact_mod_cast h
''')
lemma('notprime_dvd', 'n:int, d:int', 'implies(d >= 2 and n % d == 0 and d < n, not isprime(n))', '''
rintro ⟨hd, hm, hn⟩ hp
rcases prime_dvd n d ⟨hp, by omega, hm⟩ with h | h <;> omega
''')
lemma('prime_two', '', 'isprime(2) and isprime(3)', '''
constructor
· exact (isprime_nat 2).2 (by norm_num)
· exact (isprime_nat 3).2 (by norm_num)
''')
lemma('nthp_prime', 'k:int', 'implies(k >= 0, isprime(nthp(k)) and nthp(k) >= k + 2)', '''
intro h
refine ⟨(isprime_nat _).2 (Nat.prime_nth_prime _), ?_⟩
have := Nat.add_two_le_nth_prime k.toNat
simp only [S.nthp]; omega
''', pats=['nthp(k)'])
lemma('nthp_lt', 'i:int, j:int', 'implies(0 <= i and i < j, nthp(i) < nthp(j))', '''
rintro ⟨h, h2⟩
simp only [S.nthp]
have := Nat.nth_strictMono Nat.infinite_setOf_prime (show i.toNat < j.toNat by omega)
exact_mod_cast this
''')
lemma('nthp_pc', 'q:int', 'implies(isprime(q), pc(q) >= 0 and nthp(pc(q)) == q)', '''
intro h
obtain ⟨p, rfl, hp⟩ := (isprime_iff q).1 h
simp only [S.pc, S.nthp, Int.toNat_natCast]
refine ⟨by omega, ?_⟩
rw [Nat.nth_count hp]
''')
lemma('pc_iff', 'n:int, k:int', 'implies(n >= 0 and k >= 0, (nthp(k) < n) == (k < pc(n)))', '''
rintro ⟨h, hk⟩
obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h
obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le hk
simp only [S.pc, S.nthp, Int.toNat_natCast, Nat.cast_lt, eq_iff_iff]
constructor
· intro h
  by_contra hc
  have : Nat.nth Nat.Prime (Nat.count Nat.Prime n) ≤ Nat.nth Nat.Prime k := Nat.nth_monotone Nat.infinite_setOf_prime (show Nat.count Nat.Prime n ≤ k by omega)
  have h2 : n ≤ Nat.nth Nat.Prime (Nat.count Nat.Prime n) := Nat.le_nth_count Nat.infinite_setOf_prime n
  omega
· intro h
  exact Nat.nth_lt_of_lt_count h
''')
raw('''
theorem exists_small_factor (n : ℕ) (h : 2 ≤ n) (hn : ¬ n.Prime) : ∃ p : ℕ, p.Prime ∧ p ∣ n ∧ p * p ≤ n := by
  refine ⟨n.minFac, Nat.minFac_prime (by omega), Nat.minFac_dvd n, ?_⟩
  have := Nat.minFac_sq_le_self (by omega) hn
  nlinarith
''')
lemma('trial_done', 'n:int, k:int', 'implies(n >= 2 and k >= 0 and nthp(k) * nthp(k) > n and forall(j, 0, k, n % nthp(j) != 0), isprime(n))', '''
rintro ⟨hn, hk, hs, hj⟩
obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ n)
by_contra hp
rw [isprime_nat] at hp
obtain ⟨p, hp1, hp2, hp3⟩ := exists_small_factor n (by omega) hp
have h1 := nthp_pc p ((isprime_nat p).2 hp1)
have : S.pc (p:ℤ) < k := by
  by_contra hc
  have : S.nthp k ≤ S.nthp (S.pc p) := by
    rcases lt_or_eq_of_le (not_lt.1 hc) with h | h
    · exact le_of_lt (nthp_lt _ _ ⟨hk, h⟩)
    · rw [h]
  rw [h1.2] at this
  have h0 : (0:ℤ) ≤ S.nthp k := by simp [S.nthp]
  have : S.nthp k * S.nthp k ≤ (p:ℤ) * p := by nlinarith
  have : (p:ℤ) * p ≤ n := by exact_mod_cast hp3
  omega
apply hj _ h1.1 this
rw [h1.2]
exact Int.emod_eq_zero_of_dvd (by exact_mod_cast hp2)
''')
lemma('trial_found', 'n:int, k:int', 'implies(n >= 2 and k >= 0 and forall(j, 0, k, n % nthp(j) != 0), forall(q, 2, nthp(k), n % q != 0))', '''
rintro ⟨hn, hk, hj⟩ q hq1 hq2 hq
obtain ⟨q, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ q)
have hq3 : (q:ℤ) ∣ n := Int.dvd_of_emod_eq_zero hq
have hp : q.minFac.Prime := Nat.minFac_prime (by omega)
have hd : (q.minFac : ℤ) ∣ n := dvd_trans (by exact_mod_cast Nat.minFac_dvd q) hq3
have hle : q.minFac ≤ q := Nat.minFac_le (by omega)
have h1 := nthp_pc _ ((isprime_nat _).2 hp)
have : S.pc (q.minFac:ℤ) < k := by
  by_contra hc
  have : S.nthp k ≤ S.nthp (S.pc q.minFac) := by
    rcases lt_or_eq_of_le (not_lt.1 hc) with h | h
    · exact le_of_lt (nthp_lt _ _ ⟨hk, h⟩)
    · rw [h]
  rw [h1.2] at this
  omega
apply hj _ h1.1 this
rw [h1.2]
exact Int.emod_eq_zero_of_dvd hd
''')
lemma('least_div_prime', 'n:int, d:int', 'implies(d >= 2 and n % d == 0 and forall(q, 2, d, n % q != 0), isprime(d))', '''
rintro ⟨hd, hn, hq⟩
obtain ⟨d, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ d)
rw [isprime_nat]
by_contra hp
obtain ⟨p, hp1, hp2, hp3⟩ := exists_small_factor d (by omega) hp
have := hp1.two_le
refine hq p (by omega) ?_ ?_
· have : p < d := by nlinarith
  omega
· exact Int.emod_eq_zero_of_dvd (dvd_trans (by exact_mod_cast hp2) (Int.dvd_of_emod_eq_zero hn))
''')
lemma('sqrt_div_prime', 'n:int, d:int', 'implies(n >= 2 and d >= 1 and d * d > n and forall(q, 2, d, n % q != 0), isprime(n))', '''
rintro ⟨hn, hd0, hd, hq⟩
obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ n)
rw [isprime_nat]
by_contra hp
obtain ⟨p, hp1, hp2, hp3⟩ := exists_small_factor n (by omega) hp
have := hp1.two_le
refine hq p (by omega) ?_ ?_
· have : (p:ℤ) * p ≤ n := by exact_mod_cast hp3
  by_contra hc
  nlinarith
· exact Int.emod_eq_zero_of_dvd (by exact_mod_cast hp2)
''')
lemma('mod_trans', 'n:int, q:int, p:int', 'implies(q % p == 0 and n % q == 0, n % p == 0)', '''
rintro ⟨h1, h2⟩
exact Int.emod_eq_zero_of_dvd (dvd_trans (Int.dvd_of_emod_eq_zero h1) (Int.dvd_of_emod_eq_zero h2))
''')
lemma('fermat_little', 'n:int, a:int', 'implies(isprime(n) and a % n != 0, powZ(a, n - 1) % n == 1)', '''
rintro ⟨hp, ha⟩
obtain ⟨p, rfl, hp1⟩ := (isprime_iff n).1 hp
haveI := Fact.mk hp1
have h2 := hp1.two_le
have : ((a : ZMod p)) ≠ 0 := by
  intro h
  rw [ZMod.intCast_zmod_eq_zero_iff_dvd] at h
  exact ha (Int.emod_eq_zero_of_dvd h)
have h := ZMod.pow_card_sub_one_eq_one this
have e : ((p:ℤ) - 1).toNat = p - 1 := by omega
simp only [S.powZ, e]
have : ((a ^ (p-1) : ℤ) : ZMod p) = ((1:ℤ) : ZMod p) := by push_cast; exact h
rw [ZMod.intCast_eq_intCast_iff] at this
have := this.eq
rw [this]
exact Int.emod_eq_of_lt (by norm_num) (by omega)
''')
lemma('mr_start', 'a:int, s:int, t:int, n:int', 'implies(n >= 2 and s >= 0 and t >= 0, powZ(powZ(a, t) % n, powZ(2, s)) % n == powZ(a, powZ(2, s) * t) % n)', '''
rintro ⟨hn, hs, ht⟩
have h2 : (0:ℤ) < powZ' := by positivity
simp only [S.powZ]
obtain ⟨t, rfl⟩ := Int.eq_ofNat_of_zero_le ht
have e : ((2:ℤ) ^ s.toNat * (t:ℤ)).toNat = t * 2 ^ s.toNat := by
  have : ((2:ℤ) ^ s.toNat * (t:ℤ)) = ((t * 2 ^ s.toNat : ℕ) : ℤ) := by push_cast; ring
  rw [this, Int.toNat_natCast]
have e2 : ((2:ℤ) ^ s.toNat).toNat = 2 ^ s.toNat := by
  have : ((2:ℤ) ^ s.toNat) = ((2 ^ s.toNat : ℕ) : ℤ) := by push_cast; ring
  rw [this, Int.toNat_natCast]
rw [e, e2, Int.toNat_natCast, pow_mul]
exact (Int.ModEq.pow _ (Int.mod_modEq _ _))
'''.replace("have h2 : (0:ℤ) < powZ' := by positivity\n", ''))
lemma('mr_step', 'b:int, k:int, n:int', 'implies(n >= 2 and k >= 1, powZ(b * b % n, powZ(2, k - 1)) % n == powZ(b, powZ(2, k)) % n)', '''
rintro ⟨hn, hk⟩
obtain ⟨j, rfl⟩ : ∃ j : ℕ, k = j + 1 := ⟨(k-1).toNat, by omega⟩
have e1 : ((j:ℤ) + 1 - 1).toNat = j := by omega
have e2 : ((j:ℤ) + 1).toNat = j + 1 := by omega
simp only [S.powZ, e1, e2]
have e3 : ∀ i : ℕ, ((2:ℤ) ^ i).toNat = 2 ^ i := by
  intro i
  have : ((2:ℤ) ^ i) = ((2 ^ i : ℕ) : ℤ) := by push_cast; ring
  rw [this, Int.toNat_natCast]
rw [e3, e3]
have : b ^ 2 ^ (j+1) = (b * b) ^ 2 ^ j := by
  rw [← pow_two, ← pow_mul]; congr 1; rw [pow_succ]; ring
rw [this]
exact (Int.ModEq.pow _ (Int.mod_modEq _ _))
''')
lemma('mr_root', 'b:int, n:int', 'implies(isprime(n) and 0 <= b and b < n and (b * b) % n == 1, b == 1 or b == n - 1)', '''
rintro ⟨hp, h0, h1, h⟩
obtain ⟨p, rfl, hp1⟩ := (isprime_iff n).1 hp
have hp2 := hp1.two_le
have hd : (p:ℤ) ∣ (b - 1) * (b + 1) := by
  have : (p:ℤ) ∣ b * b - 1 := Int.dvd_of_emod_eq_zero (by
    rw [Int.sub_emod, h, Int.emod_eq_of_lt (by norm_num : (0:ℤ) ≤ 1) (by omega)]; simp)
  have e : (b-1)*(b+1) = b*b-1 := by ring
  rwa [e]
rcases (Nat.prime_iff_prime_int.1 hp1).dvd_or_dvd hd with h | h
· left
  rcases h with ⟨c, hc⟩
  have : c = 0 := by
    by_contra hne
    rcases lt_or_gt_of_ne hne with h | h <;> nlinarith
  subst this; linarith
· right
  rcases h with ⟨c, hc⟩
  have : c = 1 := by
    have : 0 < c := by by_contra hh; nlinarith
    by_contra hne
    have : 2 ≤ c := by omega
    nlinarith
  subst this; linarith
''')
lemma('nextp_spec', 'n:int', 'isprime(nextp(n)) and nextp(n) > n', '''
refine ⟨(isprime_nat _).2 (Nat.prime_nth_prime _), ?_⟩
have h2 : (n+1).toNat ≤ Nat.nth Nat.Prime (Nat.count Nat.Prime (n+1).toNat) := Nat.le_nth_count Nat.infinite_setOf_prime (n+1).toNat
simp only [S.nextp]
omega
''')
lemma('euler_criterion', 'a:int, p:int', 'implies(isprime(p) and p >= 3, powZ(a, (p - 1) // 2) % p == jac(a, p) % p)', '''
rintro ⟨hp, h3⟩
obtain ⟨p, rfl, hp1⟩ := (isprime_iff p).1 hp
haveI := Fact.mk hp1
have hodd := hp1.eq_two_or_odd
have e : (((p:ℤ) - 1) / 2).toNat = p / 2 := by omega
simp only [S.powZ, e, S.jac, Int.toNat_natCast]
rw [← jacobiSym.legendreSym.to_jacobiSym]
have := legendreSym.eq_pow p a
have h : ((a ^ (p/2) : ℤ) : ZMod p) = ((legendreSym p a : ℤ) : ZMod p) := by rw [this]; push_cast; rfl
rw [ZMod.intCast_eq_intCast_iff] at h
exact h.eq
''')
lemma('mod_self', 'n:int', 'n % n == 0', 'simp')
lemma('small_mod', 'a:int, n:int', 'implies(0 < a and a < n, a % n == a and a % n != 0)', '''
rintro ⟨h, h2⟩
rw [Int.emod_eq_of_lt (by omega) h2]; omega
''')
lemma('small_mod1', 'b:int, n:int', 'implies(0 <= b and b < n, b % n == b)', 'exact fun h => Int.emod_eq_of_lt h.1 h.2')
lemma('jac_prime_zero', 'a:int, p:int', 'implies(isprime(p) and a % p != 0, jac(a, p) != 0 and (jac(a, p) == 1 or jac(a, p) == -1))', '''
rintro ⟨hp, ha⟩
obtain ⟨p, rfl, hp1⟩ := (isprime_iff p).1 hp
haveI := Fact.mk hp1
have h0 : ((a : ℤ) : ZMod p) ≠ 0 := by
  intro h
  rw [ZMod.intCast_zmod_eq_zero_iff_dvd] at h
  exact ha (Int.emod_eq_zero_of_dvd h)
simp only [S.jac, Int.toNat_natCast]
rw [← jacobiSym.legendreSym.to_jacobiSym]
rcases legendreSym.eq_one_or_neg_one p h0 with h | h <;> rw [h] <;> norm_num
''')
lemma('wheel_step', 'n:int, d:int, e:int', '''implies(d > 5 and n % 2 != 0 and n % 3 != 0 and n % 5 != 0 and n % d != 0 and forall(q, 2, d, n % q != 0) and
  (d % 30 == 1 and e == d + 6 or d % 30 == 7 and e == d + 4 or d % 30 == 11 and e == d + 2 or d % 30 == 13 and e == d + 4 or
   d % 30 == 17 and e == d + 2 or d % 30 == 19 and e == d + 4 or d % 30 == 23 and e == d + 6 or d % 30 == 29 and e == d + 2),
  forall(q, 2, e, n % q != 0))''', '''
rintro ⟨hd, h2, h3, h5, hn, hq, hc⟩ q hq1 hq2 hm
by_cases h : q < d
· exact hq q hq1 h hm
by_cases h' : q = d
· subst h'; exact hn hm
have : q % 2 = 0 ∨ q % 3 = 0 ∨ q % 5 = 0 := by
  obtain ⟨k, rfl⟩ : ∃ k, q = d + k := ⟨q - d, by ring⟩
  have hk1 : 1 ≤ k := by omega
  have hk2 : k ≤ 5 := by omega
  clear hq hm hn h2 h3 h5
  interval_cases k <;> rcases hc with h | h | h | h | h | h | h | h <;> omega
rcases this with h | h | h
· exact h2 (mod_trans n q 2 ⟨h, hm⟩)
· exact h3 (mod_trans n q 3 ⟨h, hm⟩)
· exact h5 (mod_trans n q 5 ⟨h, hm⟩)
''')
fn('llS', 'int, int -> int', 'fun p k => LucasLehmer.sMod p.toNat k.toNat')
lemma('ll_zero', 'p:int', 'implies(p >= 3, powZ(2, p) >= 8 and llS(p, 0) == 4)', '''
intro h
have h8 : S.powZ 2 p ≥ 8 := by
  have := powZ_mono 2 3 p ⟨by norm_num, by norm_num, by omega⟩
  have e : S.powZ 2 3 = 8 := by simp [S.powZ]
  omega
refine ⟨h8, ?_⟩
simp only [S.llS, Int.toNat_zero, LucasLehmer.sMod]
simp only [S.powZ] at h8
exact Int.emod_eq_of_lt (by norm_num) (by omega)
''')
lemma('ll_succ', 'p:int, k:int', 'implies(k >= 0, llS(p, k + 1) == (llS(p, k) * llS(p, k) - 2) % (powZ(2, p) - 1))', '''
intro h
simp only [S.llS, S.powZ, toNat_succ' k h, LucasLehmer.sMod, pow_two]
''')
lemma('ll_test', 'p:int', 'implies(p >= 3, (llS(p, p - 2) == 0) == isprime(powZ(2, p) - 1))', '''
intro h
obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ p)
have e : ((n:ℤ) - 2).toNat = n - 2 := by omega
have e1 : (2:ℤ) ^ n - 1 = ((mersenne n : ℕ) : ℤ) := by
  have := Nat.one_le_two_pow (n := n)
  simp only [mersenne]; push_cast [Nat.cast_sub this]; ring
simp only [S.llS, S.powZ, Int.toNat_natCast, e]
rw [e1, isprime_nat, ← LucasLehmer.residue_eq_zero_iff_sMod_eq_zero n (by omega)]
exact ⟨fun h => lucas_lehmer_sufficiency n (by omega) h, fun h => lucas_lehmer_necessity n (by omega) h⟩
''')
fn('sprp', 'int, int -> bool', '''fun n a => ∃ s t : ℕ, n - 1 = 2 ^ s * (t:ℤ) ∧ t % 2 = 1 ∧
  (a ^ t % n = 1 ∨ ∃ r : ℕ, (r < s ∨ r = 0) ∧ a ^ (2 ^ r * t) % n = n - 1)''')
lemma('sprp_one', 'n:int, a:int, s:int, t:int', 'implies(s >= 0 and t >= 0 and n - 1 == powZ(2, s) * t and t % 2 == 1 and powZ(a, t) % n == 1, sprp(n, a))', '''
rintro ⟨hs, ht, h1, h2, h3⟩
exact ⟨s.toNat, t.toNat, by simpa [S.powZ, ht] using h1, by omega, Or.inl (by simpa [S.powZ] using h3)⟩
''')
lemma('sprp_r', 'n:int, a:int, s:int, t:int, r:int', '''implies(s >= 0 and t >= 0 and n - 1 == powZ(2, s) * t and t % 2 == 1 and r >= 0 and (r < s or r == 0) and
  powZ(a, powZ(2, r) * t) % n == n - 1, sprp(n, a))''', '''
rintro ⟨hs, ht, h1, h2, h3, h4, h5⟩
refine ⟨s.toNat, t.toNat, by simpa [S.powZ, ht] using h1, by omega, Or.inr ⟨r.toNat, by omega, ?_⟩⟩
have e : (S.powZ 2 r * t).toNat = 2 ^ r.toNat * t.toNat := by
  obtain ⟨t, rfl⟩ := Int.eq_ofNat_of_zero_le ht
  have : S.powZ 2 r * (t:ℤ) = ((2 ^ r.toNat * t : ℕ) : ℤ) := by simp [S.powZ]
  rw [this, Int.toNat_natCast, Int.toNat_natCast]
rw [← e]
exact h5
''')
lemma('sprp_sq', 'b:int, a:int, r:int, t:int, n:int', '''implies(n >= 2 and r >= 0 and t >= 0 and b == powZ(a, powZ(2, r) * t) % n,
  b * b % n == powZ(a, powZ(2, r + 1) * t) % n)''', '''
rintro ⟨hn, hr, ht, rfl⟩
obtain ⟨t, rfl⟩ := Int.eq_ofNat_of_zero_le ht
obtain ⟨r, rfl⟩ := Int.eq_ofNat_of_zero_le hr
have e1 : (S.powZ 2 (r:ℤ) * (t:ℤ)) = ((2 ^ r * t : ℕ) : ℤ) := by simp [S.powZ]
have e2 : (S.powZ 2 ((r:ℤ)+1) * (t:ℤ)) = ((2 ^ (r+1) * t : ℕ) : ℤ) := by
  have : ((r:ℤ)+1).toNat = r + 1 := by omega
  simp [S.powZ, this]
rw [e1, e2]
simp only [S.powZ, Int.toNat_natCast]
rw [← Int.mul_emod, ← pow_add]
congr 2
ring
''')
lemma('psw_bound', 'n:int', '''implies(4 <= n and n < 341550071728321 and forall(a, 2, min(n - 1, 20), sprp(n, a)), isprime(n))''', '',
      trusted='no composite below 341550071728321 is a strong pseudoprime to the first seven prime bases (Jaeschke 1993, published computation)')
lemma('pc_small', 'n:int', 'implies(n <= 2, pc(n) == 0)', '''
intro h
have : n.toNat ≤ 2 := by omega
simp only [S.pc]
have h2 : Nat.count Nat.Prime n.toNat ≤ Nat.count Nat.Prime 2 := Nat.count_monotone _ this
have h3 : Nat.count Nat.Prime 2 = 0 := by simp [Nat.count_succ]; decide
omega
''')
