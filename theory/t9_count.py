"""Counting and summing primes by the Lucy-Hedgehog recurrence."""
from pyvc.theory import begin, fn, lemma, raw
begin('count', ['primes'])
raw('''
def lset (v k : ℤ) : Finset ℕ := (Finset.Icc 2 v.toNat).filter (fun m => m.Prime ∨ k < (m.minFac : ℤ))
def lG (w : ℕ → ℤ) (v k : ℤ) : ℤ := ∑ m ∈ lset v k, w m
theorem lset_step (v p : ℤ) (hp : Nat.Prime p.toNat) (h0 : 0 ≤ p) (hv : p * p ≤ v) :
    lset v (p - 1) = lset v p ∪ (lset (v / p) (p - 1) \\ lset (p - 1) (p - 1)).image (fun q => p.toNat * q) ∧
    Disjoint (lset v p) ((lset (v / p) (p - 1) \\ lset (p - 1) (p - 1)).image (fun q => p.toNat * q)) := by
  obtain ⟨P, rfl⟩ := Int.eq_ofNat_of_zero_le h0
  obtain ⟨V, rfl⟩ := Int.eq_ofNat_of_zero_le (by nlinarith : 0 ≤ v)
  simp only [Int.toNat_natCast] at *
  have hP2 := hp.two_le
  have hVP : ((V:ℤ) / (P:ℤ)).toNat = V / P := by
    have : ((V:ℤ) / (P:ℤ)) = ((V / P : ℕ) : ℤ) := by push_cast; rfl
    rw [this]; exact Int.toNat_natCast _
  have key : ∀ q : ℕ, q ∈ lset ((V:ℤ) / P) (P - 1) \\ lset (P - 1) (P - 1) ↔ P ≤ q ∧ q ≤ V / P ∧ P ≤ q.minFac := by
    intro q
    simp only [lset, Finset.mem_sdiff, Finset.mem_filter, Finset.mem_Icc, hVP]
    constructor
    · rintro ⟨⟨⟨a, b⟩, c⟩, d⟩
      have hq : P ≤ q := by
        by_contra hlt
        push_neg at hlt
        exact d ⟨⟨a, by omega⟩, c⟩
      refine ⟨hq, b, ?_⟩
      rcases c with c | c
      · rw [c.minFac_eq]; exact hq
      · omega
    · rintro ⟨a, b, c⟩
      refine ⟨⟨⟨by omega, b⟩, Or.inr (by omega)⟩, ?_⟩
      rintro ⟨⟨_, d⟩, _⟩
      omega
  constructor
  · ext m
    simp only [Finset.mem_union, Finset.mem_image, key]
    simp only [lset, Finset.mem_filter, Finset.mem_Icc, Int.toNat_natCast]
    constructor
    · rintro ⟨⟨a, b⟩, c⟩
      by_cases hm : m.Prime
      · exact Or.inl ⟨⟨a, b⟩, Or.inl hm⟩
      · have hc : P ≤ m.minFac := by
          rcases c with c | c
          · exact absurd c hm
          · omega
        by_cases he : m.minFac = P
        · right
          obtain ⟨q, hq⟩ : P ∣ m := he ▸ Nat.minFac_dvd m
          refine ⟨q, ⟨?_, ?_, ?_⟩, hq.symm⟩
          · have h1 : 1 < q := by
              rcases Nat.lt_or_ge 1 q with h | h
              · exact h
              · interval_cases q
                · omega
                · exact absurd (by rw [hq]; simpa using hp) hm
            have := Nat.minFac_le_of_dvd h1 (Dvd.intro_left P hq.symm)
            omega
          · rw [Nat.le_div_iff_mul_le (by omega)]; rw [mul_comm]; omega
          · have h1 : q ≠ 1 := by
              rintro rfl
              exact hm (by rw [hq]; simpa using hp)
            have := Nat.minFac_le_of_dvd (Nat.minFac_prime h1).two_le ((Nat.minFac_dvd q).trans (Dvd.intro_left P hq.symm))
            omega
        · exact Or.inl ⟨⟨a, b⟩, Or.inr (by omega)⟩
    · rintro (⟨⟨a, b⟩, c⟩ | ⟨q, ⟨a, b, c⟩, rfl⟩)
      · exact ⟨⟨a, b⟩, c.imp id (fun h => by omega)⟩
      · refine ⟨⟨?_, ?_⟩, Or.inr ?_⟩
        · nlinarith
        · rw [mul_comm]; exact (Nat.le_div_iff_mul_le (by omega)).1 b
        · have h1 : P * q ≠ 1 := by intro h; have := Nat.eq_one_of_mul_eq_one_right h; omega
          rcases (Nat.Prime.dvd_mul (Nat.minFac_prime h1)).1 (Nat.minFac_dvd (P * q)) with h | h
          · have := (Nat.prime_dvd_prime_iff_eq (Nat.minFac_prime h1) hp).1 h
            omega
          · have := Nat.minFac_le_of_dvd (Nat.minFac_prime h1).two_le h
            omega
  · rw [Finset.disjoint_left]
    intro m hm hm2
    simp only [Finset.mem_image, key] at hm2
    obtain ⟨q, ⟨a, b, c⟩, rfl⟩ := hm2
    simp only [lset, Finset.mem_filter] at hm
    rcases hm.2 with h | h
    · rcases (Nat.prime_mul_iff.1 h) with ⟨_, h⟩ | ⟨_, h⟩ <;> omega
    · have := Nat.minFac_le_of_dvd hp.two_le (Dvd.intro q rfl : P ∣ P * q)
      omega

theorem lG_step (w : ℕ → ℤ) (hw : ∀ a b, w (a * b) = w a * w b) (v p : ℤ) (hp : Nat.Prime p.toNat) (h0 : 0 ≤ p) (hv : p * p ≤ v) :
    lG w v p = lG w v (p - 1) - w p.toNat * (lG w (v / p) (p - 1) - lG w (p - 1) (p - 1)) := by
  obtain ⟨h1, h2⟩ := lset_step v p hp h0 hv
  have hP2 := hp.two_le
  have hpv : p - 1 ≤ v / p := by
    have : p ≤ v / p := (Int.le_ediv_iff_mul_le (by omega)).2 hv
    omega
  simp only [lG]
  rw [h1, Finset.sum_union h2, Finset.sum_image (by intro a _ b _ h; exact Nat.eq_of_mul_eq_mul_left (by omega) h)]
  simp only [hw]
  rw [← Finset.mul_sum]
  have hs : lset (p - 1) (p - 1) ⊆ lset (v / p) (p - 1) := by
    intro m
    simp only [lset, Finset.mem_filter, Finset.mem_Icc]
    rintro ⟨⟨a, b⟩, c⟩
    exact ⟨⟨a, by omega⟩, c⟩
  have := Finset.sum_sdiff (f := w) hs
  rw [← this]; ring

theorem lset_same (v p : ℤ) (h2 : 2 ≤ p) (h : ¬ Nat.Prime p.toNat ∨ v < p * p) : lset v p = lset v (p - 1) := by
  ext m
  simp only [lset, Finset.mem_filter, Finset.mem_Icc]
  constructor
  · rintro ⟨a, c⟩; exact ⟨a, c.imp id (fun h => by omega)⟩
  · rintro ⟨⟨a, b⟩, c⟩
    refine ⟨⟨a, b⟩, ?_⟩
    by_cases hm : m.Prime
    · exact Or.inl hm
    · right
      have hc : p - 1 < (m.minFac : ℤ) := by
        rcases c with c | c
        · exact absurd c hm
        · exact c
      by_contra hlt
      have he : p = (m.minFac : ℤ) := by omega
      have hpp : Nat.Prime p.toNat := by rw [he]; simpa using Nat.minFac_prime (by omega)
      rcases h with h | h
      · exact h hpp
      · have := Nat.minFac_sq_le_self (by omega) hm
        have h3 : ((m.minFac:ℤ)) ^ 2 ≤ m := by exact_mod_cast this
        rw [← he] at h3
        have : (m:ℤ) ≤ v := by omega
        nlinarith

theorem lset_prime (p : ℤ) (h2 : 2 ≤ p) : lset p (p - 1) = if Nat.Prime p.toNat then insert p.toNat (lset (p - 1) (p - 1)) else lset (p - 1) (p - 1) := by
  ext m
  split_ifs with hp
  · simp only [lset, Finset.mem_filter, Finset.mem_Icc, Finset.mem_insert]
    constructor
    · rintro ⟨⟨a, b⟩, c⟩
      rcases Nat.lt_or_ge m p.toNat with h | h
      · exact Or.inr ⟨⟨a, by omega⟩, c⟩
      · exact Or.inl (by omega)
    · rintro (rfl | ⟨⟨a, b⟩, c⟩)
      · exact ⟨⟨hp.two_le, le_rfl⟩, Or.inl hp⟩
      · exact ⟨⟨a, by omega⟩, c⟩
  · simp only [lset, Finset.mem_filter, Finset.mem_Icc]
    constructor
    · rintro ⟨⟨a, b⟩, c⟩
      refine ⟨⟨a, ?_⟩, c⟩
      by_contra h
      have : m = p.toNat := by omega
      subst this
      rcases c with c | c
      · exact hp c
      · have := Nat.minFac_le (n := p.toNat) (by omega)
        have h3 : p.toNat.minFac = p.toNat := by omega
        exact hp (h3 ▸ Nat.minFac_prime (by omega))
    · rintro ⟨⟨a, b⟩, c⟩; exact ⟨⟨a, by omega⟩, c⟩
theorem lset_end (v r : ℤ) (h : v < (r + 1) * (r + 1)) (hr : 0 ≤ r) : lset v r = (Finset.Icc 2 v.toNat).filter Nat.Prime := by
  ext m
  simp only [lset, Finset.mem_filter, Finset.mem_Icc]
  constructor
  · rintro ⟨⟨a, b⟩, c⟩
    refine ⟨⟨a, b⟩, ?_⟩
    by_contra hm
    rcases c with c | c
    · exact hm c
    · have := Nat.minFac_sq_le_self (by omega) hm
      have h3 : ((m.minFac:ℤ)) ^ 2 ≤ m := by exact_mod_cast this
      have : (m:ℤ) ≤ v := by omega
      nlinarith
  · rintro ⟨a, c⟩; exact ⟨a, Or.inl c⟩
''')
fn('lucyS', 'int, int -> int', 'fun v k => lG (fun m => (m:ℤ)) v k')
fn('lucyC', 'int, int -> int', 'fun v k => lG (fun _ => 1) v k')
fn('prsum', 'int -> int', 'fun n => ∑ p ∈ (Finset.Icc 2 n.toNat).filter Nat.Prime, (p:ℤ)')
PRE = '''
intro h
obtain ⟨hp, h⟩ := h
'''
lemma('lucyS_step', 'v:int, p:int', 'implies(isprime(p) and p * p <= v, lucyS(v, p) == lucyS(v, p - 1) - p * (lucyS(v // p, p - 1) - lucyS(p - 1, p - 1)))', '''
rintro ⟨hp, h⟩
have := lG_step (fun m => (m:ℤ)) (by intro a b; push_cast; ring) v p hp.2 hp.1 h
simp only [Int.toNat_of_nonneg hp.1] at this
exact this
''')
lemma('lucyC_step', 'v:int, p:int', 'implies(isprime(p) and p * p <= v, lucyC(v, p) == lucyC(v, p - 1) - (lucyC(v // p, p - 1) - lucyC(p - 1, p - 1)))', '''
rintro ⟨hp, h⟩
have := lG_step (fun _ => 1) (by intro a b; ring) v p hp.2 hp.1 h
simp only [one_mul] at this
exact this
''')
lemma('lucy_same', 'v:int, p:int', 'implies(p >= 2 and (not isprime(p) or p * p > v), lucyS(v, p) == lucyS(v, p - 1) and lucyC(v, p) == lucyC(v, p - 1))', '''
rintro ⟨h2, h⟩
have hs := lset_same v p h2 (by
  rcases h with h | h
  · left; intro hp; exact h ⟨by omega, hp⟩
  · right; omega)
constructor <;> simp only [S.lucyS, S.lucyC, lG, hs]
''')
lemma('lucy_prime', 'p:int', '''implies(p >= 2, iff(lucyS(p, p - 1) > lucyS(p - 1, p - 1), isprime(p)) and iff(lucyC(p, p - 1) > lucyC(p - 1, p - 1), isprime(p)))''', '''
intro h2
have hi : S.isprime p ↔ Nat.Prime p.toNat := ⟨fun h => h.2, fun h => ⟨by omega, h⟩⟩
have hn : p.toNat ∉ lset (p - 1) (p - 1) := by
  simp only [lset, Finset.mem_filter, Finset.mem_Icc]
  rintro ⟨⟨a, b⟩, c⟩
  omega
rw [hi]
constructor <;> simp only [S.lucyS, S.lucyC, lG] <;> rw [lset_prime p h2] <;> split_ifs with hp <;> simp [hp, hn]
omega
''')
lemma('lucyS_end', 'n:int, r:int', 'implies(r >= 0 and n < (r + 1) * (r + 1), lucyS(n, r) == prsum(n))', '''
rintro ⟨h0, h⟩
simp only [S.lucyS, S.prsum, lG, lset_end n r h h0]
''')
lemma('lucyC_end', 'n:int, r:int', 'implies(r >= 0 and n >= 0 and n < (r + 1) * (r + 1), lucyC(n, r) == pc(n + 1))', '''
rintro ⟨h0, hn, h⟩
simp only [S.lucyC, S.pc, lG, lset_end n r h h0]
rw [Nat.count_eq_card_filter_range]
simp only [Finset.sum_const, nsmul_eq_mul, mul_one]
congr 2
ext m
simp only [Finset.mem_filter, Finset.mem_Icc, Finset.mem_range]
constructor
· rintro ⟨⟨a, b⟩, c⟩; exact ⟨by omega, c⟩
· rintro ⟨a, c⟩; exact ⟨⟨c.two_le, by omega⟩, c⟩
''')
lemma('lucyS_start', 'v:int', 'implies(v >= 1, lucyS(v, 1) == v * (v + 1) // 2 - 1)', '''
intro hv
obtain ⟨V, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ v)
have hs : lset (V:ℤ) 1 = Finset.Icc 2 V := by
  ext m
  simp only [lset, Finset.mem_filter, Finset.mem_Icc, Int.toNat_natCast]
  constructor
  · exact fun h => h.1
  · intro h
    refine ⟨h, Or.inr ?_⟩
    have := (Nat.minFac_prime (n := m) (by omega)).two_le
    omega
simp only [S.lucyS, lG, hs]
have : ∀ V : ℕ, 1 ≤ V → 2 * (∑ m ∈ Finset.Icc 2 V, (m:ℤ)) = V * (V + 1) - 2 := by
  intro V hV
  induction V, hV using Nat.le_induction with
  | base => simp
  | succ n hn ih =>
    rw [Finset.sum_Icc_succ_top (by omega), mul_add, ih]; push_cast; ring
have := this V (by omega)
omega
''')
lemma('lucyC_start', 'v:int', 'implies(v >= 2, lucyC(v, 2) == (v + 1) // 2)', '''
intro hv
obtain ⟨V, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ v)
have step : ∀ V : ℕ, 2 ≤ V → lG (fun _ => 1) (V:ℤ) 2 = ((V:ℤ) + 1) / 2 := by
  intro V hV
  induction V, hV using Nat.le_induction with
  | base =>
    have : lset ((2:ℕ):ℤ) 2 = {2} := by
      ext m
      simp only [lset, Finset.mem_filter, Finset.mem_Icc, Finset.mem_singleton]
      constructor
      · rintro ⟨⟨a, b⟩, c⟩
        have : (((2:ℕ):ℤ)).toNat = 2 := rfl
        omega
      · rintro rfl; exact ⟨⟨le_rfl, le_rfl⟩, Or.inl Nat.prime_two⟩
    simp only [lG, this]; simp
  | succ n hn ih =>
    by_cases ho : (n + 1) % 2 = 1
    · have : lset ((n + 1 : ℕ):ℤ) 2 = insert (n + 1) (lset (n:ℤ) 2) := by
        ext m
        simp only [lset, Finset.mem_filter, Finset.mem_Icc, Finset.mem_insert, Int.toNat_natCast]
        constructor
        · rintro ⟨⟨a, b⟩, c⟩
          rcases Nat.lt_or_ge n m with h | h
          · exact Or.inl (by omega)
          · exact Or.inr ⟨⟨a, h⟩, c⟩
        · rintro (rfl | ⟨⟨a, b⟩, c⟩)
          · refine ⟨⟨by omega, le_rfl⟩, Or.inr ?_⟩
            have h1 := (Nat.minFac_prime (n := n + 1) (by omega)).two_le
            have h2 : (n + 1).minFac ≠ 2 := by
              intro h
              have := Nat.minFac_dvd (n + 1)
              rw [h] at this
              omega
            omega
          · exact ⟨⟨a, by omega⟩, c⟩
      have hn2 : n + 1 ∉ lset (n:ℤ) 2 := by
        simp only [lset, Finset.mem_filter, Finset.mem_Icc, Int.toNat_natCast]
        rintro ⟨⟨a, b⟩, c⟩
        omega
      simp only [lG, this, Finset.sum_insert hn2]
      simp only [lG] at ih
      rw [ih]; push_cast; omega
    · have : lset ((n + 1 : ℕ):ℤ) 2 = lset (n:ℤ) 2 := by
        ext m
        simp only [lset, Finset.mem_filter, Finset.mem_Icc, Int.toNat_natCast]
        constructor
        · rintro ⟨⟨a, b⟩, c⟩
          refine ⟨⟨a, ?_⟩, c⟩
          by_contra h
          have hm : m = n + 1 := by omega
          subst hm
          have h2 : (n + 1).minFac = 2 := (Nat.minFac_eq_two_iff _).2 (by omega)
          rcases c with c | c
          · rw [c.minFac_eq] at h2; omega
          · rw [h2] at c; omega
        · rintro ⟨⟨a, b⟩, c⟩; exact ⟨⟨a, by omega⟩, c⟩
      simp only [lG, this]
      simp only [lG] at ih
      rw [ih]; push_cast; omega
exact step V (by omega)
''')
# the key set {n // i : i <= r} + [1, n // r] is closed under division
fn('qd', 'int, int, int -> bool', 'fun n r x => 1 ≤ x ∧ (x ≤ n / r ∨ ∃ i : ℤ, 1 ≤ i ∧ i ≤ r ∧ x = n / i)')
lemma('qd_def', 'n:int, r:int, x:int', 'iff(qd(n, r, x), 1 <= x and (x <= n // r or exists(i, 1, r + 1, x == n // i)))', '''
simp only [S.qd]
constructor
· rintro ⟨h, h2 | ⟨i, a, b, c⟩⟩
  · exact ⟨h, Or.inl h2⟩
  · exact ⟨h, Or.inr ⟨i, a, by omega, c⟩⟩
· rintro ⟨h, h2 | ⟨i, a, b, c⟩⟩
  · exact ⟨h, Or.inl h2⟩
  · exact ⟨h, Or.inr ⟨i, a, by omega, c⟩⟩
''')
lemma('qd_div', 'n:int, r:int, v:int, p:int', 'implies(r >= 1 and r * r <= n and n < (r + 1) * (r + 1) and qd(n, r, v) and p >= 1 and v // p >= 1, qd(n, r, v // p))', '''
rintro ⟨h1, h2, h3, ⟨hv, h4⟩, hp, h5⟩
refine ⟨h5, ?_⟩
rcases h4 with h4 | ⟨i, a, b, rfl⟩
· left
  have : v / p ≤ v := Int.ediv_le_self _ (by omega)
  omega
· rw [Int.ediv_ediv_of_nonneg (by omega)]
  by_cases hi : i * p ≤ r
  · exact Or.inr ⟨i * p, by nlinarith, hi, rfl⟩
  · left
    have e : n / (i * p) ≤ n / r := by
      apply Int.ediv_le_ediv_of_le_left_of_pos' <;> omega
    exact e
'''.replace('''    have e : n / (i * p) ≤ n / r := by
      apply Int.ediv_le_ediv_of_le_left_of_pos' <;> omega
    exact e
''', '''    have hn : 0 ≤ n := by nlinarith
    rw [Int.le_ediv_iff_mul_le (by omega)]
    have e1 := Int.ediv_mul_le n (by nlinarith : i * p ≠ 0)
    have e2 : 0 ≤ n / (i * p) := Int.ediv_nonneg hn (by nlinarith)
    nlinarith
'''))
lemma('quot_anti', 'n:int, r:int, i:int, j:int', 'implies(r >= 1 and r * r <= n and 1 <= i and i < j and j <= r, n // i > n // j and n // j >= n // r and n // r >= 1)', '''
rintro ⟨h1, h2, hi, hij, hj⟩
have hn : 0 ≤ n := by nlinarith
have hr : 1 ≤ n / r := by rw [Int.le_ediv_iff_mul_le (by omega)]; nlinarith
have a1 := Int.ediv_mul_le n (by omega : j ≠ 0)
have a2 : 0 ≤ n / j := Int.ediv_nonneg hn (by omega)
have a3 := Int.lt_ediv_add_one_mul_self n (by omega : 0 < j)
refine ⟨?_, ?_, hr⟩
· have : n / j + 1 ≤ n / i := by
    rw [Int.le_ediv_iff_mul_le (by omega)]
    have hq : j ≤ n / j := by rw [Int.le_ediv_iff_mul_le (by omega)]; nlinarith
    nlinarith
  omega
· have a4 := Int.ediv_mul_le n (by omega : r ≠ 0)
  show n / r ≤ n / j
  rw [Int.le_ediv_iff_mul_le (by omega)]
  nlinarith
''')
lemma('root_quot', 'n:int, r:int', 'implies(n >= 1 and r >= 0 and r * r <= n and n < (r + 1) * (r + 1), r >= 1 and r <= n // r and n // r <= n and n // 1 == n)', '''
rintro ⟨hn, h0, h1, h2⟩
have hr : 1 ≤ r := by
  by_contra h
  have : r = 0 := by omega
  subst this
  omega
refine ⟨hr, ?_, Int.ediv_le_self _ (by omega), by simp⟩
rw [Int.le_ediv_iff_mul_le (by omega)]; exact h1
''')
fn('quo', 'int, int -> int', 'fun n i => n / i')
lemma('quo_def', 'n:int, i:int', 'quo(n, i) == n // i', 'rfl')
fn('rootp', 'int, int -> bool', 'fun n r => 1 ≤ n ∧ 1 ≤ r ∧ r * r ≤ n ∧ n < (r + 1) * (r + 1)')
lemma('rootp_of', 'n:int, r:int', 'implies(n >= 1 and r >= 0 and r * r <= n and n < (r + 1) * (r + 1), rootp(n, r))', '''
intro h
exact ⟨h.1, (root_quot n r h).1, h.2.2⟩
''')
lemma('quot_all', 'n:int, r:int', '''implies(rootp(n, r), r >= 1 and r <= quo(n, r) and quo(n, r) <= n and quo(n, 1) == n and
   forall(i, 1, r + 1, quo(n, i) >= quo(n, r), quo(n, i)) and
   forall2(i, j, 1 <= i and i < j and j <= r, quo(n, i) > quo(n, j), quo(n, i), quo(n, j)))''', '''
rintro ⟨h1, h2, h3, h4⟩
have := root_quot n r ⟨h1, by omega, h3, h4⟩
refine ⟨h2, this.2.1, this.2.2.1, this.2.2.2, ?_, ?_⟩
· intro i hi hir
  rcases lt_or_eq_of_le (by omega : i ≤ r) with h | h
  · have q := quot_anti n r i r ⟨h2, h3, hi, h, le_rfl⟩
    exact q.1.le
  · rw [h]
· rintro i j ⟨a, b, c⟩
  exact (quot_anti n r i j ⟨h2, h3, a, b, c⟩).1
''')
lemma('qd_all', 'n:int, r:int', '''implies(rootp(n, r), forallT(int, x, iff(qd(n, r, x), 1 <= x and (x <= quo(n, r) or exists(i, 1, r + 1, x == quo(n, i)))), qd(n, r, x)))''', '''
intro h x
exact qd_def n r x
''')
lemma('qd_quo', 'n:int, r:int, v:int, p:int', 'implies(rootp(n, r) and qd(n, r, v) and p >= 2 and p * p <= v, qd(n, r, v // p) and v // p >= p and v // p < v)', '''
rintro ⟨⟨h1, h2, h3, h4⟩, hq, hp, hv⟩
have a : p ≤ v / p := by rw [Int.le_ediv_iff_mul_le (by omega)]; exact hv
refine ⟨qd_div n r v p ⟨h2, h3, h4, hq, by omega, by omega⟩, a, ?_⟩
rw [Int.ediv_lt_iff_lt_mul (by omega)]
nlinarith
''')
lemma('lucy_root', 'n:int, r:int', 'implies(rootp(n, r), lucyS(n, r) == prsum(n) and forall(v, 1, n + 1, lucyC(v, r) == pc(v + 1), lucyC(v, r)))', '''
rintro ⟨h1, h2, h3, h4⟩
refine ⟨lucyS_end n r ⟨by omega, h4⟩, ?_⟩
intro v hv hvn
exact lucyC_end v r ⟨by omega, by omega, by omega⟩
''')

for F, w in (('S', 'p * d'), ('C', 'd')):
    lemma('lucy%s_stepd' % F, 'v:int, p:int, d:int', 'implies(isprime(p) and p * p <= v and d == lucyF(v // p, p - 1) - lucyF(p - 1, p - 1), lucyF(v, p) == lucyF(v, p - 1) - %s)'.replace('lucyF', 'lucy' + F) % w, '''
rintro ⟨h1, h2, rfl⟩
exact lucy%s_step v p ⟨h1, h2⟩
''' % F)
# prime_count keeps 1 (not 0) at the key 1 until the end
fn('lucyD', 'int, int -> int', 'fun v k => if v = 1 then 1 else S.lucyC v k')
lemma('lucyD_stepd', 'v:int, p:int, d:int', 'implies(isprime(p) and p >= 3 and p * p <= v and d == lucyD(v // p, p - 1) - lucyD(p - 1, p - 1), lucyD(v, p) == lucyD(v, p - 1) - d)', '''
rintro ⟨h1, h3, h2, rfl⟩
have a : p ≤ v / p := by rw [Int.le_ediv_iff_mul_le (by omega)]; exact h2
have hv : v ≠ 1 := by nlinarith
simp only [S.lucyD]
rw [if_neg hv, if_neg hv, if_neg (by omega), if_neg (by omega)]
exact lucyC_step v p ⟨h1, h2⟩
''')
lemma('lucyD_same', 'v:int, p:int', 'implies(p >= 2 and (not isprime(p) or p * p > v), lucyD(v, p) == lucyD(v, p - 1))', '''
intro h
simp only [S.lucyD, (lucy_same v p h).2]
''')
lemma('lucyD_prime', 'p:int', 'implies(p >= 3, iff(lucyD(p, p - 1) > lucyD(p - 1, p - 1), isprime(p)))', '''
intro h
simp only [S.lucyD]
rw [if_neg (by omega), if_neg (by omega)]
exact (lucy_prime p (by omega)).2
''')
lemma('lucyD_start', 'v:int', 'implies(v >= 1, lucyD(v, 2) == (v + 1) // 2)', '''
intro h
simp only [S.lucyD]
split_ifs with h1
· subst h1; rfl
· exact lucyC_start v (by omega)
''')
lemma('lucyD_two', '', 'lucyD(2, 2) == 1 and lucyD(1, 2) == 1', '''
have := lucyD_start 2 (by norm_num)
have h1 := lucyD_start 1 (by norm_num)
norm_num at this h1
exact ⟨this, h1⟩
''')
lemma('lucyD_root', 'n:int, r:int, m:int', 'implies(rootp(n, r) and m >= 2 and m >= r, pc(2) == 0 and forall(v, 2, n + 1, lucyD(v, m) == pc(v + 1), lucyD(v, m)))', '''
rintro ⟨⟨h1, h2, h3, h4⟩, h5, h6⟩
constructor
· simp only [S.pc]; norm_cast
· intro v hv hvn
  simp only [S.lucyD]
  rw [if_neg (by omega)]
  apply lucyC_end v m ⟨by omega, by omega, ?_⟩
  nlinarith
''')
lemma('qd_any', 'n:int, r:int, i:int', 'implies(rootp(n, r) and 1 <= i and i <= n, qd(n, r, n // i))', '''
rintro ⟨⟨h1, h2, h3, h4⟩, hi, hin⟩
have a : 1 ≤ n / i := by rw [Int.le_ediv_iff_mul_le (by omega)]; omega
have b : S.qd n r n := ⟨by omega, Or.inr ⟨1, le_rfl, h2, by simp⟩⟩
exact qd_div n r n i ⟨h2, h3, h4, b, hi, a⟩
''')
lemma('pc_between', 'm:int, k:int', 'implies(k >= 0 and (k == 0 or nthp(k - 1) < m) and m <= nthp(k), pc(m) == k)', '''
rintro ⟨h0, h1, h2⟩
by_cases hm : 0 ≤ m
· have a := pc_iff m k ⟨hm, h0⟩
  have a1 : ¬ (S.nthp k < m) := by omega
  rw [a] at a1
  rcases h1 with rfl | h1
  · have : 0 ≤ S.pc m := by simp [S.pc]
    omega
  · by_cases hk : k = 0
    · subst hk
      have : 0 ≤ S.pc m := by simp [S.pc]
      omega
    · have b := pc_iff m (k - 1) ⟨hm, by omega⟩
      have := b.1 h1
      omega
· have : S.pc m = 0 := pc_small m (by omega)
  rcases h1 with rfl | h1
  · exact this
  · by_cases hk : k = 0
    · omega
    · have := (nthp_prime (k - 1) (by omega)).2
      omega
''')
