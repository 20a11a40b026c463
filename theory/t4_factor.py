"""Factorizations: products over lists and dicts of prime powers."""
from pyvc.theory import begin, fn, lemma, raw
begin('factor', ['primes'])
fn('prodPE', 'arr[tuple[int,int]], int -> int', 'fun A n => ∏ i ∈ Finset.range n.toNat, (A (i:ℤ)).1 ^ (A (i:ℤ)).2.toNat')
fn('prodF', 'fn[int,bool], fn[int,int] -> int', 'fun D V => ∏ᶠ k ∈ {k : ℤ | D k}, k ^ (V k).toNat')
fn('finD', 'fn[int,bool] -> bool', 'fun D => {k : ℤ | D k}.Finite')
lemma('prodPE_zero', 'A:arr[tuple[int,int]]', 'prodPE(A, 0) == 1', 'simp [S.prodPE]')
lemma('prodPE_succ', 'A:arr[tuple[int,int]], n:int', 'implies(n >= 0, prodPE(A, n + 1) == prodPE(A, n) * powZ(A[n][0], A[n][1]))', '''
intro h
simp only [S.prodPE, S.powZ, toNat_succ' n h, Finset.prod_range_succ, cast_toNat' n h]
''')
lemma('prodF_empty', 'D:fn[int,bool], V:fn[int,int]', 'implies(forallT(int, k, not D[k]), finD(D) and prodF(D, V) == 1)', '''
intro h
have e : {k : ℤ | D k} = ∅ := by ext k; simp [h k]
constructor
· simp only [S.finD, e]; exact Set.finite_empty
· simp only [S.prodF, e]; simp
''')
lemma('prodF_single', 'D:fn[int,bool], V:fn[int,int], p:int', 'implies(forallT(int, k, iff(D[k], k == p)) and V[p] == 1, finD(D) and prodF(D, V) == p)', '''
rintro ⟨h, hv⟩
have e : {k : ℤ | D k} = {p} := by ext k; simp [h k]
constructor
· simp only [S.finD, e]; exact Set.finite_singleton p
· simp only [S.prodF, e]; simp [hv]
''')
lemma('prodF_inc', 'D:fn[int,bool], V:fn[int,int], p:int, E:fn[int,bool], W:fn[int,int]', '''implies(finD(D) and (not D[p] or V[p] >= 0) and
  E[p] and W[p] == ite(D[p], V[p], 0) + 1 and forallT(int, k, k == p or (iff(E[k], D[k]) and W[k] == V[k])),
  finD(E) and prodF(E, W) == prodF(D, V) * p)''', '''
rintro ⟨hf, hp, hE, hW, ho⟩
simp only [S.finD, S.prodF] at *
have hk : ∀ k, k ≠ p → (E k ↔ D k) ∧ W k = V k := fun k h => by
  rcases ho k with h' | h'
  · exact absurd h' h
  · exact h'
have e : {k : ℤ | E k} = insert p ({k : ℤ | D k} \\ {p}) := by
  ext k
  simp only [Set.mem_setOf_eq, Set.mem_insert_iff, Set.mem_diff, Set.mem_singleton_iff]
  by_cases h : k = p
  · subst h; simp [hE]
  · simp [h, (hk k h).1]
have hf' : ({k : ℤ | D k} \\ {p}).Finite := hf.subset Set.diff_subset
constructor
· rw [e]; exact hf'.insert p
have same : ∏ᶠ k ∈ ({k : ℤ | D k} \\ {p}), k ^ (W k).toNat = ∏ᶠ k ∈ ({k : ℤ | D k} \\ {p}), k ^ (V k).toNat := by
  apply finprod_mem_congr rfl
  intro k hk'
  rw [(hk k (by simpa using hk'.2)).2]
rw [e, finprod_mem_insert _ (by simp) hf', same, hW]
by_cases h : D p
· have e2 : {k : ℤ | D k} = insert p ({k : ℤ | D k} \\ {p}) := by
    ext k
    simp only [Set.mem_setOf_eq, Set.mem_insert_iff, Set.mem_diff, Set.mem_singleton_iff]
    by_cases hh : k = p
    · subst hh; simp [h]
    · simp [hh]
  have e3 : ∏ᶠ k ∈ {k : ℤ | D k}, k ^ (V k).toNat = p ^ (V p).toNat * ∏ᶠ k ∈ ({k : ℤ | D k} \\ {p}), k ^ (V k).toNat := by
    conv_lhs => rw [e2]
    rw [finprod_mem_insert _ (by simp) hf']
  have hv : V p ≥ 0 := by rcases hp with hp | hp; exact absurd h hp; exact hp
  rw [e3]
  simp only [h, if_true]
  rw [show (V p + 1).toNat = (V p).toNat + 1 by omega, pow_succ]
  ring
· have e2 : {k : ℤ | D k} \\ {p} = {k : ℤ | D k} := by
    ext k; simp only [Set.mem_diff, Set.mem_setOf_eq, Set.mem_singleton_iff]
    constructor
    · exact fun h => h.1
    · intro hkk; exact ⟨hkk, fun hh => h (hh ▸ hkk)⟩
  rw [e2]
  simp only [h, if_false]
  simp
  ring
''')
lemma('prodF_list', 'D:fn[int,bool], V:fn[int,int], A:arr[tuple[int,int]], n:int', '''implies(n >= 0 and
  forall(i, 0, n, D[A[i][0]] and A[i][1] == V[A[i][0]]) and
  forall(j, 0, n, forall(i, 0, j, A[i][0] != A[j][0])) and forallT(int, k, implies(D[k], exists(i, 0, n, A[i][0] == k))),
  prodPE(A, n) == prodF(D, V))''', '''
rintro ⟨hn, h1, h2, h3⟩
simp only [S.prodPE, S.prodF]
have e : {k : ℤ | D k} = ((Finset.range n.toNat).image (fun i : ℕ => (A (i:ℤ)).1) : Finset ℤ) := by
  ext k
  simp only [Set.mem_setOf_eq, Finset.coe_image, Set.mem_image, Finset.coe_range, Set.mem_Iio]
  constructor
  · intro hk
    obtain ⟨i, a, b, c⟩ := h3 k hk
    obtain ⟨i, rfl⟩ := Int.eq_ofNat_of_zero_le a
    exact ⟨i, by omega, c⟩
  · rintro ⟨i, hi, rfl⟩
    exact (h1 i (by omega) (by omega)).1
rw [e, finprod_mem_coe_finset, Finset.prod_image]
· apply Finset.prod_congr rfl
  intro i hi
  rw [Finset.mem_range] at hi
  rw [(h1 i (by omega) (by omega)).2]
· intro i hi j hj hij
  simp only [Finset.coe_range, Set.mem_Iio] at hi hj
  by_contra hne
  rcases lt_or_gt_of_ne hne with h | h
  · exact h2 j (by omega) (by omega) i (by omega) (by omega) hij
  · exact h2 i (by omega) (by omega) j (by omega) (by omega) hij.symm
''')
lemma('mod_div_mul', 'n:int, d:int', 'implies(n % d == 0, n == d * (n // d))', '''
intro h
exact (Int.mul_ediv_cancel' (Int.dvd_of_emod_eq_zero h)).symm
''')
lemma('div_dvd', 'n:int, d:int, q:int', 'implies(n % d == 0 and (n // d) % q == 0, n % q == 0)', '''
rintro ⟨h, h2⟩
obtain ⟨c, hc⟩ := Int.dvd_of_emod_eq_zero h2
have := Int.mul_ediv_cancel' (Int.dvd_of_emod_eq_zero h)
exact Int.emod_eq_zero_of_dvd ⟨d * c, by rw [← this, hc]; ring⟩
''')
lemma('dvd_le', 'n:int, d:int', 'implies(n > 0 and n % d == 0, d <= n)', '''
rintro ⟨h, h2⟩
exact Int.le_of_dvd h (Int.dvd_of_emod_eq_zero h2)
''')
fn('ffree', 'int, int, int -> bool', 'fun n lo hi => ∀ a b : ℤ, lo ≤ a → a < hi → 0 ≤ b → a * a - n = b * b → a - b ≤ 1')
lemma('ff_start', 'n:int, lo:int', 'ffree(n, lo, lo)', 'intro a b h1 h2; omega')
lemma('ff_step', 'n:int, lo:int, a:int, b:int', '''implies(ffree(n, lo, a) and b >= 0 and b * b <= a * a - n and a * a - n < (b + 1) * (b + 1) and
  (b * b != a * a - n or a - b <= 1), ffree(n, lo, a + 1))''', '''
rintro ⟨h, hb, h1, h2, h3⟩ a' b' hl hh hb' he
by_cases hc : a' < a
· exact h a' b' hl hc hb' he
have : a' = a := by omega
subst this
have : b' = b := by
  have h5 : b' < b + 1 := by by_contra hx; nlinarith
  have h6 : b < b' + 1 := by by_contra hx; nlinarith
  omega
subst this
rcases h3 with h3 | h3
· exact absurd he.symm h3
· exact h3
''')
lemma('ff_done', 'n:int, s:int, hi:int', '''implies(n >= 2 and n % 2 == 1 and s >= 0 and s * s <= n - 1 and n - 1 < (s + 1) * (s + 1) and
  hi >= (n + 9) // 6 + 1 and ffree(n, s + 1, hi), isprime(n))''', '''
rintro ⟨hn, ho, hs, h1, h2, hh, hf⟩
obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ n)
rw [isprime_nat]
by_contra hp
obtain ⟨p, hp1, ⟨c, hc⟩, hp3⟩ := exists_small_factor m (by omega) hp
have hp2 := hp1.two_le
have hpc : p ≤ c := by
  rw [hc] at hp3
  exact Nat.le_of_mul_le_mul_left hp3 (by omega)
have hodd : m % 2 = 1 := by omega
have hpo : p % 2 = 1 := by
  rcases Nat.mod_two_eq_zero_or_one p with h | h
  · rw [hc, Nat.mul_mod, h] at hodd; simp at hodd
  · exact h
have hco : c % 2 = 1 := by
  rcases Nat.mod_two_eq_zero_or_one c with h | h
  · rw [hc, Nat.mul_mod, h] at hodd; simp at hodd
  · exact h
obtain ⟨x, hx⟩ : ∃ x : ℕ, p + c = 2 * x := ⟨(p + c) / 2, by omega⟩
obtain ⟨y, hy⟩ : ∃ y : ℕ, c = p + 2 * y := ⟨(c - p) / 2, by omega⟩
have hxy : x = p + y := by omega
have key := hf x y ?_ ?_ (by omega) ?_
· have : (x:ℤ) - y = p := by rw [hxy]; push_cast; ring
  omega
· by_contra hlt
  have h3 : (x:ℤ) ≤ s := by omega
  have h4 : (x:ℤ) * x ≤ s * s := by nlinarith
  have h5 : (m:ℤ) ≤ x * x := by
    rw [hc, hxy, hy]; push_cast; nlinarith
  omega
· have h6 : (p:ℤ) ≥ 3 := by omega
  have h7 : (c:ℤ) ≥ 3 := by omega
  have h8 : ((p:ℤ) - 3) * (c - 3) ≥ 0 := by nlinarith
  have h9 : (m:ℤ) = p * c := by rw [hc]; push_cast; ring
  have h10 : (6:ℤ) * x ≤ m + 9 := by
    have : (2:ℤ) * x = p + c := by exact_mod_cast hx.symm
    nlinarith
  have : (x:ℤ) ≤ (m + 9) / 6 := by omega
  omega
· rw [hc, hxy, hy]; push_cast; ring
''')
lemma('ff_div', 'n:int, a:int, b:int', 'implies(a * a - n == b * b, n % (a - b) == 0 and n == (a - b) * (a + b))', '''
intro h
have : n = (a - b) * (a + b) := by linarith [mul_comm a b, (by ring : (a-b)*(a+b) = a*a - b*b)]
exact ⟨Int.emod_eq_zero_of_dvd ⟨a + b, this⟩, this⟩
''')
lemma('prodPE_prime', 'A:arr[tuple[int,int]], n:int, q:int', '''implies(n >= 0 and isprime(q) and prodPE(A, n) % q == 0,
  exists(i, 0, n, A[i][0] % q == 0))''', '''
rintro ⟨hn, hq, hd⟩
have hp := (isprime_int q hq.1).1 hq
have h := Int.dvd_of_emod_eq_zero hd
simp only [S.prodPE] at h
obtain ⟨i, hi, h2⟩ := (Prime.dvd_finset_prod_iff hp _).1 h
rw [Finset.mem_range] at hi
exact ⟨i, by omega, by omega, Int.emod_eq_zero_of_dvd (hp.dvd_of_dvd_pow h2)⟩
''')
lemma('prodPE_dvd', 'A:arr[tuple[int,int]], n:int, i:int', '''implies(0 <= i and i < n and A[i][1] >= 1, prodPE(A, n) % A[i][0] == 0)''', '''
rintro ⟨h0, hi, he⟩
obtain ⟨i, rfl⟩ := Int.eq_ofNat_of_zero_le h0
simp only [S.prodPE]
apply Int.emod_eq_zero_of_dvd
exact (dvd_pow_self _ (by omega)).trans (Finset.dvd_prod_of_mem (fun i : ℕ => (A (i:ℤ)).1 ^ (A (i:ℤ)).2.toNat) (Finset.mem_range.2 (by omega)))
''')
