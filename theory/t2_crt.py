"""Products over arrays and the Chinese remainder argument."""
from pyvc.theory import begin, fn, lemma, raw
begin('crt', ['arith'])
fn('prodA', 'arr[int], int -> int', 'fun A n => ∏ i ∈ Finset.range n.toNat, A (i:ℤ)')
fn('prodM', 'arr[tuple[int,int]], int -> int', 'fun A n => ∏ i ∈ Finset.range n.toNat, (A (i:ℤ)).2')
lemma('prodA_zero', 'A:arr[int]', 'prodA(A, 0) == 1', 'simp [S.prodA]', pats=['prodA(A,0)'])
lemma('prodM_zero', 'A:arr[tuple[int,int]]', 'prodM(A, 0) == 1', 'simp [S.prodM]')
lemma('prodA_succ', 'A:arr[int], n:int', 'implies(n >= 0, prodA(A, n + 1) == prodA(A, n) * A[n])', '''
intro h
simp only [S.prodA, toNat_succ' n h, Finset.prod_range_succ, cast_toNat' n h]
''')
lemma('prodM_succ', 'A:arr[tuple[int,int]], n:int', 'implies(n >= 0, prodM(A, n + 1) == prodM(A, n) * A[n][1])', '''
intro h
simp only [S.prodM, toNat_succ' n h, Finset.prod_range_succ, cast_toNat' n h]
''')
lemma('prodA_cong', 'A:arr[int], B:arr[int], n:int', 'implies(forall(i, 0, n, A[i] == B[i]), prodA(A, n) == prodA(B, n))', '''
intro h
simp only [S.prodA]
apply Finset.prod_congr rfl
intro i hi
rw [Finset.mem_range] at hi
exact h i (by omega) (by omega)
''')
lemma('prodA_pos', 'A:arr[int], n:int', 'implies(forall(i, 0, n, A[i] >= 1), prodA(A, n) >= 1)', '''
intro h
simp only [S.prodA]
have : 0 < ∏ i ∈ Finset.range n.toNat, A (i:ℤ) := by
  apply Finset.prod_pos
  intro i hi
  rw [Finset.mem_range] at hi
  have := h i (by omega) (by omega)
  omega
omega
''')
lemma('prodM_pos', 'A:arr[tuple[int,int]], n:int', 'implies(forall(i, 0, n, A[i][1] >= 1), prodM(A, n) >= 1)', '''
intro h
simp only [S.prodM]
have : 0 < ∏ i ∈ Finset.range n.toNat, (A (i:ℤ)).2 := by
  apply Finset.prod_pos
  intro i hi
  rw [Finset.mem_range] at hi
  have := h i (by omega) (by omega)
  omega
omega
''')
lemma('prodM_gcd', 'A:arr[tuple[int,int]], n:int, m:int',
      '(gcdZ(prodM(A, n), m) == 1) == forall(i, 0, n, gcdZ(A[i][1], m) == 1)', '''
simp only [S.prodM, S.gcdZ]
have e : ∀ a : ℤ, ((Int.gcd a m : ℕ) : ℤ) = 1 ↔ IsCoprime a m := by
  intro a; rw [Int.isCoprime_iff_gcd_eq_one]; norm_cast
simp only [e]
rw [IsCoprime.prod_left_iff]
constructor
· intro h i h1 h2
  obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le h1
  exact h k (by rw [Finset.mem_range]; omega)
· intro h i hi
  rw [Finset.mem_range] at hi
  exact h i (by omega) (by omega)
''')
lemma('prodA_gcd', 'A:arr[int], n:int, m:int',
      '(gcdZ(prodA(A, n), m) == 1) == forall(i, 0, n, gcdZ(A[i], m) == 1)', '''
simp only [S.prodA, S.gcdZ]
have e : ∀ a : ℤ, ((Int.gcd a m : ℕ) : ℤ) = 1 ↔ IsCoprime a m := by
  intro a; rw [Int.isCoprime_iff_gcd_eq_one]; norm_cast
simp only [e]
rw [IsCoprime.prod_left_iff]
constructor
· intro h i h1 h2
  obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le h1
  exact h k (by rw [Finset.mem_range]; omega)
· intro h i hi
  rw [Finset.mem_range] at hi
  exact h i (by omega) (by omega)
''')
lemma('prodM_mod', 'A:arr[tuple[int,int]], n:int, j:int', 'implies(0 <= j and j < n, prodM(A, n) % A[j][1] == 0)', '''
rintro ⟨h0, h⟩
obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le h0
apply Int.emod_eq_zero_of_dvd
simp only [S.prodM]
exact Finset.dvd_prod_of_mem (fun i : ℕ => (A (i:ℤ)).2) (by rw [Finset.mem_range]; omega)
''')
lemma('prodA_mod', 'A:arr[int], n:int, j:int', 'implies(0 <= j and j < n, prodA(A, n) % A[j] == 0)', '''
rintro ⟨h0, h⟩
obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le h0
apply Int.emod_eq_zero_of_dvd
simp only [S.prodA]
exact Finset.dvd_prod_of_mem (fun i : ℕ => A (i:ℤ)) (by rw [Finset.mem_range]; omega)
''')
# y = (u*m*xi + v*mi*x) mod (m*mi)  with u*m + v*mi = 1
lemma('crt_new', 'u:int, v:int, m:int, mi:int, x:int, xi:int', '''implies(u * m + v * mi == 1,
   ((u * m * xi + v * mi * x) % (m * mi) - xi) % mi == 0)''', '''
intro h
apply Int.emod_eq_zero_of_dvd
have h1 := Int.emod_add_mul_ediv (u * m * xi + v * mi * x) (m * mi)
generalize (u * m * xi + v * mi * x) / (m * mi) = q at *
refine ⟨v * (x - xi) - m * q, ?_⟩
have : u * m = 1 - v * mi := by linarith
have e : u * m * xi = (1 - v * mi) * xi := by rw [this]
linarith [e, h1, mul_comm mi (m*q), mul_assoc m mi q, mul_comm (v * (x - xi)) mi, show mi * (v * (x - xi) - m * q) = v * mi * x - v * mi * xi - m * mi * q by ring]
''')
lemma('crt_old', 'u:int, v:int, m:int, mi:int, x:int, xi:int, d:int, a:int', '''implies(u * m + v * mi == 1 and m % d == 0 and (x - a) % d == 0,
   ((u * m * xi + v * mi * x) % (m * mi) - a) % d == 0)''', '''
rintro ⟨h, hd, ha⟩
apply Int.emod_eq_zero_of_dvd
obtain ⟨k, hk⟩ := Int.dvd_of_emod_eq_zero hd
obtain ⟨l, hl⟩ := Int.dvd_of_emod_eq_zero ha
have h1 := Int.emod_add_mul_ediv (u * m * xi + v * mi * x) (m * mi)
generalize (u * m * xi + v * mi * x) / (m * mi) = q at *
refine ⟨u * k * (xi - x) + l - k * mi * q, ?_⟩
have hv : v * mi = 1 - u * m := by linarith
have e : v * mi * x = (1 - u * m) * x := by rw [hv]
have e2 : (u * m * xi + v * mi * x) % (m * mi) = u * m * xi + (1 - u * m) * x - m * mi * q := by linarith
rw [e2]
have e3 : x = a + d * l := by linarith
subst hk
rw [e3]; ring
''')
lemma('congr_mod', 'x:int, a:int, d:int, m:int', 'implies(m % d == 0, ((x % m) - a) % d == 0 or (x - a) % d != 0)', '''
intro h
by_cases c : (x - a) % d = 0
· left
  apply Int.emod_eq_zero_of_dvd
  obtain ⟨k, hk⟩ := Int.dvd_of_emod_eq_zero h
  obtain ⟨l, hl⟩ := Int.dvd_of_emod_eq_zero c
  have h1 := Int.emod_add_mul_ediv x m
  refine ⟨l - k * (x / m), ?_⟩
  subst hk
  linarith [mul_assoc d k (x / (d*k)), show d * (l - k * (x / (d * k))) = d * l - d * (k * (x / (d*k))) by ring]
· right; exact c
''')
lemma('garner_old', 'x:int, u:int, p:int, a:int, d:int', 'implies(p % d == 0 and (x - a) % d == 0, (x + u * p - a) % d == 0)', '''
rintro ⟨h1, h2⟩
apply Int.emod_eq_zero_of_dvd
obtain ⟨k, rfl⟩ := Int.dvd_of_emod_eq_zero h1
obtain ⟨l, hl⟩ := Int.dvd_of_emod_eq_zero h2
exact ⟨l + u * k, by linarith [show d * (l + u * k) = d * l + u * (d * k) by ring]⟩
''')
lemma('garner_new', 'x:int, inv:int, p:int, r:int, d:int', '''implies(d >= 1 and (inv * p - 1) % d == 0,
   (x + ((r - x) * inv % d) * p - r) % d == 0)''', '''
rintro ⟨hd, h⟩
apply Int.emod_eq_zero_of_dvd
obtain ⟨l, hl⟩ := Int.dvd_of_emod_eq_zero h
have h1 := Int.emod_add_mul_ediv ((r - x) * inv) d
generalize ((r - x) * inv) / d = q at *
have e : (r - x) * inv % d = (r - x) * inv - d * q := by linarith
rw [e]
refine ⟨(r - x) * l - q * p, ?_⟩
have : inv * p = 1 + d * l := by linarith
have e2 : (r - x) * (inv * p) = (r - x) * (1 + d * l) := by rw [this]
linarith [show x + ((r - x) * inv - d * q) * p - r = x + (r - x) * (inv * p) - d * q * p - r by ring,
  show d * ((r - x) * l - q * p) = (r - x) * (1 + d * l) - (r - x) - d * q * p by ring]
''')
lemma('mod1_sub', 'a:int, m:int', 'implies(m >= 1 and a % m == 1 % m, (a - 1) % m == 0)', '''
rintro ⟨h, h2⟩
exact Int.emod_eq_zero_of_dvd (Int.ModEq.dvd (show (1:ℤ) ≡ a [ZMOD m] from h2.symm))
''')
lemma('mod_self_zero', 'a:int', 'implies(a != 0, (a - a) % a == 0 and (a % a) == 0)', 'simp')
