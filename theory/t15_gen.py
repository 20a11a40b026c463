"""Ranks of generated tuples and combinations."""
from pyvc.theory import begin, fn, lemma, raw
begin('gen', ['enum', 'crt'])
raw('''
def mrvN (B A : ℤ → ℤ) (o : ℤ) : ℕ → ℤ
  | 0 => 0
  | m + 1 => mrvN B A o m * B (o + m) + A (o + m)
theorem mrvN_congr (B A C : ℤ → ℤ) (o : ℤ) (m : ℕ) (h : ∀ i : ℤ, 0 ≤ i → i < m → A (o + i) = C (o + i)) : mrvN B A o m = mrvN B C o m := by
  induction m with
  | zero => rfl
  | succ m ih =>
    simp only [mrvN]
    rw [ih (fun i a b => h i a (by push_cast; omega)), h m (by omega) (by push_cast; omega)]
theorem mrvN_zero (B A : ℤ → ℤ) (o : ℤ) (m : ℕ) (h : ∀ i : ℤ, 0 ≤ i → i < m → A (o + i) = 0) : mrvN B A o m = 0 := by
  induction m with
  | zero => rfl
  | succ m ih =>
    simp only [mrvN]
    rw [ih (fun i a b => h i a (by push_cast; omega)), h m (by omega) (by push_cast; omega)]; ring
theorem mrvN_max (B A : ℤ → ℤ) (o : ℤ) (m : ℕ) (h : ∀ i : ℤ, 0 ≤ i → i < m → A (o + i) = B (o + i) - 1) : mrvN B A o m + 1 = ∏ i ∈ Finset.range m, B (o + i) := by
  induction m with
  | zero => simp [mrvN]
  | succ m ih =>
    simp only [mrvN, Finset.prod_range_succ]
    rw [← ih (fun i a b => h i a (by push_cast; omega)), h m (by omega) (by push_cast; omega)]; ring
theorem mrvN_inc (B A C : ℤ → ℤ) (o : ℤ) (m j : ℕ) (hj : j < m) (h1 : ∀ i : ℤ, 0 ≤ i → i < j → A (o + i) = C (o + i)) (h2 : C (o + j) = A (o + j) + 1)
    (h3 : ∀ i : ℤ, j < i → i < m → A (o + i) = B (o + i) - 1 ∧ C (o + i) = 0) : mrvN B C o m = mrvN B A o m + 1 := by
  induction m with
  | zero => omega
  | succ m ih =>
    simp only [mrvN]
    rcases Nat.lt_or_ge j m with h | h
    · rw [ih h (fun i a b => h3 i a (by push_cast; omega))]
      have := h3 m (by exact_mod_cast h) (by push_cast; omega)
      rw [this.1, this.2]; ring
    · have e : j = m := by omega
      subst e
      rw [mrvN_congr B A C o j h1, h2]; ring
theorem mrvN_bound (B A : ℤ → ℤ) (o : ℤ) (m : ℕ) (h : ∀ i : ℤ, 0 ≤ i → i < m → 0 ≤ A (o + i) ∧ A (o + i) < B (o + i)) :
    0 ≤ mrvN B A o m ∧ mrvN B A o m < ∏ i ∈ Finset.range m, B (o + i) := by
  induction m with
  | zero => simp [mrvN]
  | succ m ih =>
    simp only [mrvN, Finset.prod_range_succ]
    obtain ⟨i1, i2⟩ := ih (fun i a b => h i a (by push_cast; omega))
    obtain ⟨a1, a2⟩ := h m (by omega) (by push_cast; omega)
    refine ⟨by nlinarith, ?_⟩
    have : (mrvN B A o m + 1) * B (o + m) ≤ (∏ i ∈ Finset.range m, B (o + i)) * B (o + m) := mul_le_mul_of_nonneg_right (by omega) (by omega)
    nlinarith
''')
# rank of the digit vector A[o..o+m) in the mixed radix B[o..o+m), last digit fastest
fn('mrv', 'arr[int], arr[int], int, int -> int', 'fun B A o m => mrvN B A o m.toNat')
fn('prodO', 'arr[int], int, int -> int', 'fun B o m => ∏ i ∈ Finset.range m.toNat, B (o + i)')
lemma('mrv_zero', 'B:arr[int], A:arr[int], o:int, m:int', 'implies(forall(i, o, o + m, A[i] == 0, A[i]), mrv(B, A, o, m) == 0)', '''
intro h
exact mrvN_zero B A o m.toNat (fun i a b => h (o + i) (by omega) (by omega))
''')
lemma('mrv_max', 'B:arr[int], A:arr[int], o:int, m:int', 'implies(m >= 0 and forall(i, o, o + m, A[i] == B[i] - 1, A[i]), mrv(B, A, o, m) + 1 == prodO(B, o, m))', '''
rintro ⟨hm, h⟩
exact mrvN_max B A o m.toNat (fun i a b => h (o + i) (by omega) (by omega))
''')
lemma('mrv_congr', 'B:arr[int], A:arr[int], C:arr[int], o:int, m:int', 'implies(forall(i, o, o + m, A[i] == C[i], A[i]), mrv(B, A, o, m) == mrv(B, C, o, m))', '''
intro h
exact mrvN_congr B A C o m.toNat (fun i a b => h (o + i) (by omega) (by omega))
''')
lemma('mrv_inc', 'B:arr[int], A:arr[int], C:arr[int], o:int, m:int, j:int', '''implies(o <= j and j < o + m and forall(i, o, j, C[i] == A[i], C[i]) and C[j] == A[j] + 1 and forall(i, j + 1, o + m, A[i] == B[i] - 1 and C[i] == 0, A[i], C[i]),
  mrv(B, C, o, m) == mrv(B, A, o, m) + 1)''', '''
rintro ⟨h1, h2, h3, h4, h5⟩
apply mrvN_inc B A C o m.toNat (j - o).toNat (by omega)
· intro i a b; exact (h3 (o + i) (by omega) (by omega)).symm
· have : o + ((j - o).toNat : ℤ) = j := by omega
  rw [this, h4]
· intro i a b; exact h5 (o + i) (by omega) (by omega)
''')
lemma('mrv_shift', 'B:arr[int], A:arr[int], D:arr[int], C:arr[int], m:int', 'implies(forall(i, 0, m, D[i] == B[i + 1] and C[i] == A[i + 1], D[i], C[i]), mrv(B, A, 1, m) == mrv(D, C, 0, m) and prodO(B, 1, m) == prodO(D, 0, m))', '''
intro h
have h' : ∀ i : ℤ, 0 ≤ i → i < (m.toNat : ℤ) → D i = B (i + 1) ∧ C i = A (i + 1) := fun i a b => h i a (by omega)
refine ⟨?_, ?_⟩
· simp only [S.mrv]
  generalize m.toNat = k at h'
  induction k with
  | zero => rfl
  | succ k ih =>
    simp only [mrvN]
    rw [ih (fun i a b => h' i a (by push_cast; omega))]
    obtain ⟨a, b⟩ := h' k (by omega) (by push_cast; omega)
    rw [zero_add, add_comm 1 (k:ℤ), ← a, ← b]
· simp only [S.prodO]
  apply Finset.prod_congr rfl
  intro i hi
  simp at hi
  have := (h' i (by omega) (by omega)).1
  rw [zero_add, this, add_comm]
''')
lemma('prodO_const', 'B:arr[int], o:int, m:int, b:int', 'implies(m >= 0 and forall(i, o, o + m, B[i] == b, B[i]), prodO(B, o, m) == powZ(b, m))', '''
rintro ⟨hm, h⟩
simp only [S.prodO, S.powZ]
rw [Finset.prod_congr rfl (fun i hi => by simp at hi; exact h (o + i) (by omega) (by omega)), Finset.prod_const, Finset.card_range]
''')
# rank of a combination c[1] < ... < c[t] in the combinatorial number system
raw('''
theorem hockey (a : ℕ) (j : ℕ) : ∑ i ∈ Finset.Icc 1 j, (Nat.choose (a + i - 1) i : ℤ) + 1 = Nat.choose (a + j) j := by
  induction j with
  | zero => simp
  | succ j ih =>
    rw [← Finset.insert_Icc_right_eq_Icc_add_one (by omega), Finset.sum_insert (by simp), add_assoc, ih]
    have e : a + (j + 1) - 1 = a + j := by omega
    rw [e, ← add_assoc, Nat.choose_succ_succ, Nat.succ_eq_add_one]
    push_cast; ring
''')
fn('crank', 'arr[int], int -> int', 'fun c t => ∑ i ∈ Finset.Icc 1 t.toNat, (Nat.choose (c (i:ℤ)).toNat i : ℤ)')
lemma('crank_start', 'c:arr[int], t:int', 'implies(forall(i, 1, t + 1, c[i] == i - 1, c[i]), crank(c, t) == 0)', '''
intro h
simp only [S.crank]
apply Finset.sum_eq_zero
intro i hi
simp only [Finset.mem_Icc] at hi
rw [h i (by omega) (by omega), Nat.choose_eq_zero_of_lt (by omega)]; rfl
''')
lemma('crank_congr', 'c:arr[int], d:arr[int], t:int', 'implies(forall(i, 1, t + 1, c[i] == d[i], c[i]), crank(c, t) == crank(d, t))', '''
intro h
simp only [S.crank]
apply Finset.sum_congr rfl
intro i hi
simp only [Finset.mem_Icc] at hi
rw [h i (by omega) (by omega)]
''')
lemma('crank_last', 'c:arr[int], n:int, t:int', 'implies(0 <= t and t <= n and forall(i, 1, t + 1, c[i] == n - t + i - 1, c[i]), crank(c, t) + 1 == chooseZ(n, t))', '''
rintro ⟨h1, h2, h⟩
obtain ⟨t, rfl⟩ := Int.eq_ofNat_of_zero_le h1
obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ n)
have := hockey (n - t) t
simp only [S.crank, S.chooseZ, Int.toNat_natCast]
have e : n - t + t = n := by omega
rw [e] at this
rw [← this]
congr 1
apply Finset.sum_congr rfl
intro i hi
simp only [Finset.mem_Icc] at hi
rw [h i (by omega) (by omega)]
congr 2
omega
''')
lemma('crank_inc', 'c:arr[int], d:arr[int], t:int, j:int', '''implies(1 <= j and j <= t and c[1] >= 0 and forall(i, 1, j + 1, c[i] == c[1] + i - 1, c[i]) and forall(i, 1, j, d[i] == i - 1, d[i]) and d[j] == c[j] + 1 and forall(i, j + 1, t + 1, c[i] == d[i], c[i], d[i]),
  crank(d, t) == crank(c, t) + 1)''', '''
rintro ⟨h1, h2, h0, h3, h4, h5, h6⟩
obtain ⟨t, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ t)
obtain ⟨j, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ j)
obtain ⟨a, ha⟩ := Int.eq_ofNat_of_zero_le h0
simp only [S.crank, Int.toNat_natCast]
have split : ∀ f : ℕ → ℤ, ∑ i ∈ Finset.Icc 1 t, f i = ∑ i ∈ Finset.Icc 1 j, f i + ∑ i ∈ Finset.Ioc j t, f i := by
  intro f
  rw [← Finset.sum_union (by rw [Finset.disjoint_left]; intro x; simp; omega)]
  apply Finset.sum_congr _ (fun _ _ => rfl)
  ext x; simp only [Finset.mem_union, Finset.mem_Icc, Finset.mem_Ioc]; omega
rw [split, split]
have e2 : ∑ i ∈ Finset.Ioc j t, (Nat.choose (d (i:ℤ)).toNat i : ℤ) = ∑ i ∈ Finset.Ioc j t, (Nat.choose (c (i:ℤ)).toNat i : ℤ) := by
  apply Finset.sum_congr rfl
  intro i hi
  simp only [Finset.mem_Ioc] at hi
  rw [h6 i (by omega) (by omega)]
have e1 : ∑ i ∈ Finset.Icc 1 j, (Nat.choose (c (i:ℤ)).toNat i : ℤ) + 1 = Nat.choose (a + j) j := by
  rw [← hockey]
  congr 1
  apply Finset.sum_congr rfl
  intro i hi
  simp only [Finset.mem_Icc] at hi
  rw [h3 i (by omega) (by omega)]
  congr 2
  omega
have e3 : ∑ i ∈ Finset.Icc 1 j, (Nat.choose (d (i:ℤ)).toNat i : ℤ) = Nat.choose (a + j) j := by
  rw [Finset.sum_eq_single j]
  · rw [h5, h3 j (by omega) (by omega)]
    congr 2; omega
  · intro i hi hne
    simp only [Finset.mem_Icc] at hi
    rw [h4 i (by omega) (by omega), Nat.choose_eq_zero_of_lt (by omega)]; rfl
  · intro hn; simp at hn; omega
rw [e2, e3, ← e1]; ring
''')
fn('crankR', 'arr[int], int -> int', 'fun r t => ∑ i ∈ Finset.Icc 1 t.toNat, (Nat.choose (r (t - (i:ℤ))).toNat i : ℤ)')
lemma('crank_rev', 'c:arr[int], r:arr[int], t:int', 'implies(t >= 0 and forall(i, 0, t, r[i] == c[t - i], r[i]), crankR(r, t) == crank(c, t))', '''
rintro ⟨ht, h⟩
simp only [S.crank, S.crankR]
apply Finset.sum_congr rfl
intro i hi
simp only [Finset.mem_Icc] at hi
rw [h (t - i) (by omega) (by omega), sub_sub_cancel]
''')
fn('mrvc', 'int, arr[int], int -> int', 'fun b A m => mrvN (fun _ => b) A 0 m.toNat')
lemma('mrvc_shift', 'B:arr[int], A:arr[int], b:int, C:arr[int], m:int', 'implies(m >= 0 and forall(i, 1, m + 1, B[i] == b, B[i]) and forall(i, 0, m, C[i] == A[i + 1], C[i]), mrv(B, A, 1, m) == mrvc(b, C, m) and prodO(B, 1, m) == powZ(b, m))', '''
rintro ⟨hm, h1, h2⟩
refine ⟨?_, L.prodO_const B 1 m b ⟨hm, fun i a c => h1 i a (by omega)⟩⟩
have h := (L.mrv_shift B A (fun _ => b) C m (fun i a c => ⟨(h1 (i + 1) (by omega) (by omega)).symm, h2 i a c⟩)).1
exact h
''')
