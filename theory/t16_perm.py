"""Permutations of a list and their lexicographic successor."""
from pyvc.theory import begin, fn, lemma, raw
begin('perm', ['arith'])
raw('''
noncomputable def mslice (A : ℤ → ℤ) (p n : ℤ) : Multiset ℤ := (Finset.Ico p n).val.map A
def lexat (A B : ℤ → ℤ) (p : ℤ) : Prop := 0 ≤ p ∧ (∀ i : ℤ, 0 ≤ i → i < p → A i = B i) ∧ A p < B p
theorem mslice_split (A : ℤ → ℤ) (n p : ℤ) (h0 : 0 ≤ p) (h : p ≤ n) : mslice A 0 n = mslice A 0 p + mslice A p n := by
  unfold mslice
  rw [← Multiset.map_add]
  congr 1
  rw [← Finset.Ico_union_Ico_eq_Ico h0 h, ← Finset.disjUnion_eq_union _ _ (Finset.Ico_disjoint_Ico_consecutive 0 p n)]
  rfl
theorem mslice_congr (A B : ℤ → ℤ) (p n : ℤ) (h : ∀ i : ℤ, p ≤ i → i < n → A i = B i) : mslice A p n = mslice B p n := by
  unfold mslice
  apply Multiset.map_congr rfl
  intro x hx
  have := Finset.mem_Ico.1 (Finset.mem_def.2 hx)
  exact h x this.1 this.2
theorem mslice_tail (A B : ℤ → ℤ) (p n : ℤ) (h0 : 0 ≤ p) (hp : p ≤ n) (h : mslice A 0 n = mslice B 0 n) (e : ∀ i : ℤ, 0 ≤ i → i < p → A i = B i) :
    mslice A p n = mslice B p n := by
  rw [mslice_split A n p h0 hp, mslice_split B n p h0 hp, mslice_congr A B 0 p e] at h
  exact add_left_cancel h
theorem mslice_mem (A : ℤ → ℤ) (p n x : ℤ) : x ∈ mslice A p n ↔ ∃ i, p ≤ i ∧ i < n ∧ A i = x := by
  unfold mslice
  simp only [Multiset.mem_map, Finset.mem_val, Finset.mem_Ico]
  constructor
  · rintro ⟨a, ⟨h1, h2⟩, h3⟩; exact ⟨a, h1, h2, h3⟩
  · rintro ⟨a, h1, h2, h3⟩; exact ⟨a, ⟨h1, h2⟩, h3⟩
theorem mslice_get (A B : ℤ → ℤ) (p n i : ℤ) (h0 : 0 ≤ p) (h : mslice A 0 n = mslice B 0 n) (e : ∀ i : ℤ, 0 ≤ i → i < p → A i = B i) (h1 : p ≤ i) (h2 : i < n) :
    ∃ k, p ≤ k ∧ k < n ∧ B k = A i := by
  have := mslice_tail A B p n h0 (by omega) h e
  rw [← mslice_mem, ← this, mslice_mem]
  exact ⟨i, h1, h2, rfl⟩
''')
fn('permI', 'arr[int], arr[int], int -> bool', 'fun A B n => mslice A 0 n = mslice B 0 n')
fn('lexlt', 'arr[int], arr[int], int -> bool', 'fun A B n => ∃ p, p < n ∧ lexat A B p')
# B is the lexicographic successor of A among the rearrangements of A[0..n)
fn('nextpm', 'arr[int], arr[int], int -> bool', 'fun A B n => S.permI A B n ∧ S.lexlt A B n ∧ ∀ C : ℤ → ℤ, S.permI A C n → S.lexlt A C n → ¬ S.lexlt C B n')
fn('lastpm', 'arr[int], int -> bool', 'fun A n => ∀ C : ℤ → ℤ, S.permI A C n → ¬ S.lexlt A C n')
fn('firstpm', 'arr[int], int -> bool', 'fun A n => ∀ C : ℤ → ℤ, S.permI A C n → ¬ S.lexlt C A n')
lemma('perm_trans', 'A:arr[int], B:arr[int], C:arr[int], n:int', 'permI(A, A, n) and implies(permI(A, B, n), permI(B, A, n)) and implies(permI(A, B, n) and permI(B, C, n), permI(A, C, n))', '''
exact ⟨rfl, fun h => h.symm, fun h => h.1.trans h.2⟩
''')
lemma('perm_congr', 'A:arr[int], B:arr[int], n:int', 'implies(forall(i, 0, n, A[i] == B[i], A[i]), permI(A, B, n))', '''
intro h
exact mslice_congr A B 0 n h
''')
lemma('perm_swap', 'A:arr[int], B:arr[int], i:int, j:int, n:int', '''implies(0 <= i and i < n and 0 <= j and j < n and B[i] == A[j] and B[j] == A[i] and forall(k, 0, n, implies(k != i and k != j, B[k] == A[k]), B[k]), permI(A, B, n))''', '''
rintro ⟨h1, h2, h3, h4, h5, h6, h7⟩
have e : ∀ k, 0 ≤ k → k < n → B k = A (Equiv.swap i j k) := by
  intro k a b
  rcases eq_or_ne k i with rfl | hi
  · rw [Equiv.swap_apply_left, h5]
  · rcases eq_or_ne k j with rfl | hj
    · rw [Equiv.swap_apply_right, h6]
    · rw [Equiv.swap_apply_of_ne_of_ne hi hj, h7 k a b ⟨hi, hj⟩]
have m : (Finset.Ico 0 n).map (Equiv.swap i j).toEmbedding = Finset.Ico 0 n := by
  ext x
  simp only [Finset.mem_map, Equiv.coe_toEmbedding, Finset.mem_Ico]
  constructor
  · rintro ⟨y, hy, rfl⟩
    rcases eq_or_ne y i with rfl | hi
    · rw [Equiv.swap_apply_left]; omega
    · rcases eq_or_ne y j with rfl | hj
      · rw [Equiv.swap_apply_right]; omega
      · rw [Equiv.swap_apply_of_ne_of_ne hi hj]; omega
  · intro hx
    refine ⟨Equiv.swap i j x, ?_, Equiv.swap_apply_self _ _ _⟩
    rcases eq_or_ne x i with rfl | hi
    · rw [Equiv.swap_apply_left]; omega
    · rcases eq_or_ne x j with rfl | hj
      · rw [Equiv.swap_apply_right]; omega
      · rw [Equiv.swap_apply_of_ne_of_ne hi hj]; omega
simp only [S.permI]
rw [mslice_congr B (fun k => A (Equiv.swap i j k)) 0 n e]
unfold mslice
conv_lhs => rw [← m]
rw [Finset.map_val, Multiset.map_map]
rfl
''')
lemma('last_intro', 'A:arr[int], n:int', 'implies(forall(i, 0, n - 1, A[i] >= A[i + 1], A[i]), lastpm(A, n))', '''
intro h C hC
rintro ⟨p, hp, h0, e, hlt⟩
have mono : ∀ d : ℕ, ∀ i : ℤ, 0 ≤ i → i + d < n → A (i + d) ≤ A i := by
  intro d
  induction d with
  | zero => intro i _ _; simp
  | succ d ih =>
    intro i a b
    have h1 := ih i a (by push_cast at b; omega)
    have h2 := h (i + d) (by omega) (by push_cast at b; omega)
    have : i + ((d + 1 : ℕ) : ℤ) = i + d + 1 := by push_cast; ring
    rw [this]; omega
obtain ⟨k, k1, k2, k3⟩ := mslice_get C A p n p h0 hC.symm (fun i a b => (e i a b).symm) (le_refl _) hp
have := mono (k - p).toNat p h0 (by omega)
have e2 : p + ((k - p).toNat : ℤ) = k := by omega
rw [e2] at this
omega
''')
lemma('first_intro', 'A:arr[int], n:int', 'implies(forall(i, 0, n - 1, A[i] <= A[i + 1], A[i]), firstpm(A, n))', '''
intro h C hC
rintro ⟨p, hp, h0, e, hlt⟩
have mono : ∀ d : ℕ, ∀ i : ℤ, 0 ≤ i → i + d < n → A i ≤ A (i + d) := by
  intro d
  induction d with
  | zero => intro i _ _; simp
  | succ d ih =>
    intro i a b
    have h1 := ih i a (by push_cast at b; omega)
    have h2 := h (i + d) (by omega) (by push_cast at b; omega)
    have : i + ((d + 1 : ℕ) : ℤ) = i + d + 1 := by push_cast; ring
    rw [this]; omega
obtain ⟨k, k1, k2, k3⟩ := mslice_get C A p n p h0 hC.symm e (le_refl _) hp
have := mono (k - p).toNat p h0 (by omega)
have e2 : p + ((k - p).toNat : ℤ) = k := by omega
rw [e2] at this
omega
''')
lemma('next_intro', 'A:arr[int], B:arr[int], n:int, j:int, l:int', '''implies(permI(A, B, n) and 0 <= j and j < l and l < n and A[j] < A[l] and forall(i, j + 1, n - 1, A[i] >= A[i + 1], A[i]) and forall(i, l + 1, n, A[j] >= A[i], A[i]) and
  forall(i, 0, j, B[i] == A[i], B[i]) and B[j] == A[l] and forall(i, j + 1, n, B[i] == ite(n + j - i == l, A[j], A[n + j - i]), B[i]), nextpm(A, B, n))''', '''
rintro ⟨hP, hj, hjl, hln, hlt, hdec, hle, hpre, hBj, hB⟩
refine ⟨hP, ⟨j, by omega, hj, fun i a b => (hpre i a b).symm, by rw [hBj]; exact hlt⟩, ?_⟩
intro C hC
rintro ⟨p, hp, p0, pe, plt⟩ ⟨q, hq, q0, qe, qlt⟩
have mono : ∀ d : ℕ, ∀ i : ℤ, j + 1 ≤ i → i + d < n → A (i + d) ≤ A i := by
  intro d
  induction d with
  | zero => intro i _ _; simp
  | succ d ih =>
    intro i a b
    have h1 := ih i a (by push_cast at b; omega)
    have h2 := hdec (i + d) (by omega) (by push_cast at b; omega)
    have : i + ((d + 1 : ℕ) : ℤ) = i + d + 1 := by push_cast; ring
    rw [this]; omega
have mono' : ∀ i k : ℤ, j + 1 ≤ i → i ≤ k → k < n → A k ≤ A i := by
  intro i k a b c
  have := mono (k - i).toNat i a (by omega)
  have e2 : i + ((k - i).toNat : ℤ) = k := by omega
  rw [e2] at this; exact this
have bmono : ∀ i k : ℤ, j + 1 ≤ i → i ≤ k → k < n → B i ≤ B k := by
  intro i k a b c
  rw [hB i a (by omega), hB k (by omega) c]
  rcases eq_or_ne i k with rfl | hne
  · exact le_refl _
  split_ifs with c1 c2
  · exact le_refl _
  · have := mono' (n + j - k) l (by omega) (by omega) hln
    omega
  · exact hle (n + j - i) (by omega) (by omega)
  · exact mono' (n + j - k) (n + j - i) (by omega) (by omega) (by omega)
rcases lt_trichotomy p j with h | h | h
· -- p < j
  have hb := hpre p p0 h
  rcases lt_trichotomy q p with g | g | g
  · have := pe q q0 g; have := hpre q q0 (by omega); omega
  · subst g; omega
  · have := qe p p0 g; omega
· subst h
  obtain ⟨k, k1, k2, k3⟩ := mslice_get C A p n p p0 hC.symm (fun i a b => (pe i a b).symm) (le_refl _) hp
  have hk : A l ≤ C p := by
    rw [← k3]
    rcases eq_or_lt_of_le k1 with h | h
    · subst h; omega
    · by_cases hkl : k ≤ l
      · exact mono' k l (by omega) hkl hln
      · have := hle k (by omega) k2; omega
  rcases lt_trichotomy q p with g | g | g
  · have := pe q q0 g; have := hpre q q0 g; omega
  · subst g; omega
  · obtain ⟨k, k1, k2, k3⟩ := mslice_get C B q n q q0 (hC.symm.trans hP) qe (le_refl _) hq
    have := bmono q k (by omega) k1 k2
    omega
· obtain ⟨k, k1, k2, k3⟩ := mslice_get C A p n p p0 hC.symm (fun i a b => (pe i a b).symm) (le_refl _) hp
  have := mono' p k (by omega) k1 k2
  omega
''')
lemma('perm_phil', 'A:arr[int], D:arr[int], j:int, l:int, n:int', '''implies(0 <= j and j + 1 < n and j < l and l <= n and D[j] == A[l] and D[j + 1] == ite(l == n, A[j], A[n]) and D[n] == ite(l == j + 1, A[j], A[j + 1]) and
  implies(l != j + 1 and l != n, D[l] == A[j]) and forall(i, 0, n + 1, implies(i != j and i != j + 1 and i != l and i != n, D[i] == A[i]), D[i]), permI(A, D, n + 1))''', '''
rintro ⟨h1, h2, h3, h4, h5, h6, h7, h8, h9⟩
have a := L.perm_swap A (fun i => if i = j then A l else if i = l then A j else A i) j l (n + 1) ⟨h1, by omega, by omega, by omega, by simp, by
  have : l ≠ j := by omega
  simp [this], fun k _ _ hk => by simp [hk.1, hk.2]⟩
have b := L.perm_swap (fun i => if i = j then A l else if i = l then A j else A i) D (j + 1) n (n + 1) ⟨by omega, by omega, by omega, by omega, by
    have e1 : n ≠ j := by omega
    rw [h6]; simp only [e1, if_false, eq_comm (a := n)], by
    have e1 : j + 1 ≠ j := by omega
    rw [h7]; simp only [e1, if_false, eq_comm (a := j + 1)], fun k k1 k2 hk => by
    show D k = _
    split_ifs with c1 c2
    · rw [c1, h5]
    · subst c2; exact h8 hk
    · exact h9 k k1 k2 ⟨c1, hk.1, c2, hk.2⟩⟩
exact a.trans b
''')
