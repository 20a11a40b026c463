"""Knapsack: best value of a choice among the first i items within a capacity."""
from pyvc.theory import begin, fn, lemma, raw
begin('opt', ['arith'])
raw('''
def ksel (A : ℤ → ℤ × ℤ) (i k : ℤ) (T : Finset ℤ) : Prop := T ⊆ Finset.Ico 0 i ∧ ∑ j ∈ T, (A j).2 ≤ k
''')
fn('kbest', 'arr[tuple[int,int]], int, int, int -> bool', 'fun A i k m => (∃ T, ksel A i k T ∧ ∑ j ∈ T, (A j).1 = m) ∧ ∀ T, ksel A i k T → ∑ j ∈ T, (A j).1 ≤ m')
lemma('kb_zero', 'A:arr[tuple[int,int]], k:int', 'implies(k >= 0, kbest(A, 0, k, 0))', '''
intro h
refine ⟨⟨∅, ⟨by simp, by simpa using h⟩, by simp⟩, ?_⟩
rintro T ⟨h1, _⟩
have : T = ∅ := by
  apply Finset.eq_empty_of_forall_notMem
  intro x hx
  have := Finset.mem_Ico.1 (h1 hx)
  omega
simp [this]
''')
lemma('kb_step', 'A:arr[tuple[int,int]], i:int, k:int, a:int, b:int', '''implies(i >= 0 and k >= 0 and kbest(A, i, k, a) and forall(j, 0, i + 1, A[j][1] >= 0, A[j]),
  implies(k < A[i][1], kbest(A, i + 1, k, a)) and implies(k >= A[i][1] and kbest(A, i, k - A[i][1], b), kbest(A, i + 1, k, max(a, A[i][0] + b))))''', '''
rintro ⟨hi, hk, ⟨⟨T0, hT0, e0⟩, hmax⟩, hw⟩
have up : ∀ k' T, ksel A i k' T → ksel A (i + 1) k' T := fun k' T hT =>
  ⟨fun x hx => by have := Finset.mem_Ico.1 (hT.1 hx); exact Finset.mem_Ico.2 ⟨this.1, by omega⟩, hT.2⟩
have wn : ∀ T : Finset ℤ, T ⊆ Finset.Ico 0 (i + 1) → i ∉ T → T ⊆ Finset.Ico 0 i := by
  intro T hT hn x hx
  have := Finset.mem_Ico.1 (hT hx)
  have : x ≠ i := fun e => hn (e ▸ hx)
  exact Finset.mem_Ico.2 ⟨by omega, by omega⟩
have er : ∀ T : Finset ℤ, T ⊆ Finset.Ico 0 (i + 1) → T.erase i ⊆ Finset.Ico 0 i := by
  intro T hT
  exact wn _ (fun x hx => hT (Finset.mem_of_mem_erase hx)) (Finset.notMem_erase i T)
refine ⟨fun hlt => ?_, ?_⟩
· refine ⟨⟨T0, up _ _ hT0, e0⟩, ?_⟩
  rintro T ⟨h1, h2⟩
  by_cases hn : i ∈ T
  · exfalso
    have := Finset.single_le_sum (f := fun j => (A j).2) (fun j hj => by have := Finset.mem_Ico.1 (h1 hj); exact hw j this.1 this.2) hn
    omega
  · exact hmax T ⟨wn T h1 hn, h2⟩
· rintro ⟨hge, ⟨T1, hT1, e1⟩, hmax1⟩
  constructor
  · rcases le_total a ((A i).1 + b) with h | h
    · rw [max_eq_right h]
      have hn : i ∉ T1 := fun hh => by have := Finset.mem_Ico.1 (hT1.1 hh); omega
      refine ⟨insert i T1, ⟨?_, ?_⟩, ?_⟩
      · intro x hx
        rcases Finset.mem_insert.1 hx with rfl | hx
        · exact Finset.mem_Ico.2 ⟨hi, by omega⟩
        · exact (up _ _ hT1).1 hx
      · rw [Finset.sum_insert hn]; have := hT1.2; omega
      · rw [Finset.sum_insert hn, e1]
    · rw [max_eq_left h]
      exact ⟨T0, up _ _ hT0, e0⟩
  · rintro T ⟨h1, h2⟩
    by_cases hn : i ∈ T
    · have e := Finset.add_sum_erase T (fun j => (A j).2) hn
      have e' := Finset.add_sum_erase T (fun j => (A j).1) hn
      have := hmax1 (T.erase i) ⟨er T h1, by omega⟩
      have : ∑ j ∈ T, (A j).1 ≤ (A i).1 + b := by rw [← e']; omega
      exact le_trans this (le_max_right _ _)
    · exact le_trans (hmax T ⟨wn T h1 hn, h2⟩) (le_max_left _ _)
''')

fn('perm_T2_I_I_', 'arr[tuple[int,int]], arr[tuple[int,int]], int -> bool', 'fun A B n => (Finset.Ico 0 n).val.map A = (Finset.Ico 0 n).val.map B')
# B[0..m) is, in some order, a choice of the items i..n-1 of A with weight w and value v
fn('kfrom', 'arr[tuple[int,int]], int, int, arr[tuple[int,int]], int, int, int -> bool', """fun A i n B m w v => ∃ T : Finset ℤ, T ⊆ Finset.Ico i n ∧ T.val.map A = (Finset.Ico 0 m).val.map B ∧ ∑ j ∈ T, (A j).2 = w ∧ ∑ j ∈ T, (A j).1 = v""")
lemma('kf_zero', 'A:arr[tuple[int,int]], n:int, B:arr[tuple[int,int]]', 'kfrom(A, n, n, B, 0, 0, 0)', """
exact ⟨∅, by simp, by simp, by simp, by simp⟩
""")
lemma('kf_perm', 'A:arr[tuple[int,int]], i:int, n:int, B:arr[tuple[int,int]], C:arr[tuple[int,int]], m:int, w:int, v:int', 'implies(kfrom(A, i, n, B, m, w, v) and perm_T2_I_I_(C, B, m), kfrom(A, i, n, C, m, w, v))', """
rintro ⟨⟨T, h1, h2, h3, h4⟩, h⟩
exact ⟨T, h1, h2.trans h.symm, h3, h4⟩
""")
lemma('kf_skip', 'A:arr[tuple[int,int]], i:int, n:int, B:arr[tuple[int,int]], m:int, w:int, v:int', 'implies(kfrom(A, i, n, B, m, w, v), kfrom(A, i - 1, n, B, m, w, v))', """
rintro ⟨T, h1, h2, h3, h4⟩
exact ⟨T, fun x hx => by have := Finset.mem_Ico.1 (h1 hx); exact Finset.mem_Ico.2 ⟨by omega, this.2⟩, h2, h3, h4⟩
""")
lemma('kf_take', 'A:arr[tuple[int,int]], i:int, n:int, B:arr[tuple[int,int]], C:arr[tuple[int,int]], m:int, w:int, v:int', """implies(kfrom(A, i, n, B, m, w, v) and m >= 0 and i <= n and C[m] == A[i - 1] and forall(j, 0, m, C[j] == B[j], C[j]),
  kfrom(A, i - 1, n, C, m + 1, w + A[i - 1][1], v + A[i - 1][0]))""", """
rintro ⟨⟨T, h1, h2, h3, h4⟩, hm, hi, hC, hB⟩
have hn : i - 1 ∉ T := fun hh => by have := Finset.mem_Ico.1 (h1 hh); omega
refine ⟨insert (i - 1) T, ?_, ?_, ?_, ?_⟩
· intro x hx
  rcases Finset.mem_insert.1 hx with rfl | hx
  · exact Finset.mem_Ico.2 ⟨le_refl _, by omega⟩
  · have := Finset.mem_Ico.1 (h1 hx); exact Finset.mem_Ico.2 ⟨by omega, this.2⟩
· rw [Finset.insert_val_of_notMem hn, Multiset.map_cons, h2]
  have e : Finset.Ico 0 (m + 1) = insert m (Finset.Ico 0 m) := by
    ext x; simp only [Finset.mem_Ico, Finset.mem_insert]; omega
  rw [e, Finset.insert_val_of_notMem (by simp), Multiset.map_cons, hC]
  congr 1
  apply Multiset.map_congr rfl
  intro x hx
  have := Finset.mem_Ico.1 (Finset.mem_def.2 hx)
  exact (hB x this.1 this.2).symm
· rw [Finset.sum_insert hn, h3]; ring
· rw [Finset.sum_insert hn, h4]; ring
""")
