import Mathlib

/-! Lemmas for C19: the parameters of infinite families of codes. -/

open Finset

variable {K : Type*} [Field K]

/-- Words that satisfy the checks of the repetition code are constant. -/
theorem repetition_words {n : ℕ} (a : Fin n → K) (ha : ∀ i, a i ≠ 0) (x : Fin (n + 1) → K)
    (h : ∀ i : Fin n, a i * x i.castSucc + -a i * x i.succ = 0) : ∀ i, x i = x 0 := by
  intro i
  induction i using Fin.induction with
  | zero => rfl
  | succ i ih =>
    rw [← ih]
    have h1 := h i
    have : a i * (x i.castSucc - x i.succ) = 0 := by linear_combination h1
    rcases mul_eq_zero.mp this with h0 | h0
    · exact absurd h0 (ha i)
    · exact (sub_eq_zero.mp h0).symm

/-- Words of the repetition code on n + 1 bits: multiples of the all-ones word, of weight n + 1 unless zero. -/
theorem repetition_parameters {n : ℕ} [DecidableEq K] (x : Fin (n + 1) → K) (h : ∀ i, x i = x 0) :
    x = x 0 • (fun _ => (1 : K)) ∧ (x ≠ 0 → (univ.filter fun i => x i ≠ 0).card = n + 1) := by
  refine ⟨funext fun i => by simp [h i], fun hx => ?_⟩
  have h0 : x 0 ≠ 0 := fun h0 => hx (funext fun i => by simp [h i, h0])
  rw [Finset.filter_true_of_mem (fun i _ => by rw [h i]; exact h0)]
  simp

/-- The additional check of the ring code follows from those of the repetition code. -/
theorem ring_check {n : ℕ} (a : K) (x : Fin (n + 1) → K) (h : ∀ i, x i = x 0) : a * x (Fin.last n) + -a * x 0 = 0 := by
  rw [h (Fin.last n)]; ring

section hamming

variable {r : ℕ} {ι : Type*} [Fintype ι] [DecidableEq ι]

/-- Distance of a code whose columns are nonzero and pairwise not parallel. -/
theorem hamming_distance [DecidableEq K] (H : ι → (Fin r → K)) (nonzero : ∀ i, H i ≠ 0) (indep : ∀ i j (a : K), H j = a • H i → i = j)
    (x : ι → K) (hx : ∑ i, x i • H i = 0) (hne : x ≠ 0) : 3 ≤ (univ.filter fun i => x i ≠ 0).card := by
  have hs : ∑ i ∈ univ.filter (fun i => x i ≠ 0), x i • H i = 0 := by
    refine Eq.trans ?_ hx
    rw [Finset.sum_filter]
    refine Finset.sum_congr rfl fun i _ => ?_
    by_cases h : x i = 0 <;> simp [h]
  by_contra hlt
  have hc : (univ.filter fun i => x i ≠ 0).card ≤ 2 := by omega
  obtain ⟨i, hi⟩ := Function.ne_iff.mp hne
  have hmem : i ∈ univ.filter (fun i => x i ≠ 0) := by simpa using hi
  rcases Nat.lt_or_ge (univ.filter fun i => x i ≠ 0).card 2 with h1 | h2
  · have : (univ.filter fun i => x i ≠ 0).card = 1 := by
      have := Finset.card_pos.mpr ⟨i, hmem⟩; omega
    obtain ⟨j, hj⟩ := Finset.card_eq_one.mp this
    rw [hj] at hs hmem
    have hij : i = j := by simpa using hmem
    subst hij
    rw [Finset.sum_singleton] at hs
    rcases smul_eq_zero.mp hs with h | h
    · exact hi h
    · exact nonzero i h
  · have h2' : (univ.filter fun i => x i ≠ 0).card = 2 := le_antisymm hc h2
    obtain ⟨a, b, hab, hset⟩ := Finset.card_eq_two.mp h2'
    have ha : x a ≠ 0 := by
      have : a ∈ univ.filter (fun i => x i ≠ 0) := by rw [hset]; simp
      simpa using this
    have hb : x b ≠ 0 := by
      have : b ∈ univ.filter (fun i => x i ≠ 0) := by rw [hset]; simp
      simpa using this
    rw [hset, Finset.sum_pair hab] at hs
    apply hab
    apply indep a b (-(x b)⁻¹ * x a)
    have : x b • H b = -(x a • H a) := by rw [eq_neg_iff_add_eq_zero, add_comm]; exact hs
    calc H b = (x b)⁻¹ • (x b • H b) := by rw [smul_smul, inv_mul_cancel₀ hb, one_smul]
      _ = (-(x b)⁻¹ * x a) • H a := by rw [this, smul_neg, smul_smul, neg_mul, neg_smul]

/-- If the columns represent all directions (and there are at least two), then there is a word of weight three. -/
theorem hamming_attained [DecidableEq K] (H : ι → (Fin (r + 2) → K))
    (all : ∀ v : Fin (r + 2) → K, v ≠ 0 → ∃ i, ∃ a : K, a ≠ 0 ∧ v = a • H i) :
    ∃ x : ι → K, ∑ i, x i • H i = 0 ∧ (univ.filter fun i => x i ≠ 0).card = 3 := by
  set e0 : Fin (r + 2) → K := Pi.single 0 1 with he0
  set e1 : Fin (r + 2) → K := Pi.single 1 1 with he1
  have v0 : e0 0 = 1 := by simp [he0]
  have v1 : e0 1 = 0 := by simp [he0]
  have w0 : e1 0 = 0 := by simp [he1]
  have w1 : e1 1 = 1 := by simp [he1]
  obtain ⟨i, a, ha, hi⟩ := all e0 (fun h => by simp [h] at v0)
  obtain ⟨j, b, hb, hj⟩ := all e1 (fun h => by simp [h] at w1)
  obtain ⟨k, c, hc, hk⟩ := all (e0 + e1) (fun h => by have := congrFun h 0; simp [v0, w0] at this)
  have hij : i ≠ j := by
    rintro rfl
    have h0 := congrFun hi 0; have h1 := congrFun hj 0
    simp only [Pi.smul_apply, smul_eq_mul] at h0 h1
    rw [v0] at h0; rw [w0] at h1
    rcases mul_eq_zero.mp h1.symm with h | h
    · exact hb h
    · rw [h, mul_zero] at h0; exact one_ne_zero h0
  have hik : i ≠ k := by
    rintro rfl
    have h1 := congrFun hi 1; have h2 := congrFun hk 1
    simp only [Pi.smul_apply, Pi.add_apply, smul_eq_mul] at h1 h2
    rw [v1] at h1; rw [v1, w1] at h2
    rcases mul_eq_zero.mp h1.symm with h | h
    · exact ha h
    · rw [h, mul_zero, zero_add] at h2; exact one_ne_zero h2
  have hjk : j ≠ k := by
    rintro rfl
    have h1 := congrFun hj 0; have h2 := congrFun hk 0
    simp only [Pi.smul_apply, Pi.add_apply, smul_eq_mul] at h1 h2
    rw [w0] at h1; rw [v0, w0] at h2
    rcases mul_eq_zero.mp h1.symm with h | h
    · exact hb h
    · rw [h, mul_zero, add_zero] at h2; exact one_ne_zero h2
  refine ⟨Pi.single i a + Pi.single j b - Pi.single k c, ?_, ?_⟩
  · simp only [Pi.add_apply, Pi.sub_apply, add_smul, sub_smul, Finset.sum_add_distrib, Finset.sum_sub_distrib]
    simp only [Pi.single_apply, ite_smul, zero_smul, Finset.sum_ite_eq', Finset.mem_univ, if_true]
    rw [← hi, ← hj, ← hk]; simp
  · have : (univ.filter fun t => (Pi.single i a + Pi.single j b - Pi.single k c : ι → K) t ≠ 0) = {i, j, k} := by
      ext t
      simp only [Finset.mem_filter, Finset.mem_univ, true_and, Finset.mem_insert, Finset.mem_singleton, Pi.add_apply, Pi.sub_apply, Pi.single_apply]
      by_cases h1 : t = i
      · subst h1; simp [hij, hik, ha]
      · by_cases h2 : t = j
        · subst h2; simp [h1, hjk, hb]
        · by_cases h3 : t = k
          · subst h3; simp [h1, h2, hc]
          · simp [h1, h2, h3]
    rw [this, Finset.card_insert_of_notMem (by simp [hij, hik]), Finset.card_insert_of_notMem (by simp [hjk])]; simp

/-- If the columns represent all directions, then the checks are independent: the dimension is (number of columns) - r. -/
theorem hamming_dimension (H : ι → (Fin r → K)) (all : ∀ v : Fin r → K, v ≠ 0 → ∃ i, ∃ a : K, a ≠ 0 ∧ v = a • H i) :
    Module.finrank K (LinearMap.ker (Fintype.linearCombination K H)) + r = Fintype.card ι := by
  have hs : Function.Surjective (Fintype.linearCombination K H) := by
    intro v
    by_cases h : v = 0
    · exact ⟨0, by simp [h]⟩
    · obtain ⟨i, a, _, hv⟩ := all v h
      exact ⟨Pi.single i a, by simp [Fintype.linearCombination_apply, Pi.single_apply, ite_smul, hv]⟩
  have h1 := LinearMap.finrank_range_add_finrank_ker (Fintype.linearCombination K H)
  rw [LinearMap.range_eq_top.mpr hs, finrank_top] at h1
  simp at h1
  omega

/-- Every nonzero vector is a multiple of one whose first nonzero entry is 1. -/
theorem normalized_exists (v : Fin r → K) (hv : v ≠ 0) :
    ∃ (a : K) (w : Fin r → K), a ≠ 0 ∧ v = a • w ∧ ∃ t, w t = 1 ∧ ∀ s < t, w s = 0 := by
  classical
  have hex : ∃ t, v t ≠ 0 := Function.ne_iff.mp hv
  let S := univ.filter fun t => v t ≠ 0
  have hS : S.Nonempty := by obtain ⟨t, ht⟩ := hex; exact ⟨t, by simpa [S] using ht⟩
  let t := S.min' hS
  have ht : v t ≠ 0 := by have := S.min'_mem hS; simpa [S] using this
  refine ⟨v t, (v t)⁻¹ • v, ht, by rw [smul_smul, mul_inv_cancel₀ ht, one_smul], t, by simp [ht], fun s hs => ?_⟩
  have : v s = 0 := by
    by_contra h
    have : t ≤ s := S.min'_le s (by simpa [S] using h)
    exact absurd hs (not_lt.mpr this)
  simp [this]

/-- Parallel vectors whose first nonzero entries are 1 are equal. -/
theorem normalized_unique (v w : Fin r → K) (a : K) (h : w = a • v) (hv : ∃ t, v t = 1 ∧ ∀ s < t, v s = 0)
    (hw : ∃ t, w t = 1 ∧ ∀ s < t, w s = 0) : v = w := by
  obtain ⟨t, ht, ht'⟩ := hv
  obtain ⟨u, hu, hu'⟩ := hw
  have ha : a ≠ 0 := by
    rintro rfl
    rw [h] at hu; simp at hu
  have htu : t = u := by
    rcases lt_trichotomy t u with hlt | heq | hgt
    · have := hu' t hlt; rw [h] at this; simp [ht, ha] at this
    · exact heq
    · have := ht' u hgt; rw [h] at hu; simp [this] at hu
  subst htu
  rw [h] at hu; simp [ht] at hu
  rw [h, hu, one_smul]

omit [DecidableEq ι] in
/-- Adding an overall parity check to a binary code of distance at least 3 gives distance at least 4. -/
theorem extended_distance (x : ι → ZMod 2) (p : ZMod 2) (hp : p + ∑ i, x i = 0) (hx : 3 ≤ (univ.filter fun i => x i ≠ 0).card) :
    4 ≤ (if p ≠ 0 then 1 else 0) + (univ.filter fun i => x i ≠ 0).card := by
  have hs : ∑ i, x i = ((univ.filter fun i => x i ≠ 0).card : ZMod 2) := by
    rw [Finset.card_eq_sum_ones, Nat.cast_sum, Finset.sum_filter]
    refine Finset.sum_congr rfl fun i _ => ?_
    rcases (by decide : ∀ y : ZMod 2, y = 0 ∨ y = 1) (x i) with h | h <;> simp [h]
  by_cases h4 : 4 ≤ (univ.filter fun i => x i ≠ 0).card
  · omega
  · have h3 : (univ.filter fun i => x i ≠ 0).card = 3 := by omega
    have : p ≠ 0 := by
      rintro rfl
      rw [hs, h3] at hp
      exact absurd hp (by decide)
    simp [this, h3]

end hamming

section reedMuller

/-- Positions of words of length 2 ^ m: two halves. -/
def Idx : ℕ → Type
  | 0 => Unit
  | m + 1 => Idx m ⊕ Idx m

instance idxFintype : ∀ m, Fintype (Idx m)
  | 0 => inferInstanceAs (Fintype Unit)
  | m + 1 =>
    letI := idxFintype m
    inferInstanceAs (Fintype (Idx m ⊕ Idx m))

instance idxNonempty : ∀ m, Nonempty (Idx m)
  | 0 => inferInstanceAs (Nonempty Unit)
  | m + 1 =>
    letI := idxNonempty m
    inferInstanceAs (Nonempty (Idx m ⊕ Idx m))

theorem card_idx : ∀ m, Fintype.card (Idx m) = 2 ^ m
  | 0 => rfl
  | m + 1 => by
    have : Fintype.card (Idx (m + 1)) = Fintype.card (Idx m ⊕ Idx m) := rfl
    rw [this, Fintype.card_sum, card_idx m]; ring

/-- The word (u | w). -/
def glue {m : ℕ} (u w : Idx m → K) : Idx (m + 1) → K := Sum.elim u w

omit [Field K] in
@[simp] theorem glue_inl {m : ℕ} (u w : Idx m → K) (i : Idx m) : glue u w (Sum.inl i) = u i := rfl
omit [Field K] in
@[simp] theorem glue_inr {m : ℕ} (u w : Idx m → K) (i : Idx m) : glue u w (Sum.inr i) = w i := rfl

theorem glue_zero {m : ℕ} : glue (0 : Idx m → K) (0 + 0) = 0 := by
  funext i
  rcases i with i | i
  · exact glue_inl _ _ i
  · exact (glue_inr _ _ i).trans (show (0 : K) + 0 = 0 from add_zero 0)

/-- The words generated by the rows of ReedMullerCode.get_generator: all multiples of the constant word, all words,
or (u | u + v) with u, v from the smaller codes. -/
inductive RM : (r m : ℕ) → (Idx m → K) → Prop
  | const (m : ℕ) (a : K) : RM 0 m (fun _ => a)
  | all (m : ℕ) (x : Idx m → K) : RM m m x
  | plotkin (r m : ℕ) (u v : Idx m → K) (h : r + 1 ≤ m) (hu : RM (r + 1) m u) (hv : RM r m v) : RM (r + 1) (m + 1) (glue u (u + v))

open Classical in
/-- Number of nonzero entries. -/
noncomputable def wt {m : ℕ} (x : Idx m → K) : ℕ := ∑ i, if x i ≠ 0 then 1 else 0

theorem wt_glue {m : ℕ} (u w : Idx m → K) : wt (glue u w) = wt u + wt w := by
  unfold wt
  classical
  exact Fintype.sum_sum_type (fun i : Idx m ⊕ Idx m => if (Sum.elim u w i : K) ≠ 0 then 1 else 0)

theorem wt_pos {m : ℕ} (x : Idx m → K) (h : x ≠ 0) : 1 ≤ wt x := by
  obtain ⟨i, hi⟩ := Function.ne_iff.mp h
  unfold wt
  classical
  calc 1 = (if x i ≠ 0 then 1 else 0) := by simpa using hi
    _ ≤ _ := Finset.single_le_sum (f := fun i => if x i ≠ 0 then 1 else 0) (fun _ _ => Nat.zero_le _) (Finset.mem_univ i)

theorem wt_add {m : ℕ} (u v : Idx m → K) : wt v ≤ wt u + wt (u + v) := by
  unfold wt
  rw [← Finset.sum_add_distrib]
  refine Finset.sum_le_sum fun i _ => ?_
  by_cases hu : u i = 0 <;> by_cases hv : v i = 0 <;> simp [hu, hv]

/-- Reed-Muller codes have distance at least 2 ^ (m - r). -/
theorem reed_muller_distance {r m : ℕ} {x : Idx m → K} (h : RM r m x) (hx : x ≠ 0) : 2 ^ (m - r) ≤ wt x := by
  induction h with
  | const m a =>
    have ha : a ≠ 0 := fun h => hx (funext fun _ => h)
    unfold wt
    simp [ha, card_idx]
  | all m x => simpa using wt_pos x hx
  | plotkin r m u v h hu hv ihu ihv =>
    rw [wt_glue, Nat.add_sub_add_right]
    by_cases h0 : v = 0
    · subst h0
      have hu0 : u ≠ 0 := by
        rintro rfl
        exact hx glue_zero
      have := ihu hu0
      have e : m - r = (m - (r + 1)) + 1 := by omega
      rw [e, pow_succ, add_zero]
      omega
    · exact le_trans (ihv h0) (wt_add u v)

/-- The distance is attained. -/
theorem reed_muller_attained : ∀ (m r : ℕ), r ≤ m → ∃ x : Idx m → K, RM r m x ∧ wt x = 2 ^ (m - r)
  | m, 0, _ => ⟨fun _ => 1, RM.const m 1, by unfold wt; simp [card_idx]⟩
  | 0, r + 1, h => absurd h (by omega)
  | m + 1, r + 1, h => by
    by_cases hr : r = m
    · subst hr
      classical
      obtain ⟨i⟩ := idxNonempty (r + 1)
      refine ⟨Pi.single i 1, RM.all _ _, ?_⟩
      unfold wt
      simp [Pi.single_apply]
    · obtain ⟨v, hv, hw⟩ := reed_muller_attained m r (by omega)
      have hz : RM (r + 1) m (0 : Idx m → K) := by
        clear hv hw v
        have : ∀ (m r : ℕ), r ≤ m → RM r m (0 : Idx m → K) := by
          intro m
          induction m with
          | zero => intro r hr; obtain rfl : r = 0 := by omega
                    exact RM.const 0 0
          | succ m ih =>
            intro r hr
            rcases r with _ | r
            · exact RM.const _ 0
            · by_cases h : r = m
              · subst h; exact RM.all _ _
              · have := RM.plotkin r m (0 : Idx m → K) 0 (by omega) (ih _ (by omega)) (ih _ (by omega))
                rwa [glue_zero] at this
        exact this m (r + 1) (by omega)
      refine ⟨glue 0 (0 + v), RM.plotkin r m 0 v (by omega) hz hv, ?_⟩
      rw [wt_glue, zero_add, hw, Nat.add_sub_add_right]
      unfold wt; simp

/-- The rows of [[A, A], [0, B]]. -/
def plotkinRows {m : ℕ} {ι κ : Type*} (A : ι → Idx m → K) (B : κ → Idx m → K) : ι ⊕ κ → Idx (m + 1) → K
  | Sum.inl i => glue (A i) (A i)
  | Sum.inr j => glue 0 (B j)

/-- The rows of [[A, A], [0, B]] are independent if those of A and B are. -/
theorem plotkin_independent {m : ℕ} {ι κ : Type*} (A : ι → Idx m → K) (B : κ → Idx m → K) (hA : LinearIndependent K A)
    (hB : LinearIndependent K B) : LinearIndependent K (plotkinRows A B) := by
  rw [linearIndependent_iff'] at *
  classical
  intro s g hs
  have key : ∀ t : Idx (m + 1), ∑ i ∈ s, g i * plotkinRows A B i t = 0 := by
    intro t
    have h : (∑ i ∈ s, g i • plotkinRows A B i) t = 0 := by rw [hs]; rfl
    rw [Finset.sum_apply] at h
    exact h
  have hsplit : ∀ f : ι ⊕ κ → K, ∑ i ∈ s, f i = ∑ i ∈ s.toLeft, f (Sum.inl i) + ∑ j ∈ s.toRight, f (Sum.inr j) := by
    intro f
    conv_lhs => rw [← Finset.toLeft_disjSum_toRight (u := s)]
    rw [Finset.sum_disjSum]
  have hl : ∀ i ∈ s.toLeft, g (Sum.inl i) = 0 := by
    apply hA s.toLeft (fun i => g (Sum.inl i))
    funext t
    have h := key (Sum.inl t)
    rw [hsplit] at h
    simp only [plotkinRows, glue_inl, Pi.zero_apply, mul_zero, Finset.sum_const_zero, add_zero] at h
    rw [Finset.sum_apply]
    exact h
  have hr : ∀ j ∈ s.toRight, g (Sum.inr j) = 0 := by
    apply hB s.toRight (fun j => g (Sum.inr j))
    funext t
    have h := key (Sum.inr t)
    rw [hsplit, Finset.sum_eq_zero (fun i hi => by rw [hl i hi, zero_mul])] at h
    simp only [plotkinRows, glue_inr, zero_add] at h
    rw [Finset.sum_apply]
    exact h
  intro i hi
  rcases i with i | j
  · exact hl i (by simpa using hi)
  · exact hr j (by simpa using hi)

/-- The number of rows obeys the recursion of the binomial sums. -/
theorem plotkin_rows (r m : ℕ) : (∑ i ∈ range (r + 2), (m + 1).choose i) = (∑ i ∈ range (r + 2), m.choose i) + ∑ i ∈ range (r + 1), m.choose i := by
  rw [Finset.sum_range_succ' (fun i => (m + 1).choose i), Finset.sum_range_succ' (fun i => m.choose i)]
  simp only [Nat.choose_succ_succ', Finset.sum_add_distrib, Nat.choose_zero_right]
  omega

end reedMuller

/-! Iceberg codes: the sum of all bits is the only check of either type. -/

section iceberg

variable {ι : Type*} [Fintype ι] [DecidableEq ι]

/-- An operator of weight one never commutes with the check. -/
theorem iceberg_distance (x : ι → ZMod 2) (closed : ∑ i, x i = 0) (nontrivial : x ≠ 0) :
    2 ≤ (univ.filter fun i => x i ≠ 0).card := by
  by_contra hlt
  push Not at hlt
  have hpos : 0 < (univ.filter fun i => x i ≠ 0).card := by
    rw [Finset.card_pos]
    by_contra he
    rw [Finset.not_nonempty_iff_eq_empty, Finset.filter_eq_empty_iff] at he
    exact nontrivial (funext fun i => by simpa using he (Finset.mem_univ i))
  obtain ⟨a, ha⟩ := Finset.card_eq_one.mp (show (univ.filter fun i => x i ≠ 0).card = 1 by omega)
  have h1 : ∑ i, x i = x a := by
    rw [← Finset.sum_filter_ne_zero, ha, Finset.sum_singleton]
  have h2 : a ∈ univ.filter fun i => x i ≠ 0 := by rw [ha]; simp
  exact (Finset.mem_filter.mp h2).2 (h1 ▸ closed)

/-- With more than two qubits the operators of weight two are logical operators: closed, and no multiple of the check. -/
theorem iceberg_attained (a b c : ι) (hab : a ≠ b) (hca : c ≠ a) (hcb : c ≠ b) :
    let x : ι → ZMod 2 := Pi.single a 1 + Pi.single b 1
    (∑ i, x i = 0) ∧ (x ≠ 0) ∧ (x ≠ fun _ => 1) ∧ (univ.filter fun i => x i ≠ 0).card = 2 := by
  intro x
  have hx : ∀ i, x i = if i = a then 1 else if i = b then 1 else 0 := by
    intro i
    by_cases h1 : i = a
    · subst h1; simp [x, Pi.single_apply, hab]
    · by_cases h2 : i = b
      · subst h2; simp [x, Pi.single_apply, h1]
      · simp [x, Pi.single_apply, h1, h2]
  refine ⟨?_, ?_, ?_, ?_⟩
  · simp only [x, Pi.add_apply, Finset.sum_add_distrib, Finset.sum_pi_single', Finset.mem_univ, if_true]
    decide
  · intro h
    have := congrFun h a
    simp [hx] at this
  · intro h
    have := congrFun h c
    simp [hx, hca, hcb] at this
  · have : (univ.filter fun i => x i ≠ 0) = {a, b} := by
      ext i
      simp only [hx, Finset.mem_filter, Finset.mem_univ, true_and, Finset.mem_insert, Finset.mem_singleton]
      by_cases h1 : i = a <;> by_cases h2 : i = b <;> simp [h1, h2]
    rw [this, Finset.card_pair hab]

end iceberg
