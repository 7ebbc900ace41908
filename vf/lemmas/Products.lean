import Mathlib

/-!
Hypergraph products of two matrices over any field (C19).

An operator of one type is a pair `(A, B)` of matrices, one entry for each qudit of the two sectors. The stabilizers of
this type are `(H₁ᵀ S, S H₂ᵀ)`; an operator satisfies the checks of the other type iff `A H₂ᵀ = H₁ᵀ B` (up to the sign
of the second sector). Subsystem products only have the first sector.
-/

open Matrix Finset

set_option linter.unusedSectionVars false

namespace Products

variable {F : Type*} [Field F] {m₁ n₁ m₂ n₂ : Type*}
  [Fintype m₁] [Fintype n₁] [Fintype m₂] [Fintype n₂] [DecidableEq m₁] [DecidableEq n₁] [DecidableEq m₂] [DecidableEq n₂]

/-- Every matrix has a generalized inverse. -/
theorem exists_inverse {m n : Type*} [Fintype m] [Fintype n] [DecidableEq m] [DecidableEq n] (H : Matrix m n F) : ∃ G : Matrix n m F, H * G * H = H := by
  let f := Matrix.toLin' H
  obtain ⟨s, hs⟩ := f.rangeRestrict.exists_rightInverse_of_surjective f.range_rangeRestrict
  obtain ⟨g, hg⟩ := s.exists_extend
  refine ⟨LinearMap.toMatrix' g, ?_⟩
  apply Matrix.toLin'.injective
  rw [Matrix.toLin'_mul, Matrix.toLin'_mul, Matrix.toLin'_toMatrix']
  refine LinearMap.ext fun x => ?_
  have h1 : g (f x) = s (f.rangeRestrict x) := by
    have := LinearMap.congr_fun hg (f.rangeRestrict x)
    simpa using this
  have h2 : f (s (f.rangeRestrict x)) = f x := by
    have := congrArg Subtype.val (LinearMap.congr_fun hs (f.rangeRestrict x))
    simpa using this
  simp only [LinearMap.comp_apply]
  show f (g (f x)) = f x
  rw [h1, h2]

/-- The operator satisfies the checks of the other type. -/
def Closed (H₁ : Matrix m₁ n₁ F) (H₂ : Matrix m₂ n₂ F) (A : Matrix n₁ n₂ F) (B : Matrix m₁ m₂ F) : Prop := A * H₂ᵀ = H₁ᵀ * B

/-- The operator is a product of stabilizers. -/
def Trivial (H₁ : Matrix m₁ n₁ F) (H₂ : Matrix m₂ n₂ F) (A : Matrix n₁ n₂ F) (B : Matrix m₁ m₂ F) : Prop := ∃ S : Matrix m₁ n₂ F, A = H₁ᵀ * S ∧ B = S * H₂ᵀ

theorem trivial_closed {H₁ : Matrix m₁ n₁ F} {H₂ : Matrix m₂ n₂ F} {A : Matrix n₁ n₂ F} {B : Matrix m₁ m₂ F} (h : Trivial H₁ H₂ A B) : Closed H₁ H₂ A B := by
  obtain ⟨S, rfl, rfl⟩ := h
  exact Matrix.mul_assoc _ _ _

/-- Words of the first code, applied to the first sector, give words of the second code. -/
theorem words {H₁ : Matrix m₁ n₁ F} {H₂ : Matrix m₂ n₂ F} {A : Matrix n₁ n₂ F} {B : Matrix m₁ m₂ F} (h : Closed H₁ H₂ A B)
    {f : n₁ → F} (hf : H₁ *ᵥ f = 0) : H₂ *ᵥ (f ᵥ* A) = 0 := by
  rw [← Matrix.vecMul_transpose, Matrix.vecMul_vecMul, h, ← Matrix.vecMul_vecMul, Matrix.vecMul_transpose, hf, Matrix.zero_vecMul]

theorem cowords {H₁ : Matrix m₁ n₁ F} {H₂ : Matrix m₂ n₂ F} {A : Matrix n₁ n₂ F} {B : Matrix m₁ m₂ F} (h : Closed H₁ H₂ A B)
    {g : m₂ → F} (hg : H₂ᵀ *ᵥ g = 0) : H₁ᵀ *ᵥ (B *ᵥ g) = 0 := by
  rw [Matrix.mulVec_mulVec, ← h, ← Matrix.mulVec_mulVec, hg, Matrix.mulVec_zero]

/-- What no word of the first code sees is a product of rows of its checks. -/
theorem unseen {H₁ : Matrix m₁ n₁ F} {A : Matrix n₁ n₂ F} (h : ∀ f, H₁ *ᵥ f = 0 → f ᵥ* A = 0) : ∃ S : Matrix m₁ n₂ F, A = H₁ᵀ * S := by
  obtain ⟨G, hG⟩ := exists_inverse H₁
  refine ⟨Gᵀ * A, ?_⟩
  have : Aᵀ * ((1 : Matrix n₁ n₁ F) - G * H₁) = 0 := by
    ext i j
    have hk : H₁ *ᵥ (fun x => ((1 : Matrix n₁ n₁ F) - G * H₁) x j) = 0 := by
      have : H₁ * ((1 : Matrix n₁ n₁ F) - G * H₁) = 0 := by rw [Matrix.mul_sub, Matrix.mul_one, ← Matrix.mul_assoc, hG, sub_self]
      ext a
      exact congrFun (congrFun this a) j
    have := congrFun (h _ hk) i
    simp only [Matrix.vecMul, dotProduct, Pi.zero_apply] at this
    simp only [Matrix.mul_apply, Matrix.transpose_apply, Matrix.zero_apply]
    rw [← this]
    exact sum_congr rfl fun x _ => mul_comm _ _
  rw [Matrix.mul_sub, Matrix.mul_one, sub_eq_zero] at this
  have t := congrArg Matrix.transpose this
  simpa [Matrix.transpose_mul, Matrix.mul_assoc] using t

/-- An operator that satisfies the checks is trivial iff words and cowords see nothing. -/
theorem trivial_iff {H₁ : Matrix m₁ n₁ F} {H₂ : Matrix m₂ n₂ F} {A : Matrix n₁ n₂ F} {B : Matrix m₁ m₂ F} (h : Closed H₁ H₂ A B) :
    Trivial H₁ H₂ A B ↔ (∀ f, H₁ *ᵥ f = 0 → f ᵥ* A = 0) ∧ ∀ g, H₂ᵀ *ᵥ g = 0 → B *ᵥ g = 0 := by
  constructor
  · rintro ⟨S, rfl, rfl⟩
    refine ⟨fun f hf => ?_, fun g hg => ?_⟩
    · rw [← Matrix.vecMul_vecMul, Matrix.vecMul_transpose, hf, Matrix.zero_vecMul]
    · rw [← Matrix.mulVec_mulVec, hg, Matrix.mulVec_zero]
  · rintro ⟨hf, hg⟩
    obtain ⟨S, rfl⟩ := unseen hf
    -- what is left in the second sector
    have hB : H₁ᵀ * (B - S * H₂ᵀ) = 0 := by
      rw [Matrix.mul_sub, ← Matrix.mul_assoc, ← h, sub_self]
    have hg' : ∀ g, H₂ᵀ *ᵥ g = 0 → g ᵥ* (B - S * H₂ᵀ)ᵀ = 0 := by
      intro g h'
      rw [Matrix.vecMul_transpose, Matrix.sub_mulVec, hg g h', ← Matrix.mulVec_mulVec, h', Matrix.mulVec_zero, sub_zero]
    obtain ⟨T, hT⟩ := unseen (H₁ := H₂ᵀ) hg'
    obtain ⟨G, hG⟩ := exists_inverse H₁
    have hT' : B - S * H₂ᵀ = Tᵀ * H₂ᵀ := by
      have := congrArg Matrix.transpose hT
      simpa [Matrix.transpose_mul] using this
    have hP : H₁ᵀ * (1 - Gᵀ * H₁ᵀ) = 0 := by
      have := congrArg Matrix.transpose hG
      simp only [Matrix.transpose_mul] at this
      rw [Matrix.mul_sub, Matrix.mul_one, this, sub_self]
    refine ⟨S + (1 - Gᵀ * H₁ᵀ) * Tᵀ, ?_, ?_⟩
    · rw [Matrix.mul_add, ← Matrix.mul_assoc, hP, Matrix.zero_mul, add_zero]
    · rw [Matrix.add_mul, Matrix.mul_assoc, ← hT', Matrix.sub_mul, Matrix.one_mul, Matrix.mul_assoc, hB, Matrix.mul_zero, sub_zero]
      abel

/-- The number of nonzero entries. -/
noncomputable def weight {n : Type*} [Fintype n] (x : n → F) : ℕ := by classical exact (univ.filter fun i => x i ≠ 0).card

noncomputable def weight₂ {m n : Type*} [Fintype m] [Fintype n] (A : Matrix m n F) : ℕ := by
  classical exact (univ.filter fun p : m × n => A p.1 p.2 ≠ 0).card

theorem weight_columns {m n : Type*} [Fintype m] [Fintype n] (A : Matrix m n F) (f : m → F) : weight (f ᵥ* A) ≤ weight₂ A := by
  classical
  unfold weight weight₂
  have : ∀ j, (f ᵥ* A) j ≠ 0 → ∃ i, A i j ≠ 0 := by
    intro j h
    by_contra h'
    push Not at h'
    exact h (by simp [Matrix.vecMul, dotProduct, h'])
  have sub : (univ.filter fun j => (f ᵥ* A) j ≠ 0) ⊆ (univ.filter fun p : m × n => A p.1 p.2 ≠ 0).image Prod.snd := by
    intro j hj
    obtain ⟨i, hi⟩ := this j (mem_filter.mp hj).2
    exact mem_image.mpr ⟨(i, j), by simpa using hi, rfl⟩
  exact (card_le_card sub).trans card_image_le

theorem weight_rows {m n : Type*} [Fintype m] [Fintype n] (A : Matrix m n F) (g : n → F) : weight (A *ᵥ g) ≤ weight₂ A := by
  classical
  unfold weight weight₂
  have : ∀ i, (A *ᵥ g) i ≠ 0 → ∃ j, A i j ≠ 0 := by
    intro i h
    by_contra h'
    push Not at h'
    exact h (by simp [Matrix.mulVec, dotProduct, h'])
  have sub : (univ.filter fun i => (A *ᵥ g) i ≠ 0) ⊆ (univ.filter fun p : m × n => A p.1 p.2 ≠ 0).image Prod.fst := by
    intro i hi
    obtain ⟨j, hj⟩ := this i (mem_filter.mp hi).2
    exact mem_image.mpr ⟨(i, j), by simpa using hj, rfl⟩
  exact (card_le_card sub).trans card_image_le

/-- Distance: a nontrivial operator is at least as heavy as a word of the second code or a word of the transpose of the first code. -/
theorem distance {H₁ : Matrix m₁ n₁ F} {H₂ : Matrix m₂ n₂ F} {A : Matrix n₁ n₂ F} {B : Matrix m₁ m₂ F} (h : Closed H₁ H₂ A B) (hn : ¬ Trivial H₁ H₂ A B) :
    (∃ w : n₂ → F, w ≠ 0 ∧ H₂ *ᵥ w = 0 ∧ (∃ f, f ≠ 0 ∧ H₁ *ᵥ f = 0) ∧ weight w ≤ weight₂ A + weight₂ B) ∨
    (∃ w : m₁ → F, w ≠ 0 ∧ H₁ᵀ *ᵥ w = 0 ∧ (∃ g, g ≠ 0 ∧ H₂ᵀ *ᵥ g = 0) ∧ weight w ≤ weight₂ A + weight₂ B) := by
  rw [trivial_iff h, not_and_or] at hn
  push Not at hn
  rcases hn with ⟨f, hf, hne⟩ | ⟨g, hg, hne⟩
  · refine Or.inl ⟨f ᵥ* A, hne, words h hf, ⟨f, ?_, hf⟩, (weight_columns A f).trans (Nat.le_add_right _ _)⟩
    rintro rfl
    exact hne (Matrix.zero_vecMul A)
  · refine Or.inr ⟨B *ᵥ g, hne, cowords h hg, ⟨g, ?_, hg⟩, (weight_rows B g).trans (Nat.le_add_left _ _)⟩
    rintro rfl
    exact hne (Matrix.mulVec_zero B)

/-- Words of the second code, put on one row of the first sector, are nontrivial operators of the same weight. -/
theorem attained {H₁ : Matrix m₁ n₁ F} {H₂ : Matrix m₂ n₂ F} {w : n₂ → F} (hw : w ≠ 0) (hw' : H₂ *ᵥ w = 0) {f : n₁ → F} (hf : f ≠ 0) (hf' : H₁ *ᵥ f = 0) :
    ∃ A : Matrix n₁ n₂ F, Closed H₁ H₂ A 0 ∧ ¬ Trivial H₁ H₂ A 0 ∧ weight₂ A = weight w := by
  classical
  obtain ⟨i, hi⟩ := Function.ne_iff.mp hf
  let A : Matrix n₁ n₂ F := Matrix.of fun a j => if a = i then w j else 0
  have hc : Closed H₁ H₂ A 0 := by
    unfold Closed
    rw [Matrix.mul_zero]
    ext a b
    have := congrFun hw' b
    simp only [Matrix.mulVec, dotProduct, Pi.zero_apply] at this
    by_cases h : a = i
    · simp only [Matrix.mul_apply, A, Matrix.of_apply, if_pos h, Matrix.transpose_apply, Matrix.zero_apply]
      rw [← this]
      exact sum_congr rfl fun x _ => mul_comm _ _
    · simp [Matrix.mul_apply, A, h]
  refine ⟨A, hc, fun ht => ?_, ?_⟩
  · have := ((trivial_iff hc).mp ht).1 f hf'
    apply hw
    ext j
    have := congrFun this j
    simp only [Matrix.vecMul, dotProduct, A, Matrix.of_apply, mul_ite, mul_zero, sum_ite_eq', mem_univ, if_true, Pi.zero_apply] at this
    exact (mul_eq_zero.mp this).resolve_left hi
  · unfold weight₂ weight
    rw [← card_image_of_injective (univ.filter fun j => w j ≠ 0) (f := fun j => (i, j)) (fun a b h => (Prod.mk.inj h).2)]
    congr 1
    ext ⟨a, j⟩
    simp only [mem_filter, mem_univ, true_and, mem_image, A, Matrix.of_apply, Prod.mk.injEq]
    by_cases h : a = i
    · subst h; simp
    · simp [h, Ne.symm h]

/-- The other sector. -/
theorem attained' {H₁ : Matrix m₁ n₁ F} {H₂ : Matrix m₂ n₂ F} {w : m₁ → F} (hw : w ≠ 0) (hw' : H₁ᵀ *ᵥ w = 0) {g : m₂ → F} (hg : g ≠ 0) (hg' : H₂ᵀ *ᵥ g = 0) :
    ∃ B : Matrix m₁ m₂ F, Closed H₁ H₂ 0 B ∧ ¬ Trivial H₁ H₂ 0 B ∧ weight₂ B = weight w := by
  classical
  obtain ⟨i, hi⟩ := Function.ne_iff.mp hg
  let B : Matrix m₁ m₂ F := Matrix.of fun a b => if b = i then w a else 0
  have hc : Closed H₁ H₂ 0 B := by
    unfold Closed
    rw [Matrix.zero_mul]
    ext a b
    have := congrFun hw' a
    simp only [Matrix.mulVec, dotProduct, Pi.zero_apply] at this
    by_cases h : b = i
    · simp only [Matrix.mul_apply, B, Matrix.of_apply, if_pos h, Matrix.zero_apply]
      exact this.symm
    · simp [Matrix.mul_apply, B, h]
  refine ⟨B, hc, fun ht => ?_, ?_⟩
  · have := ((trivial_iff hc).mp ht).2 g hg'
    apply hw
    ext j
    have := congrFun this j
    simp only [Matrix.mulVec, dotProduct, B, Matrix.of_apply, ite_mul, zero_mul, sum_ite_eq', mem_univ, if_true, Pi.zero_apply] at this
    exact (mul_eq_zero.mp this).resolve_right hi
  · unfold weight₂ weight
    rw [← card_image_of_injective (univ.filter fun j => w j ≠ 0) (f := fun j => (j, i)) (fun a b h => (Prod.mk.inj h).1)]
    congr 1
    ext ⟨a, b⟩
    simp only [mem_filter, mem_univ, true_and, mem_image, B, Matrix.of_apply, Prod.mk.injEq]
    by_cases h : b = i
    · subst h; simp
    · simp [h, Ne.symm h]

/-! Number of logical qudits. -/

/-- Operators that satisfy the checks. -/
def closed (H₁ : Matrix m₁ n₁ F) (H₂ : Matrix m₂ n₂ F) : Submodule F (Matrix n₁ n₂ F × Matrix m₁ m₂ F) where
  carrier := {p | Closed H₁ H₂ p.1 p.2}
  add_mem' := by
    intro a b ha hb
    simp only [Set.mem_ofPred_eq, Closed, Prod.fst_add, Prod.snd_add, Matrix.add_mul, Matrix.mul_add] at *
    rw [ha, hb]
  zero_mem' := by simp [Closed]
  smul_mem' := by
    intro c a ha
    simp only [Set.mem_ofPred_eq, Closed, Prod.smul_fst, Prod.smul_snd, Matrix.smul_mul, Matrix.mul_smul] at *
    rw [ha]

abbrev ker {m n : Type*} [Fintype m] [Fintype n] (H : Matrix m n F) : Submodule F (n → F) := LinearMap.ker H.mulVecLin

theorem mem_ker' {m n : Type*} [Fintype m] [Fintype n] {H : Matrix m n F} {x : n → F} : x ∈ ker H ↔ H *ᵥ x = 0 := by
  rw [LinearMap.mem_ker, Matrix.mulVecLin_apply]

/-- What words and cowords see of an operator. -/
noncomputable def observe (H₁ : Matrix m₁ n₁ F) (H₂ : Matrix m₂ n₂ F) :
    closed H₁ H₂ →ₗ[F] (ker H₁ →ₗ[F] ker H₂) × (ker H₂ᵀ →ₗ[F] ker H₁ᵀ) where
  toFun p :=
    (((Matrix.vecMulLinear p.1.1).restrict (fun f hf => by
        rw [mem_ker'] at hf ⊢
        exact words p.2 hf)),
     ((Matrix.mulVecLin p.1.2).restrict (fun g hg => by
        rw [mem_ker'] at hg ⊢
        exact cowords p.2 hg)))
  map_add' := by
    intro a b
    refine Prod.ext ?_ ?_ <;> refine LinearMap.ext fun x => Subtype.ext ?_
    · simp [LinearMap.restrict_apply]
    · simp [LinearMap.restrict_apply]
  map_smul' := by
    intro c a
    refine Prod.ext ?_ ?_ <;> refine LinearMap.ext fun x => Subtype.ext ?_
    · simp [LinearMap.restrict_apply]
    · simp [LinearMap.restrict_apply]

theorem observe_eq_zero {H₁ : Matrix m₁ n₁ F} {H₂ : Matrix m₂ n₂ F} (p : closed H₁ H₂) :
    observe H₁ H₂ p = 0 ↔ Trivial H₁ H₂ p.1.1 p.1.2 := by
  rw [trivial_iff p.2, Prod.ext_iff]
  refine and_congr ⟨fun h f hf => ?_, fun h => ?_⟩ ⟨fun h g hg => ?_, fun h => ?_⟩
  · exact congrArg Subtype.val (LinearMap.congr_fun h ⟨f, mem_ker'.mpr hf⟩)
  · exact LinearMap.ext fun f => Subtype.ext (h f (mem_ker'.mp f.2))
  · exact congrArg Subtype.val (LinearMap.congr_fun h ⟨g, mem_ker'.mpr hg⟩)
  · exact LinearMap.ext fun g => Subtype.ext (h g (mem_ker'.mp g.2))

theorem observe_surjective (H₁ : Matrix m₁ n₁ F) (H₂ : Matrix m₂ n₂ F) : Function.Surjective (observe H₁ H₂) := by
  rintro ⟨φ, ψ⟩
  obtain ⟨φ', hφ⟩ := ((ker H₂).subtype.comp φ).exists_extend
  obtain ⟨ψ', hψ⟩ := ((ker H₁ᵀ).subtype.comp ψ).exists_extend
  obtain ⟨G₁, hG₁⟩ := exists_inverse H₁
  obtain ⟨G₂, hG₂⟩ := exists_inverse H₂
  -- projections to the kernels
  let P : Matrix n₁ n₁ F := 1 - G₁ * H₁
  let Q : Matrix m₂ m₂ F := 1 - G₂ᵀ * H₂ᵀ
  have hP : H₁ * P = 0 := by simp only [P]; rw [Matrix.mul_sub, Matrix.mul_one, ← Matrix.mul_assoc, hG₁, sub_self]
  have hQ : H₂ᵀ * Q = 0 := by
    have := congrArg Matrix.transpose hG₂
    simp only [Matrix.transpose_mul] at this
    simp only [Q]; rw [Matrix.mul_sub, Matrix.mul_one, this, sub_self]
  have hPf : ∀ f, H₁ *ᵥ f = 0 → P *ᵥ f = f := fun f hf => by
    simp only [P]; rw [Matrix.sub_mulVec, Matrix.one_mulVec, ← Matrix.mulVec_mulVec, hf, Matrix.mulVec_zero, sub_zero]
  have hQg : ∀ g, H₂ᵀ *ᵥ g = 0 → Q *ᵥ g = g := fun g hg => by
    simp only [Q]; rw [Matrix.sub_mulVec, Matrix.one_mulVec, ← Matrix.mulVec_mulVec, hg, Matrix.mulVec_zero, sub_zero]
  have inP : ∀ x, P *ᵥ x ∈ ker H₁ := fun x => mem_ker'.mpr (by rw [Matrix.mulVec_mulVec, hP, Matrix.zero_mulVec])
  have inQ : ∀ x, Q *ᵥ x ∈ ker H₂ᵀ := fun x => mem_ker'.mpr (by rw [Matrix.mulVec_mulVec, hQ, Matrix.zero_mulVec])
  let a : (n₁ → F) →ₗ[F] (n₂ → F) := φ' ∘ₗ P.mulVecLin
  let b : (m₂ → F) →ₗ[F] (m₁ → F) := ψ' ∘ₗ Q.mulVecLin
  have ha : ∀ x, H₂ *ᵥ a x = 0 := fun x => by
    have := LinearMap.congr_fun hφ ⟨P *ᵥ x, inP x⟩
    simp only [LinearMap.comp_apply, Submodule.subtype_apply] at this
    show H₂ *ᵥ φ' (P *ᵥ x) = 0
    rw [this]
    exact mem_ker'.mp (φ _).2
  have hb : ∀ x, H₁ᵀ *ᵥ b x = 0 := fun x => by
    have := LinearMap.congr_fun hψ ⟨Q *ᵥ x, inQ x⟩
    simp only [LinearMap.comp_apply, Submodule.subtype_apply] at this
    show H₁ᵀ *ᵥ ψ' (Q *ᵥ x) = 0
    rw [this]
    exact mem_ker'.mp (ψ _).2
  let A : Matrix n₁ n₂ F := (LinearMap.toMatrix' a)ᵀ
  let B : Matrix m₁ m₂ F := LinearMap.toMatrix' b
  have hA : ∀ x, x ᵥ* A = a x := fun x => by
    simp only [A]; rw [Matrix.vecMul_transpose, LinearMap.toMatrix'_mulVec]
  have hB : ∀ x, B *ᵥ x = b x := fun x => by simp only [B]; rw [LinearMap.toMatrix'_mulVec]
  have hc : Closed H₁ H₂ A B := by
    have l : A * H₂ᵀ = 0 := by
      have : (H₂ * Aᵀ) = 0 := by
        refine Matrix.ext_of_mulVec_single fun i => ?_
        rw [← Matrix.mulVec_mulVec, Matrix.mulVec_transpose, hA, ha, Matrix.zero_mulVec]
      have := congrArg Matrix.transpose this
      simpa [Matrix.transpose_mul] using this
    have r : H₁ᵀ * B = 0 := by
      refine Matrix.ext_of_mulVec_single fun i => ?_
      rw [← Matrix.mulVec_mulVec, hB, hb, Matrix.zero_mulVec]
    unfold Closed
    rw [l, r]
  refine ⟨⟨(A, B), hc⟩, Prod.ext ?_ ?_⟩ <;> refine LinearMap.ext fun x => Subtype.ext ?_
  · show x.1 ᵥ* A = φ x
    rw [hA]
    show φ' (P *ᵥ x.1) = φ x
    rw [hPf _ (mem_ker'.mp x.2)]
    simpa using LinearMap.congr_fun hφ x
  · show B *ᵥ x.1 = ψ x
    rw [hB]
    show ψ' (Q *ᵥ x.1) = ψ x
    rw [hQg _ (mem_ker'.mp x.2)]
    simpa using LinearMap.congr_fun hψ x

theorem count {V K₁ K₂ K₃ K₄ : Type*} [AddCommGroup V] [AddCommGroup K₁] [AddCommGroup K₂] [AddCommGroup K₃] [AddCommGroup K₄]
    [Module F V] [Module F K₁] [Module F K₂] [Module F K₃] [Module F K₄] [FiniteDimensional F V] [FiniteDimensional F K₁]
    [FiniteDimensional F K₂] [FiniteDimensional F K₃] [FiniteDimensional F K₄]
    (f : V →ₗ[F] (K₁ →ₗ[F] K₂) × (K₃ →ₗ[F] K₄)) (hf : Function.Surjective f) :
    Module.finrank F V = Module.finrank F (LinearMap.ker f) +
      (Module.finrank F K₁ * Module.finrank F K₂ + Module.finrank F K₃ * Module.finrank F K₄) := by
  have h := LinearMap.finrank_range_add_finrank_ker f
  rw [LinearMap.range_eq_top.mpr hf, finrank_top, Module.finrank_prod, Module.finrank_linearMap, Module.finrank_linearMap] at h
  rw [← h, add_comm]

/-- The number of logical qudits: operators that satisfy the checks, up to stabilizers. -/
theorem dimension (H₁ : Matrix m₁ n₁ F) (H₂ : Matrix m₂ n₂ F) :
    Module.finrank F (closed H₁ H₂) = Module.finrank F (LinearMap.ker (observe H₁ H₂)) +
      (Module.finrank F (ker H₁) * Module.finrank F (ker H₂) + Module.finrank F (ker H₂ᵀ) * Module.finrank F (ker H₁ᵀ)) := by
  exact count (observe H₁ H₂) (observe_surjective H₁ H₂)

/-- ... where the kernel consists of the stabilizers. -/
theorem kernel (H₁ : Matrix m₁ n₁ F) (H₂ : Matrix m₂ n₂ F) (p : closed H₁ H₂) :
    p ∈ LinearMap.ker (observe H₁ H₂) ↔ Trivial H₁ H₂ p.1.1 p.1.2 := by
  rw [LinearMap.mem_ker, observe_eq_zero]

/-! Subsystem products: one sector, gauge operators `H₁ᵀ S` of this type; an operator commutes with the stabilizers of the
other type iff it maps words of the first code to words of the second code. -/

def Dressed (H₁ : Matrix m₁ n₁ F) (H₂ : Matrix m₂ n₂ F) (A : Matrix n₁ n₂ F) : Prop := ∀ f, H₁ *ᵥ f = 0 → H₂ *ᵥ (f ᵥ* A) = 0

theorem gauge_iff {H₁ : Matrix m₁ n₁ F} {A : Matrix n₁ n₂ F} : (∃ S : Matrix m₁ n₂ F, A = H₁ᵀ * S) ↔ ∀ f, H₁ *ᵥ f = 0 → f ᵥ* A = 0 := by
  refine ⟨?_, unseen⟩
  rintro ⟨S, rfl⟩ f hf
  rw [← Matrix.vecMul_vecMul, Matrix.vecMul_transpose, hf, Matrix.zero_vecMul]

theorem subsystem_distance {H₁ : Matrix m₁ n₁ F} {H₂ : Matrix m₂ n₂ F} {A : Matrix n₁ n₂ F} (h : Dressed H₁ H₂ A) (hn : ¬ ∃ S : Matrix m₁ n₂ F, A = H₁ᵀ * S) :
    ∃ w : n₂ → F, w ≠ 0 ∧ H₂ *ᵥ w = 0 ∧ weight w ≤ weight₂ A := by
  rw [gauge_iff] at hn
  push Not at hn
  obtain ⟨f, hf, hne⟩ := hn
  exact ⟨f ᵥ* A, hne, h f hf, weight_columns A f⟩

/-- Stabilizers of the other type: products of words of the first code and checks of the second code. -/
theorem dressed_iff {H₁ : Matrix m₁ n₁ F} {H₂ : Matrix m₂ n₂ F} {A : Matrix n₁ n₂ F} :
    Dressed H₁ H₂ A ↔ ∀ f, H₁ *ᵥ f = 0 → ∀ b, ∑ i, ∑ j, A i j * (f i * H₂ b j) = 0 := by
  refine forall_congr' fun f => imp_congr_right fun _ => ?_
  rw [funext_iff]
  refine forall_congr' fun b => ?_
  have : (H₂ *ᵥ (f ᵥ* A)) b = ∑ i, ∑ j, A i j * (f i * H₂ b j) := by
    simp only [Matrix.mulVec, Matrix.vecMul, dotProduct]
    simp_rw [mul_sum]
    rw [sum_comm]
    exact sum_congr rfl fun i _ => sum_congr rfl fun j _ => by ring
  rw [this]; rfl

end Products
