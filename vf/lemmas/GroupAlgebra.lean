/- Lemmas over the contracts of vf/proofs/algebra.py.
   An element of the group algebra is a function `G → F`; the contracts say, for an arbitrary term of the operands,
   what each operation of `RingMember` adds to its result. The operations defined by these sums obey the laws below. -/
import Mathlib

open Finset
set_option linter.unusedSectionVars false
namespace GA

variable {G F : Type*} [Group G] [Fintype G] [DecidableEq G] [Field F]

/-- contract of `RingMember.__mul__`: each pair of terms adds `x a * y b` at `a * b` -/
def mul (x y : G → F) : G → F := fun z => ∑ a, ∑ b, if a * b = z then x a * y b else 0
/-- contract of `GroupRing.one` -/
def one : G → F := fun z => if z = 1 then 1 else 0
/-- contract of `RingMember.T`: each term of `x` is added at the inverse of its member -/
def tr (x : G → F) : G → F := fun z => ∑ a, if a⁻¹ = z then x a else 0

theorem ite_shift (a b z : G) : a * b = z ↔ b = a⁻¹ * z := by
  constructor
  · rintro rfl; simp
  · rintro rfl; simp

theorem mul_at (x y : G → F) (z : G) : mul x y z = ∑ a, x a * y (a⁻¹ * z) := by
  unfold mul
  refine sum_congr rfl fun a _ => ?_
  simp [ite_shift]

theorem tr_apply (x : G → F) (z : G) : tr x z = x z⁻¹ := by
  unfold tr
  simp [inv_eq_iff_eq_inv]

theorem mul_add' (x y w : G → F) : mul x (y + w) = mul x y + mul x w := by
  funext z; simp [mul_at, mul_add, sum_add_distrib]

theorem add_mul' (x y w : G → F) : mul (x + y) w = mul x w + mul y w := by
  funext z; simp [mul_at, add_mul, sum_add_distrib]

theorem one_mul' (x : G → F) : mul one x = x := by
  funext z; simp [mul_at, one]

theorem mul_one' (x : G → F) : mul x one = x := by
  funext z
  rw [mul_at]
  have : ∀ a : G, (x a * (one (a⁻¹ * z) : F)) = if a = z then x a else 0 := by
    intro a
    by_cases h : a = z
    · subst h; simp [one]
    · have : ¬ a⁻¹ * z = 1 := fun e => h (by rw [inv_mul_eq_one] at e; exact e)
      simp [one, this, h]
  simp [this]

theorem mul_assoc' (x y w : G → F) : mul (mul x y) w = mul x (mul y w) := by
  funext z
  simp only [mul_at, sum_mul, mul_sum]
  rw [sum_comm]
  refine sum_congr rfl fun a _ => ?_
  rw [← Equiv.sum_comp (Equiv.mulLeft a)]
  refine sum_congr rfl fun b _ => ?_
  simp [mul_assoc]

theorem tr_tr (x : G → F) : tr (tr x) = x := by
  funext z; simp [tr_apply]

theorem tr_mul (x y : G → F) : tr (mul x y) = mul (tr y) (tr x) := by
  funext z
  simp only [tr_apply, mul_at]
  rw [← Equiv.sum_comp (Equiv.mulLeft (z⁻¹))]
  refine sum_congr rfl fun a _ => ?_
  rw [mul_comm]
  simp

/-- contract of `RingMember.lift`: the sum of coefficient times matrix -/
def lift {n : Type*} [Fintype n] (L : G → Matrix n n F) (x : G → F) : Matrix n n F := ∑ g, x g • L g

/-- if the lift of members is multiplicative, so is the lift of elements -/
theorem lift_mul {n : Type*} [Fintype n] (L : G → Matrix n n F) (h : ∀ a b, L (a * b) = L a * L b) (x y : G → F) :
    lift L (mul x y) = lift L x * lift L y := by
  unfold lift
  simp only [mul_at, sum_smul]
  rw [sum_comm, sum_mul]
  refine sum_congr rfl fun a _ => ?_
  rw [← Equiv.sum_comp (Equiv.mulLeft a), mul_sum]
  refine sum_congr rfl fun b _ => ?_
  simp [h, smul_smul, mul_comm]

theorem lift_add {n : Type*} [Fintype n] (L : G → Matrix n n F) (x y : G → F) :
    lift L (x + y) = lift L x + lift L y := by
  unfold lift; simp [add_smul, sum_add_distrib]

/-- if members lift to matrices with `L g⁻¹ = (L g)ᵀ`, the lift of the transpose is the transpose of the lift -/
theorem lift_tr {n : Type*} [Fintype n] (L : G → Matrix n n F) (h : ∀ g, L g⁻¹ = (L g).transpose) (x : G → F) :
    lift L (tr x) = (lift L x).transpose := by
  unfold lift
  simp only [tr_apply]
  rw [← Equiv.sum_comp (Equiv.inv G), Matrix.transpose_sum]
  refine sum_congr rfl fun g _ => ?_
  simp [h]

/-- contract of `Group.regular_lift`: entry `(m * g, g)` is 1 for every member `g`, all others are 0 -/
def reg (m : G) : Matrix G G F := fun i j => ∑ g, if i = m * g ∧ j = g then 1 else 0

theorem reg_apply (m i j : G) : (reg m : Matrix G G F) i j = if i = m * j then 1 else 0 := by
  unfold reg
  rw [sum_eq_single j]
  · simp
  · intro b _ hb; simp [Ne.symm hb]
  · simp

theorem reg_mul (a b : G) : (reg (a * b) : Matrix G G F) = reg a * reg b := by
  ext i j
  simp [Matrix.mul_apply, reg_apply, mul_assoc]

theorem reg_inv (a : G) : (reg a⁻¹ : Matrix G G F) = (reg a).transpose := by
  ext i j
  simp only [Matrix.transpose_apply, reg_apply]
  congr 1
  exact propext ⟨fun h => by simp [h], fun h => by simp [h]⟩

/-- contract of `GroupMember.to_matrix`: entry `(i, p i)` is 1; sympy composes from left to right, `(p * q) i = q (p i)` -/
def perm {n : Type*} [DecidableEq n] (p : n → n) : Matrix n n F := fun i j => if j = p i then 1 else 0

theorem perm_mul {n : Type*} [Fintype n] [DecidableEq n] (p q : n → n) :
    (perm (fun i => q (p i)) : Matrix n n F) = perm p * perm q := by
  ext i j
  simp only [Matrix.mul_apply, perm]
  rw [sum_eq_single (p i)]
  · simp
  · intro b _ hb; simp [hb]
  · simp

/-! ### Null spaces and row reduction (contracts of vf/proofs/modules.py) -/

theorem lift_reg_apply (x : G → F) (i j : G) : lift reg x i j = x (i * j⁻¹) := by
  unfold lift
  rw [Matrix.sum_apply, sum_eq_single (i * j⁻¹)]
  · simp [reg_apply]
  · intro b _ hb
    simp only [Matrix.smul_apply, reg_apply, smul_eq_mul]
    rw [if_neg]
    · simp
    · intro e; exact hb (by simp [e])
  · simp

/-- the regular lift of `x` multiplies vectors of coefficients by `x` from the left -/
theorem lift_reg_mulVec (x y : G → F) : (lift reg x).mulVec y = mul x y := by
  funext z
  simp only [Matrix.mulVec, dotProduct, lift_reg_apply, mul_at]
  rw [← Equiv.sum_comp ((Equiv.inv G).trans (Equiv.mulRight z))]
  refine sum_congr rfl fun a _ => ?_
  simp

/-- contract of `RingArray.regular_lift`: the block matrix of the lifts of the entries -/
def blockLift {m n : Type*} (M : m → n → G → F) : Matrix (m × G) (n × G) F := fun p q => lift reg (M p.1 q.1) p.2 q.2

/-- a field vector is annihilated by the lifted matrix exactly if its ring vector is annihilated by the matrix -/
theorem null_iff {m n : Type*} [Fintype n] (M : m → n → G → F) (y : n → G → F) :
    (blockLift M).mulVec (fun p => y p.1 p.2) = 0 ↔ ∀ i, ∑ j, mul (M i j) (y j) = 0 := by
  constructor
  · intro h i
    funext z
    have := congrFun h (i, z)
    simp only [Matrix.mulVec, dotProduct, blockLift, Fintype.sum_prod_type] at this
    simp only [Finset.sum_apply]
    refine Eq.trans ?_ this
    refine sum_congr rfl fun j _ => ?_
    rw [← lift_reg_mulVec]; rfl
  · intro h
    funext p
    have := congrFun (h p.1) p.2
    simp only [Finset.sum_apply] at this
    simp only [Matrix.mulVec, dotProduct, blockLift, Fintype.sum_prod_type]
    refine Eq.trans ?_ this
    refine sum_congr rfl fun j _ => ?_
    rw [← lift_reg_mulVec]; rfl

theorem sum_mul' {ι : Type*} (s : Finset ι) (f : ι → G → F) (y : G → F) : mul (∑ i ∈ s, f i) y = ∑ i ∈ s, mul (f i) y := by
  classical
  induction s using Finset.induction_on with
  | empty => funext z; simp [mul_at]
  | insert a s ha ih => rw [sum_insert ha, sum_insert ha, add_mul', ih]

theorem tr_add (x y : G → F) : tr (x + y) = tr x + tr y := by funext z; simp [tr_apply]
theorem tr_smul (c : F) (x : G → F) : tr (c • x) = c • tr x := by funext z; simp [tr_apply]

/-- rows in the left span of rows whose transposes are annihilated are such rows -/
theorem annihilated_smul {m n : Type*} [Fintype n] (M : m → n → G → F) (v : n → G → F) (a : G → F)
    (h : ∀ i, ∑ j, mul (M i j) (tr (v j)) = 0) (i : m) : ∑ j, mul (M i j) (tr (mul a (v j))) = 0 := by
  simp only [tr_mul, ← mul_assoc']
  rw [← sum_mul', h i]
  funext z; simp [mul_at]

theorem annihilated_add {m n : Type*} [Fintype n] (M : m → n → G → F) (v w : n → G → F)
    (h : ∀ i, ∑ j, mul (M i j) (tr (v j)) = 0) (k : ∀ i, ∑ j, mul (M i j) (tr (w j)) = 0) (i : m) :
    ∑ j, mul (M i j) (tr (v j + w j)) = 0 := by
  simp only [tr_add, mul_add', sum_add_distrib, h i, k i, add_zero]

/-- contract of `GroupMember` as an element -/
def single (g : G) (c : F) : G → F := fun z => if z = g then c else 0

theorem single_mul (g : G) (c : F) (x : G → F) (z : G) : mul (single g c) x z = c * x (g⁻¹ * z) := by
  rw [mul_at, sum_eq_single g]
  · simp [single]
  · intro b _ hb; simp [single, hb]
  · simp

/-- the rows of a lifted block are the transposes of the multiples of the element by members (from the left) -/
theorem lift_row (x : G → F) (i : G) : (fun j => lift reg x i j) = tr (mul (single i⁻¹ 1) x) := by
  funext j
  rw [lift_reg_apply, tr_apply, single_mul]; simp

/-- if the transpose of a row is a combination of rows of the lifted matrix of the rows `K`, it lies in their left span -/
theorem in_left_span {r n : Type*} (K : Finset r) (X : r → n → G → F) (v : n → G → F) (c : r → G → F)
    (h : ∀ j, tr (v j) = fun g => ∑ k ∈ K, ∑ i, c k i * lift reg (X k j) i g) (j : n) :
    v j = ∑ k ∈ K, mul (∑ i, single i⁻¹ (c k i)) (X k j) := by
  funext z
  have := congrFun (h j) z⁻¹
  rw [tr_apply, inv_inv] at this
  rw [this, Finset.sum_apply]
  refine sum_congr rfl fun k _ => ?_
  rw [sum_mul', Finset.sum_apply]
  refine sum_congr rfl fun i _ => ?_
  rw [single_mul, lift_reg_apply]; simp

/-- contract of `RingMember.inverse`: the column of the inverse matrix that belongs to the identity -/
theorem inverse_right (x : G → F) (N : Matrix G G F) (h : lift reg x * N = 1) : mul x (fun g => N g 1) = one := by
  rw [← lift_reg_mulVec]
  funext z
  have := congrFun (congrFun h z) 1
  rw [Matrix.mul_apply] at this
  simp only [Matrix.mulVec, dotProduct, one]
  rw [this, Matrix.one_apply]

theorem lift_one : lift reg (one : G → F) = 1 := by
  ext i j
  rw [lift_reg_apply, Matrix.one_apply, one]
  congr 1
  exact propext ⟨fun e => by rwa [mul_inv_eq_one] at e, fun e => by simp [e]⟩

theorem lift_injective (x y : G → F) (h : lift reg x = lift reg y) : x = y := by
  funext z
  have := congrFun (congrFun h z) 1
  simpa [lift_reg_apply] using this

theorem inverse_left (x y : G → F) (h : mul x y = one) : mul y x = one := by
  apply lift_injective (F := F)
  rw [lift_mul _ reg_mul, lift_one]
  have := congrArg (lift reg) h
  rw [lift_mul _ reg_mul, lift_one] at this
  exact mul_eq_one_comm.mp this

/-- an element with an inverse has an invertible lift: if the lift is singular there is no inverse -/
theorem no_inverse (x y : G → F) (h : mul x y = one) : lift reg x * lift reg y = 1 := by
  rw [← lift_mul _ reg_mul, h, lift_one]

theorem inverse_term (g : G) (c : F) (hc : c ≠ 0) : mul (single g c) (single g⁻¹ c⁻¹) = one := by
  funext z
  rw [single_mul]
  simp only [single, one]
  by_cases h : z = 1
  · simp [h, hc]
  · rw [if_neg h, if_neg]
    · simp
    · intro e; apply h
      rw [mul_eq_left] at e; exact e

/-! row operations, in any module over any ring -/

theorem row_step {R M ι : Type*} [Ring R] [AddCommGroup M] [Module R M] [DecidableEq ι] (v w : ι → M) (r : ι) (u e : R) (c : ι → R)
    (he : e * u = 1) (hr : w r = u • v r) (hi : ∀ i, i ≠ r → w i = v i + c i • v r) :
    Submodule.span R (Set.range w) = Submodule.span R (Set.range v) := by
  have hv : v r = e • w r := by rw [hr, smul_smul, he, one_smul]
  apply le_antisymm <;> rw [Submodule.span_le] <;> rintro _ ⟨i, rfl⟩
  · by_cases h : i = r
    · subst h; rw [hr]; exact Submodule.smul_mem _ _ (Submodule.subset_span ⟨i, rfl⟩)
    · rw [hi i h]
      exact Submodule.add_mem _ (Submodule.subset_span ⟨i, rfl⟩) (Submodule.smul_mem _ _ (Submodule.subset_span ⟨r, rfl⟩))
  · have hvr : v r ∈ Submodule.span R (Set.range w) := by
      rw [hv]; exact Submodule.smul_mem _ _ (Submodule.subset_span ⟨r, rfl⟩)
    by_cases h : i = r
    · subst h; exact hvr
    · have : v i = w i - c i • v r := by rw [hi i h]; simp
      show v i ∈ _
      rw [this]
      exact Submodule.sub_mem _ (Submodule.subset_span ⟨i, rfl⟩) (Submodule.smul_mem _ _ hvr)

theorem removed_row {R M : Type*} [Ring R] [AddCommGroup M] [Module R M] (S : Set M) (x : M) (h : x ∈ Submodule.span R S) :
    Submodule.span R (insert x S) = Submodule.span R S := Submodule.span_insert_eq_span h

/-- in a reduced row echelon form, an inconsistent system shows up as a row whose only nonzero entry is the last one -/
theorem consistent {K ι κ : Type*} [Field K] [Fintype ι] [Fintype κ] [DecidableEq ι] [DecidableEq κ] (A R : Matrix ι (Option κ) K)
    (hspan : Submodule.span K (Set.range A) = Submodule.span K (Set.range R))
    (piv : ι → Option κ) (hp : ∀ i j, R j ≠ 0 → R i (piv j) = if i = j then 1 else 0)
    (hlast : ∀ j, R j ≠ 0 → piv j = none → ∀ k, R j (some k) = 0)
    (hnone : ∀ i, ¬ (R i none ≠ 0 ∧ ∀ k, R i (some k) = 0)) :
    ∃ c : κ → K, ∀ i, A i none = ∑ k, c k * A i (some k) := by
  classical
  -- no row of R is a multiple of the last unit vector, so neither is any combination
  have hpiv : ∀ j, R j ≠ 0 → piv j ≠ none := by
    intro j hj e
    apply hnone j
    refine ⟨?_, hlast j hj e⟩
    have := hp j j hj
    rw [e] at this; simp [this]
  -- the solution: c k = entry of the row with pivot k in the last column
  let c : κ → K := fun k => ∑ j, if piv j = some k ∧ R j ≠ 0 then R j none else 0
  have hR : ∀ i, R i none = ∑ k, c k * R i (some k) := by
    intro i
    by_cases hi : R i = 0
    · simp [hi]
    · have h1 : ∀ k, c k * R i (some k) = ∑ j, if piv j = some k ∧ R j ≠ 0 then R j none * R i (some k) else 0 := by
        intro k; simp only [c, sum_mul]; refine sum_congr rfl fun j _ => ?_; split_ifs <;> simp
      simp only [h1]
      rw [sum_comm, sum_eq_single i]
      · obtain ⟨k, hk⟩ := Option.ne_none_iff_exists'.mp (hpiv i hi)
        rw [sum_eq_single k]
        · have := hp i i hi
          rw [hk] at this
          simp [hk, hi, this]
        · intro b _ hb
          rw [if_neg]; rintro ⟨h, _⟩; rw [hk] at h; exact hb (Option.some.inj h).symm
        · simp
      · intro j _ hj
        apply sum_eq_zero
        intro k _
        split_ifs with h
        · have := hp i j h.2
          rw [h.1, if_neg (Ne.symm hj)] at this
          simp [this]
        · rfl
      · simp
  refine ⟨c, ?_⟩
  let L : (Option κ → K) →ₗ[K] K := LinearMap.proj none - ∑ k, c k • LinearMap.proj (some k)
  have hL : ∀ v : Option κ → K, L v = v none - ∑ k, c k * v (some k) := by intro v; simp [L]
  have hle : Submodule.span K (Set.range A) ≤ LinearMap.ker L := by
    rw [hspan, Submodule.span_le]
    rintro _ ⟨i, rfl⟩
    rw [SetLike.mem_coe, LinearMap.mem_ker, hL, hR i, sub_self]
  intro i
  have := hle (Submodule.subset_span ⟨i, rfl⟩)
  rw [LinearMap.mem_ker, hL] at this
  exact sub_eq_zero.mp this

/-- rows may be replaced by a basis of their span over the field -/
theorem field_span {K R M : Type*} [CommSemiring K] [Semiring R] [AddCommMonoid M] [Algebra K R] [Module K M] [Module R M]
    [IsScalarTower K R M] (s : Set M) : Submodule.span R (Submodule.span K s : Set M) = Submodule.span R s :=
  Submodule.span_span_of_tower K R s

end GA
