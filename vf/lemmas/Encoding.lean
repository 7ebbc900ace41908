/- Lemmas over the contracts of vf/proofs/encoders.py. -/
import Mathlib

open Matrix Finset
set_option linter.unusedSectionVars false
namespace Encoding

variable {Q R : Type*} [Fintype Q] [DecidableEq Q] [DecidableEq R]

/-- symplectic product of Pauli operators with X parts `.1` and Z parts `.2` -/
def symp (a b : (Q → ZMod 2) × (Q → ZMod 2)) : ZMod 2 := a.1 ⬝ᵥ b.2 + a.2 ⬝ᵥ b.1

/-- every operator commutes with itself -/
theorem self_commutes (a : (Q → ZMod 2) × (Q → ZMod 2)) : symp a a = 0 := by
  unfold symp
  rw [dotProduct_comm a.2 a.1]
  exact CharTwo.add_self_eq_zero _

/-- the candidate of row i, a single-qubit operator at the partner of the pivot of i, is dual to the rows `s` of a
    reduced matrix: here for a pivot in the X half -/
theorem candidate_x (s : R → (Q → ZMod 2) × (Q → ZMod 2)) (pivot : R → Q) (i : R)
    (h : ∀ j, (s j).1 (pivot i) = if j = i then 1 else 0) (j : R) :
    symp (0, Pi.single (pivot i) 1) (s j) = if j = i then 1 else 0 := by
  simp [symp, h]

/-- ... and for a pivot in the Z half -/
theorem candidate_z (s : R → (Q → ZMod 2) × (Q → ZMod 2)) (pivot : R → Q) (i : R)
    (h : ∀ j, (s j).2 (pivot i) = if j = i then 1 else 0) (j : R) :
    symp (Pi.single (pivot i) 1, 0) (s j) = if j = i then 1 else 0 := by
  simp [symp, h]

/-- signs: if the group `H` generated by the parity checks has no operator -1 (`f` forgets phases), then an operator
    of `H` that agrees up to phase with a product `t` of the signed canonical stabilizers is that product, so that the
    encoded state, which they fix, is fixed by every parity check with its own sign -/
theorem signs_agree {G V : Type*} [Group G] [Group V] (f : G →* V) (H K : Subgroup G) (hK : K ≤ H)
    (hphase : ∀ g ∈ H, f g = 1 → g = 1) (s t : G) (hs : s ∈ H) (ht : t ∈ K) (hst : f s = f t) : s ∈ K := by
  have h : s * t⁻¹ = 1 := hphase _ (H.mul_mem hs (H.inv_mem (hK ht))) (by simp [hst])
  rw [mul_inv_eq_one.mp h]
  exact ht

/-- the canonical stabilizers generate the parity checks up to phase, so each parity check fixes what they fix -/
theorem checks_hold {G V S : Type*} [Group G] [Group V] [MulAction G S] (f : G →* V) (H K : Subgroup G) (hK : K ≤ H)
    (hphase : ∀ g ∈ H, f g = 1 → g = 1) (hgen : H.map f ≤ K.map f) (state : S) (hstate : ∀ k ∈ K, k • state = state) :
    ∀ s ∈ H, s • state = state := by
  intro s hs
  obtain ⟨t, ht, hst⟩ := hgen ⟨s, hs, rfl⟩
  exact hstate s (signs_agree f H K hK hphase s t hs ht hst.symm)

/-- a state is fixed by the images of operators that fix the state it is made from -/
theorem encoded_state {G S : Type*} [Group G] [MulAction G S] (u z : G) (state : S) (h : z • state = state) :
    (u * z * u⁻¹) • (u • state) = u • state := by
  rw [smul_smul]
  simp [mul_smul, h]

end Encoding
