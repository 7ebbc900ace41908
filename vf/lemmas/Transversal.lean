import Mathlib

/-! Lemmas for C16: swaps along cycles, automorphisms of column codes, sign and Pauli corrections. -/

open Equiv

/-- The permutation that the swaps (a c₁), (a c₂), ... perform, in this order in time. -/
def swapsInTime {α : Type*} [DecidableEq α] (a : α) : List α → Perm α
  | [] => 1
  | b :: l => swapsInTime a l * swap a b

/-- Swapping the first element of a cycle with all others, in order, moves each element to the next one. -/
theorem cycle_of_swaps {α : Type*} [DecidableEq α] (a : α) (l : List α) (h : (a :: l).Nodup) :
    swapsInTime a l = (a :: l).formPerm := by
  induction l generalizing a with
  | nil => simp [swapsInTime]
  | cons b l ih =>
    have hal : (a :: l).Nodup := by
      simp only [List.nodup_cons, List.mem_cons, not_or] at h ⊢
      exact ⟨h.1.2, h.2.2⟩
    have hbl : b ∉ l := by
      simp only [List.nodup_cons] at h
      exact h.2.1
    have hal' : a ∉ l := by
      simp only [List.nodup_cons] at hal
      exact hal.1
    have key : (a :: l).formPerm = swap a b * (b :: l).formPerm * (swap a b)⁻¹ := by
      have hm : ∀ (f : Perm α) (xs : List α), (xs.map f).formPerm = f * xs.formPerm * f⁻¹ := by
        intro f xs
        induction xs with
        | nil => simp
        | cons x xs ihx =>
          cases xs with
          | nil => simp
          | cons y ys =>
            simp only [List.map_cons, List.formPerm_cons_cons] at ihx ⊢
            rw [ihx]
            have : swap (f x) (f y) = f * swap x y * f⁻¹ := (Equiv.swap_apply_apply f x y)
            rw [this]
            group
      have : (b :: l).map (swap a b) = a :: l := by
        simp only [List.map_cons, swap_apply_right, List.cons.injEq, true_and]
        conv_rhs => rw [← List.map_id l]
        apply List.map_congr_left
        intro x hx
        exact swap_apply_of_ne_of_ne (fun e => hal' (e ▸ hx)) (fun e => hbl (e ▸ hx))
      rw [← hm, this]
    rw [swapsInTime, ih a hal, key, List.formPerm_cons_cons]
    simp [mul_assoc]

/-- An automorphism of the code of the columns of Pauli operators acts on Pauli operators, and preserves the Pauli
operators that commute with all checks. π: Pauli operator of a word of the column code; u: action on Pauli operators. -/
theorem automorphism_preserves_commutant {K V W Y : Type*} [Field K] [AddCommGroup V] [Module K V] [AddCommGroup W] [Module K W]
    [AddCommGroup Y] [Module K Y] (π : V →ₗ[K] W) (hπ : Function.Surjective π) (H : W →ₗ[K] Y) (a : V →ₗ[K] V) (u : W →ₗ[K] W)
    (eqv : π ∘ₗ a = u ∘ₗ π) (aut : ∀ v, H (π v) = 0 → H (π (a v)) = 0) : ∀ w, H w = 0 → H (u w) = 0 := by
  intro w hw
  obtain ⟨v, rfl⟩ := hπ w
  have := aut v hw
  rwa [show π (a v) = u (π v) from LinearMap.congr_fun eqv v] at this

/-- A symplectic map that preserves the commutant of a group of Pauli operators in finite dimension preserves the
bicommutant, i.e. the group of the checks. -/
theorem preserves_bicommutant {K W : Type*} [Field K] [AddCommGroup W] [Module K W] [FiniteDimensional K W]
    (ω : W →ₗ[K] W →ₗ[K] K) (u : W ≃ₗ[K] W) (hu : ∀ x y, ω (u x) (u y) = ω x y)
    (C : Submodule K W) (hC : ∀ w ∈ C, u w ∈ C) :
    ∀ s, (∀ w ∈ C, ω s w = 0) → ∀ w ∈ C, ω (u s) w = 0 := by
  intro s hs w hw
  have hle : C.map (u : W →ₗ[K] W) ≤ C := by
    rintro _ ⟨x, hx, rfl⟩
    exact hC x hx
  have heq : C.map (u : W →ₗ[K] W) = C := by
    apply Submodule.eq_of_le_of_finrank_eq hle
    exact LinearEquiv.finrank_map_eq u C
  rw [← heq] at hw
  obtain ⟨x, hx, rfl⟩ := hw
  simpa [hu] using hs x hx

/-- A correction that flips exactly the signs that the circuit flips: afterwards no sign is flipped. -/
theorem corrected_signs (s : ℤ) (h : s = 1 ∨ s = -1) : (if s = 1 then 1 else -1) * s = 1 := by
  rcases h with h | h <;> subst h <;> norm_num

/-- The logical Pauli correction: Z_j for each differing sign of X_j and X_j for each differing sign of Z_j anticommutes with
exactly the logical operators whose signs differ. ω: commutation; dual pairs; dx, dz: differing signs. -/
theorem logical_correction {k : ℕ} {W : Type*} [AddCommGroup W] [Module (ZMod 2) W] (ω : W →ₗ[ZMod 2] W →ₗ[ZMod 2] ZMod 2)
    (X Z : Fin k → W) (hxx : ∀ i j, ω (X i) (X j) = 0) (hzz : ∀ i j, ω (Z i) (Z j) = 0)
    (hzx : ∀ i j, ω (Z i) (X j) = if i = j then 1 else 0) (hxz : ∀ i j, ω (X i) (Z j) = if i = j then 1 else 0)
    (dx dz : Fin k → ZMod 2) :
    (∀ j, ω (∑ i, (dx i • Z i + dz i • X i)) (X j) = dx j) ∧ (∀ j, ω (∑ i, (dx i • Z i + dz i • X i)) (Z j) = dz j) := by
  constructor <;> intro j <;> simp [map_sum, hxx, hzz, hzx, hxz, LinearMap.sum_apply]
