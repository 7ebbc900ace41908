/- Lemmas over the contracts of vf/proofs/decoders.py. `H` is the matrix of the decoding problem, `s` the syndrome. -/
import Mathlib

open Matrix Finset
set_option linter.unusedSectionVars false
namespace Decoding

variable {C B F : Type*} [Fintype C] [Fintype B] [DecidableEq C] [DecidableEq B] [Field F]

/-- a solution of the sub-problem on checks `T` and bits `S` (all checks of these bits are in `T`, and `s` vanishes
    outside of `T`), padded with zeros, is a solution of the whole problem -/
theorem subproblem_sound (H : Matrix C B F) (s : C → F) (T : Set C) (S : Set B) (e : B → F)
    (hrow : ∀ r, r ∉ T → s r = 0) (hcol : ∀ r c, c ∈ S → r ∉ T → H r c = 0)
    (hpad : ∀ c, c ∉ S → e c = 0) (hsub : ∀ r, r ∈ T → (H *ᵥ e) r = s r) : H *ᵥ e = s := by
  funext r
  by_cases h : r ∈ T
  · exact hsub r h
  · rw [hrow r h]
    refine Finset.sum_eq_zero fun c _ => ?_
    by_cases hc : c ∈ S
    · show H r c * e c = 0
      rw [hcol r c hc h, zero_mul]
    · show H r c * e c = 0
      rw [hpad c hc, mul_zero]

/-- if the set of nodes (checks `T`, bits `S`) is closed under taking neighbours and has all checks with a non-zero
    syndrome, then the sub-problem on it has a solution whenever the whole problem has one -/
theorem subproblem_complete (H : Matrix C B F) (s : C → F) (T : Set C) (S : Set B) [DecidablePred (· ∈ S)] (e : B → F)
    (hT : ∀ r c, r ∈ T → H r c ≠ 0 → c ∈ S) (he : H *ᵥ e = s) :
    ∀ r, r ∈ T → (H *ᵥ (fun c => if c ∈ S then e c else 0)) r = s r := by
  intro r hr
  rw [← he]
  refine Finset.sum_congr rfl fun c _ => ?_
  by_cases hc : c ∈ S
  · simp [hc]
  · have : H r c = 0 := by
      by_contra hne
      exact hc (hT r c hr hne)
    simp [this]

/-- the rows of `N` span the kernel of `[A | -s]`; if `A y = s` is solvable, some row has a non-zero last entry -/
theorem solution_found {K : Type*} [Fintype K] (A : Matrix C B F) (s : C → F) (N : K → B → F) (l : K → F)
    (span : ∀ (y : B → F) (c : F), A *ᵥ y = c • s → ∃ a : K → F, (∀ b, y b = ∑ k, a k * N k b) ∧ c = ∑ k, a k * l k)
    (y : B → F) (hy : A *ᵥ y = s) : ∃ k, l k ≠ 0 := by
  by_contra h
  have h : ∀ k, l k = 0 := fun k => by_contra fun hk => h ⟨k, hk⟩
  obtain ⟨a, _, hc⟩ := span y 1 (by simpa using hy)
  have : (1 : F) = 0 := by rw [hc]; exact Finset.sum_eq_zero fun k _ => by rw [h k, mul_zero]
  exact one_ne_zero this

/-- base-`q` digits: every multiple of `q` below `q ^ (m + 1)` is `∑ q ^ (j + 1) * d j` with `m` digits `d j < q` -/
theorem digits (q : ℕ) (hq : 1 < q) : ∀ (m v : ℕ), q ∣ v → v < q ^ (m + 1) →
    ∃ d : ℕ → ℕ, (∀ j, d j < q) ∧ v = ∑ j ∈ range m, q ^ (j + 1) * d j := by
  intro m
  induction m with
  | zero =>
    intro v hv hlt
    refine ⟨fun _ => 0, fun _ => Nat.lt_of_lt_of_le Nat.zero_lt_one hq.le, ?_⟩
    have : v = 0 := Nat.eq_zero_of_dvd_of_lt hv (by simpa using hlt)
    simp [this]
  | succ m ih =>
    intro v hv hlt
    obtain ⟨w, rfl⟩ := hv
    have hw : w < q ^ (m + 1) := by
      have : q * w < q * q ^ (m + 1) := by rw [← pow_succ']; exact hlt
      exact lt_of_mul_lt_mul_left this (Nat.zero_le q)
    obtain ⟨d, hd, hsum⟩ := ih (q * (w / q)) (dvd_mul_right _ _) (lt_of_le_of_lt (Nat.mul_div_le w q) hw)
    refine ⟨fun j => match j with | 0 => w % q | j + 1 => d j, ?_, ?_⟩
    · intro j
      cases j with
      | zero => exact Nat.mod_lt _ (by omega)
      | succ j => exact hd j
    · rw [Finset.sum_range_succ']
      have h2 : ∀ j, q ^ (j + 1 + 1) * d j = q * (q ^ (j + 1) * d j) := fun j => by ring
      simp only [h2, ← Finset.mul_sum, ← hsum]
      have := Nat.div_add_mod w q
      calc q * w = q * (q * (w / q) + w % q) := by rw [this]
        _ = _ := by ring

/-- what a decoder for words does: subtract the inferred error; words without a syndrome and a decoder that maps the
    trivial syndrome to no error leave a word as it is -/
theorem code_word_fixed (H : Matrix C B F) (dec : (C → F) → (B → F)) (h0 : dec 0 = 0) (w : B → F) (hw : H *ᵥ w = 0) :
    w - dec (H *ᵥ w) = w := by
  rw [hw, h0, sub_zero]

/-- if the inferred error explains the syndrome, the corrected word is a code word -/
theorem corrected_is_word (H : Matrix C B F) (dec : (C → F) → (B → F)) (w : B → F) (h : H *ᵥ dec (H *ᵥ w) = H *ᵥ w) :
    H *ᵥ (w - dec (H *ᵥ w)) = 0 := by
  rw [Matrix.mulVec_sub, h, sub_self]

end Decoding
