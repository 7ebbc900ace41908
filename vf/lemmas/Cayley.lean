import Mathlib

/-! Left-right Cayley complexes: what follows from the contracts of `build_cayley_graph`, `get_subgraphs` and `TannerCode`.
A vertex g and labels a, b span the face {g, ag, gb, agb}; `side` is the bipartition of the vertices. -/

open Finset

set_option linter.unusedSectionVars false

namespace Cayley

variable {G : Type*} [Group G] [DecidableEq G]

def face (g a b : G) : Finset G := {g, a * g, g * b, a * g * b}

/-- the side of a vertex changes along every edge, and no left neighbour is a right neighbour -/
structure Good (A B : Finset G) (side : G → Bool) : Prop where
  left : ∀ a ∈ A, ∀ g, side (a * g) ≠ side g
  right : ∀ b ∈ B, ∀ g, side (g * b) ≠ side g
  tnc : ∀ a ∈ A, ∀ b ∈ B, ∀ g, a * g ≠ g * b
  inv_a : ∀ a ∈ A, a⁻¹ ∈ A
  inv_b : ∀ b ∈ B, b⁻¹ ∈ B

variable {A B : Finset G} {side : G → Bool}

theorem opposite (h : Good A B side) {a b g : G} (ha : a ∈ A) (hb : b ∈ B) : side (a * g * b) = side g := by
  have h1 := h.left a ha g
  have h2 := h.right b hb (a * g)
  revert h1 h2
  cases side (a * g * b) <;> cases side (a * g) <;> cases side g <;> simp

theorem corner_ne (h : Good A B side) {a b g : G} (ha : a ∈ A) (hb : b ∈ B) : a * g * b ≠ g := by
  intro e
  apply h.tnc a ha b⁻¹ (h.inv_b b hb) g
  rw [eq_mul_inv_iff_mul_eq]; exact e

theorem four_vertices (h : Good A B side) {a b : G} (ha : a ∈ A) (hb : b ∈ B) (g : G) : (face g a b).card = 4 := by
  have h1 : g ≠ a * g := fun e => h.left a ha g (by rw [← e])
  have h2 : g ≠ g * b := fun e => h.right b hb g (by rw [← e])
  have h3 : g ≠ a * g * b := (corner_ne h ha hb).symm
  have h4 : a * g ≠ g * b := h.tnc a ha b hb g
  have h5 : a * g ≠ a * g * b := fun e => h.right b hb (a * g) (by rw [← e])
  have h6 : g * b ≠ a * g * b := fun e => h.left a ha (g * b) (by rw [← mul_assoc, ← e])
  rw [face, card_insert_of_notMem, card_insert_of_notMem, card_insert_of_notMem, card_singleton]
  · simpa using h6
  · simp only [mem_insert, mem_singleton, not_or]; exact ⟨h4, h5⟩
  · simp only [mem_insert, mem_singleton, not_or]; exact ⟨h1, h2, h3⟩

/-- the face has label (a⁻¹, b) at the vertex ag, label (a, b⁻¹) at gb and (a⁻¹, b⁻¹) at agb -/
theorem face_left (g a b : G) : face (a * g) a⁻¹ b = face g a b := by
  ext x; simp only [face, mem_insert, mem_singleton, inv_mul_cancel_left]; tauto

theorem face_right (g a b : G) : face (g * b) a b⁻¹ = face g a b := by
  ext x
  simp only [face, mem_insert, mem_singleton, mul_inv_cancel_right, ← mul_assoc]; tauto

/-- the |A||B| faces at a vertex are different -/
theorem faces_differ (h : Good A B side) {g a b a' b' : G} (ha : a ∈ A) (hb : b ∈ B) (ha' : a' ∈ A) (hb' : b' ∈ B)
    (e : face g a b = face g a' b') : a = a' ∧ b = b' := by
  constructor
  · have m : a * g ∈ face g a' b' := by rw [← e]; simp [face]
    simp only [face, mem_insert, mem_singleton] at m
    rcases m with m | m | m | m
    · exact absurd (congrArg side m) (h.left a ha g)
    · exact mul_right_cancel m
    · exact absurd m (h.tnc a ha b' hb' g)
    · exact absurd ((congrArg side m).trans (opposite h ha' hb')) (h.left a ha g)
  · have m : g * b ∈ face g a' b' := by rw [← e]; simp [face]
    simp only [face, mem_insert, mem_singleton] at m
    rcases m with m | m | m | m
    · exact absurd (congrArg side m) (h.right b hb g)
    · exact absurd m.symm (h.tnc a' ha' b hb g)
    · exact mul_left_cancel m
    · exact absurd ((congrArg side m).trans (opposite h ha' hb')) (h.right b hb g)

/-- each vertex is on exactly |A||B| faces with its labels -/
theorem number_of_faces (h : Good A B side) (g : G) : ((A ×ˢ B).image fun p => face g p.1 p.2).card = A.card * B.card := by
  rw [card_image_of_injOn, card_product]
  rintro ⟨a, b⟩ hp ⟨a', b'⟩ hp' e
  simp only [coe_product, Set.mem_prod, mem_coe] at hp hp'
  have := faces_differ h hp.1 hp.2 hp'.1 hp'.2 e
  exact Prod.ext this.1 this.2

/-- vertices on different sides share a face only along an edge -/
theorem shared (h : Good A B side) {g g' a b a' b' : G} (hg : side g' ≠ side g) (ha : a ∈ A) (hb : b ∈ B) (ha' : a' ∈ A) (hb' : b' ∈ B) :
    face g a b = face g' a' b' ↔ (a * g = g' ∧ a' = a⁻¹ ∧ b' = b) ∨ (g * b = g' ∧ a' = a ∧ b' = b⁻¹) := by
  constructor
  · intro e
    have m : g' ∈ face g a b := by rw [e]; simp [face]
    simp only [face, mem_insert, mem_singleton] at m
    rcases m with m | m | m | m
    · exact absurd (congrArg side m) hg
    · left
      subst m
      rw [← face_left g a b] at e
      have := faces_differ h (h.inv_a a ha) hb ha' hb' e
      exact ⟨rfl, this.1.symm, this.2.symm⟩
    · right
      subst m
      rw [← face_right g a b] at e
      have := faces_differ h ha (h.inv_b b hb) ha' hb' e
      exact ⟨rfl, this.1.symm, this.2.symm⟩
    · exact absurd ((congrArg side m).trans (opposite h ha hb)) hg
  · rintro (⟨rfl, rfl, rfl⟩ | ⟨rfl, rfl, rfl⟩)
    · exact (face_left g a b').symm
    · exact (face_right g a' b).symm

/-- a local check at g: the word u ⊗ v of the labels, as a vector over the faces -/
def localCheck {F : Type*} [Field F] (A B : Finset G) (g : G) (u v : G → F) (f : Finset G) : F :=
  ∑ a ∈ A, ∑ b ∈ B, if face g a b = f then u a * v b else 0

theorem checks_commute [Fintype G] {F : Type*} [Field F] (h : Good A B side) {g g' : G} (hg : side g' ≠ side g) (u v u' v' : G → F)
    (hu : ∑ a ∈ A, u a * u' a = 0) (hv : ∑ b ∈ B, v b * v' b = 0) :
    ∑ f : Finset G, localCheck A B g u v f * localCheck A B g' u' v' f = 0 := by
  classical
  have e1 : ∑ f : Finset G, localCheck A B g u v f * localCheck A B g' u' v' f
      = ∑ a ∈ A, ∑ b ∈ B, ∑ a' ∈ A, ∑ b' ∈ B, if face g a b = face g' a' b' then u a * v b * (u' a' * v' b') else 0 := by
    simp only [localCheck, sum_mul]
    rw [sum_comm]
    refine sum_congr rfl fun a _ => ?_
    rw [sum_comm]
    refine sum_congr rfl fun b _ => ?_
    simp only [mul_sum]
    rw [sum_comm]
    refine sum_congr rfl fun a' _ => ?_
    rw [sum_comm]
    refine sum_congr rfl fun b' _ => ?_
    simp only [ite_mul, mul_ite, zero_mul, mul_zero]
    rw [sum_ite_eq]
    by_cases c : face g a b = face g' a' b'
    · simp [c]
    · simp [c]
  rw [e1]
  -- both g' = a g and g' = g b cannot happen
  have e2 : ∀ a ∈ A, ∀ b ∈ B, ∑ a' ∈ A, ∑ b' ∈ B, (if face g a b = face g' a' b' then u a * v b * (u' a' * v' b') else 0)
      = (if a * g = g' then u a * u' a⁻¹ * (v b * v' b) else 0) + (if g * b = g' then u a * u' a * (v b * v' b⁻¹) else 0) := by
    intro a ha b hb
    have s : ∀ a' ∈ A, ∀ b' ∈ B, (if face g a b = face g' a' b' then u a * v b * (u' a' * v' b') else 0)
        = (if a * g = g' then (if a' = a⁻¹ then (if b' = b then u a * v b * (u' a' * v' b') else 0) else 0) else 0)
        + (if g * b = g' then (if a' = a then (if b' = b⁻¹ then u a * v b * (u' a' * v' b') else 0) else 0) else 0) := by
      intro a' ha' b' hb'
      rw [if_congr (shared h hg ha hb ha' hb') rfl rfl]
      by_cases c1 : a * g = g'
      · have c2 : g * b ≠ g' := fun c => h.tnc a ha b hb g (c1.trans c.symm)
        by_cases x : a' = a⁻¹ <;> by_cases y : b' = b <;> simp [c1, c2, x, y]
      · by_cases c2 : g * b = g'
        · by_cases x : a' = a <;> by_cases y : b' = b⁻¹ <;> simp [c1, c2, x, y]
        · simp [c1, c2]
    rw [sum_congr rfl fun a' ha' => sum_congr rfl fun b' hb' => s a' ha' b' hb']
    simp only [sum_add_distrib]
    congr 1
    · by_cases c1 : a * g = g'
      · simp only [c1, if_true]
        rw [sum_eq_single a⁻¹, sum_eq_single b]
        · simp; ring
        · intro b' _ hb'; simp [hb']
        · intro hb'; exact absurd hb hb'
        · intro a' _ ha'; simp [ha']
        · intro c; exact absurd (h.inv_a a ha) c
      · simp [c1]
    · by_cases c2 : g * b = g'
      · simp only [c2, if_true]
        rw [sum_eq_single a, sum_eq_single b⁻¹]
        · simp; ring
        · intro b' _ hb'; simp [hb']
        · intro hb'; exact absurd (h.inv_b b hb) hb'
        · intro a' _ ha'; simp [ha']
        · intro c; exact absurd ha c
      · simp [c2]
  rw [sum_congr rfl fun a ha => sum_congr rfl fun b hb => e2 a ha b hb]
  simp only [sum_add_distrib]
  have z1 : ∑ a ∈ A, ∑ b ∈ B, (if a * g = g' then u a * u' a⁻¹ * (v b * v' b) else 0) = 0 := by
    refine sum_eq_zero fun a _ => ?_
    by_cases c : a * g = g'
    · simp only [c, if_true, ← mul_sum, hv, mul_zero]
    · simp [c]
  have z2 : ∑ a ∈ A, ∑ b ∈ B, (if g * b = g' then u a * u' a * (v b * v' b⁻¹) else 0) = 0 := by
    rw [sum_comm]
    refine sum_eq_zero fun b _ => ?_
    by_cases c : g * b = g'
    · simp only [c, if_true, ← sum_mul, hu, zero_mul]
    · simp [c]
  rw [z1, z2, add_zero]

/-! the covers: Z₂ is written additively -/

abbrev Z2 := Multiplicative (ZMod 2)

theorem bit (x : Z2) : (Multiplicative.ofAdd (1 : ZMod 2)) * x ≠ x ∧ x * (Multiplicative.ofAdd (1 : ZMod 2)) ≠ x := by
  revert x; decide

def flag (x : Z2) : Bool := decide (x = 1)

theorem flag_flip (x : Z2) : flag (Multiplicative.ofAdd (1 : ZMod 2) * x) ≠ flag x ∧ flag (x * Multiplicative.ofAdd (1 : ZMod 2)) ≠ flag x := by
  revert x; decide

/-- the double cover is good if the subsets satisfy the total no-conjugacy condition -/
theorem double_cover {H : Type*} [Group H] [DecidableEq H] (A B : Finset H) (hA : ∀ a ∈ A, a⁻¹ ∈ A) (hB : ∀ b ∈ B, b⁻¹ ∈ B)
    (tnc : ∀ a ∈ A, ∀ b ∈ B, ∀ g, a * g ≠ g * b) :
    Good (A.image fun a => (a, (Multiplicative.ofAdd (1 : ZMod 2) : Z2))) (B.image fun b => (b, (Multiplicative.ofAdd (1 : ZMod 2) : Z2)))
      (fun x => flag x.2) := by
  have inv1 : (Multiplicative.ofAdd (1 : ZMod 2) : Z2)⁻¹ = Multiplicative.ofAdd 1 := by decide
  refine ⟨?_, ?_, ?_, ?_, ?_⟩
  · intro a ha g; obtain ⟨a, _, rfl⟩ := mem_image.mp ha; exact (flag_flip g.2).1
  · intro b hb g; obtain ⟨b, _, rfl⟩ := mem_image.mp hb; exact (flag_flip g.2).2
  · intro a ha b hb g e
    obtain ⟨a, ha', rfl⟩ := mem_image.mp ha
    obtain ⟨b, hb', rfl⟩ := mem_image.mp hb
    exact tnc a ha' b hb' g.1 (congrArg Prod.fst e)
  · intro a ha; obtain ⟨a, ha', rfl⟩ := mem_image.mp ha
    exact mem_image.mpr ⟨a⁻¹, hA a ha', by simp [inv1]⟩
  · intro b hb; obtain ⟨b, hb', rfl⟩ := mem_image.mp hb
    exact mem_image.mpr ⟨b⁻¹, hB b hb', by simp [inv1]⟩

/-- the quadruple cover is good for all symmetric subsets -/
theorem quadruple_cover {H : Type*} [Group H] [DecidableEq H] (A B : Finset H) (hA : ∀ a ∈ A, a⁻¹ ∈ A) (hB : ∀ b ∈ B, b⁻¹ ∈ B) :
    Good (A.image fun a => (a, (Multiplicative.ofAdd (1 : ZMod 2) : Z2), (1 : Z2)))
      (B.image fun b => (b, (1 : Z2), (Multiplicative.ofAdd (1 : ZMod 2) : Z2)))
      (fun x => flag (x.2.1 * x.2.2)) := by
  have inv1 : (Multiplicative.ofAdd (1 : ZMod 2) : Z2)⁻¹ = Multiplicative.ofAdd 1 := by decide
  refine ⟨?_, ?_, ?_, ?_, ?_⟩
  · intro a ha g; obtain ⟨a, _, rfl⟩ := mem_image.mp ha
    have := (flag_flip (g.2.1 * g.2.2)).1
    simpa [mul_assoc] using this
  · intro b hb g; obtain ⟨b, _, rfl⟩ := mem_image.mp hb
    have := (flag_flip (g.2.1 * g.2.2)).2
    simpa [mul_assoc] using this
  · intro a ha b hb g e
    obtain ⟨a, ha', rfl⟩ := mem_image.mp ha
    obtain ⟨b, hb', rfl⟩ := mem_image.mp hb
    have := congrArg (fun x => x.2.1) e
    simp only [Prod.snd_mul, Prod.fst_mul, mul_one] at this
    exact (bit g.2.1).1 this
  · intro a ha; obtain ⟨a, ha', rfl⟩ := mem_image.mp ha
    exact mem_image.mpr ⟨a⁻¹, hA a ha', by simp [inv1]⟩
  · intro b hb; obtain ⟨b, hb', rfl⟩ := mem_image.mp hb
    exact mem_image.mpr ⟨b⁻¹, hB b hb', by simp [inv1]⟩

/-- a worklist that starts from 1 and is closed under the moves holds exactly the component of 1 -/
theorem component (A B S : Set G) (h1 : (1 : G) ∈ S) (ha : ∀ a ∈ A, ∀ g ∈ S, a * g ∈ S) (hb : ∀ b ∈ B, ∀ g ∈ S, g * b ∈ S)
    (x y : G) (hx : x ∈ Submonoid.closure A) (hy : y ∈ Submonoid.closure B) : x * y ∈ S := by
  have r : ∀ y ∈ Submonoid.closure B, ∀ g ∈ S, g * y ∈ S := by
    intro y hy
    induction hy using Submonoid.closure_induction with
    | mem b hb' => exact fun g hg => hb b hb' g hg
    | one => intro g hg; simpa using hg
    | mul p q _ _ ip iq => intro g hg; rw [← mul_assoc]; exact iq _ (ip g hg)
  have l : ∀ x ∈ Submonoid.closure A, ∀ g ∈ S, x * g ∈ S := by
    intro x hx
    induction hx using Submonoid.closure_induction with
    | mem a ha' => exact fun g hg => ha a ha' g hg
    | one => intro g hg; simpa using hg
    | mul p q _ _ ip iq => intro g hg; rw [mul_assoc]; exact ip _ (iq g hg)
  exact l x hx _ (by simpa using r y hy 1 h1)

/-- the moves g ↦ a g b of `get_subgraphs` reach a' a g, so that every vertex of the other side gets all of its faces -/
theorem two_steps (A B S : Set G) (hb : ∀ b ∈ B, b⁻¹ ∈ B) (b : G) (hB : b ∈ B) (h : ∀ a ∈ A, ∀ b ∈ B, ∀ g ∈ S, a * g * b ∈ S)
    (a a' g : G) (ha : a ∈ A) (ha' : a' ∈ A) (hg : g ∈ S) : a' * (a * g) ∈ S := by
  have := h a' ha' b⁻¹ (hb b hB) _ (h a ha b hB g hg)
  simpa [mul_assoc] using this

/-- and the face (a', b') of the vertex a g is the one that is added for the vertex a' a g, with the label (a', b') -/
theorem other_side (a a' b' g : G) : face (a' * (a * g)) a'⁻¹ b' = face (a * g) a' b' ∧ a'⁻¹ * (a' * (a * g)) = a * g :=
  ⟨face_left (a * g) a' b', inv_mul_cancel_left a' (a * g)⟩

end Cayley
