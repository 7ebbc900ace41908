import Mathlib

/-!
Rotated surface codes with `R` rows and `C` columns, over any field (C19).

A function `v : ℤ → ℤ → F` that vanishes outside of the grid is an operator of one type. The tile `(r, c)` covers the
qubits `(r, c), (r, c + 1), (r + 1, c), (r + 1, c + 1)` that lie in the grid. Tiles of the first kind (`Even (r + c + p)`,
`0 ≤ r < R - 1`, `-1 ≤ c ≤ C - 1`) are the stabilizers of this type; those of the second kind (`Odd (r + c + p)`,
`-1 ≤ r ≤ R - 1`, `0 ≤ c < C - 1`) are the checks of the operator, with alternating signs.
X-type operators: `p = 0`. Z-type operators: after multiplication with the alternating signs and exchange of rows and
columns, `p = 1` (`twist`).
-/

open Finset

namespace Surface

variable {F : Type*} [Field F]

def inGrid (R C : ℕ) (i j : ℤ) : Prop := 0 ≤ i ∧ i < R ∧ 0 ≤ j ∧ j < C

/-- A tile of the first kind. -/
def first (R C : ℕ) (p r c : ℤ) : Prop := 0 ≤ r ∧ r < (R : ℤ) - 1 ∧ -1 ≤ c ∧ c ≤ (C : ℤ) - 1 ∧ (r + c + p) % 2 = 0

/-- A tile of the second kind. -/
def second (R C : ℕ) (p r c : ℤ) : Prop := -1 ≤ r ∧ r ≤ (R : ℤ) - 1 ∧ 0 ≤ c ∧ c < (C : ℤ) - 1 ∧ (r + c + p) % 2 = 1

/-- The value of a check of the second kind. -/
def D (v : ℤ → ℤ → F) (r c : ℤ) : F := v r c - v r (c + 1) - v (r + 1) c + v (r + 1) (c + 1)

/-- The sum of the tiles `(r, c)` with coefficients `A r c`: a qubit is covered by four tiles. -/
def T (A : ℤ → ℤ → F) (i j : ℤ) : F := A i j + A (i - 1) j + A i (j - 1) + A (i - 1) (j - 1)

/-- `v` satisfies all checks of the second kind. -/
def Closed (R C : ℕ) (p : ℤ) (v : ℤ → ℤ → F) : Prop := ∀ r c, second R C p r c → D v r c = 0

/-- `v` is an operator on the grid. -/
def OnGrid (R C : ℕ) (v : ℤ → ℤ → F) : Prop := ∀ i j, ¬ inGrid R C i j → v i j = 0

/-- `v` is a product of tiles of the first kind. -/
def Trivial (R C : ℕ) (p : ℤ) (v : ℤ → ℤ → F) : Prop :=
  ∃ A : ℤ → ℤ → F, (∀ r c, ¬ first R C p r c → A r c = 0) ∧ ∀ i j, inGrid R C i j → v i j = T A i j

/-- The last row. -/
def row (R : ℕ) (C : ℕ) (i j : ℤ) : F := open Classical in if i = R - 1 ∧ 0 ≤ j ∧ j < C then 1 else 0

/-- Stabilizers satisfy the checks. -/
theorem trivial_closed {R C : ℕ} {p : ℤ} {v : ℤ → ℤ → F} (hv : OnGrid R C v) (ht : Trivial R C p v) : Closed R C p v := by
  obtain ⟨A, hA, hT⟩ := ht
  rintro r c ⟨h1, h2, h3, h4, h5⟩
  have e : ∀ i j, (i + j + p) % 2 = 1 → A i j = 0 := fun i j h => hA i j (by rintro ⟨-, -, -, -, h'⟩; omega)
  have top : ∀ j, A (-1) j = 0 := fun j => hA _ _ (by rintro ⟨h, -⟩; omega)
  have bot : ∀ j, A ((R : ℤ) - 1) j = 0 := fun j => hA _ _ (by rintro ⟨-, h, -⟩; omega)
  have z1 := e (r - 1) (c - 1) (by omega)
  have z2 := e (r - 1) (c + 1) (by omega)
  have z3 := e (r + 1) (c - 1) (by omega)
  have z4 := e (r + 1) (c + 1) (by omega)
  have row0 : ∀ j : ℤ, 0 ≤ j → j < C → v r j = T A r j - (if r = -1 then T A r j else 0) := by
    intro j hj hj'
    by_cases hr : r = -1
    · rw [if_pos hr, sub_self]; exact hv _ _ (by rintro ⟨h, -⟩; omega)
    · rw [if_neg hr, sub_zero]; exact hT _ _ ⟨by omega, by omega, hj, hj'⟩
  have row1 : ∀ j : ℤ, 0 ≤ j → j < C → v (r + 1) j = T A (r + 1) j - (if r = R - 1 then T A (r + 1) j else 0) := by
    intro j hj hj'
    by_cases hr : r = R - 1
    · rw [if_pos hr, sub_self]; exact hv _ _ (by rintro ⟨-, h, -⟩; omega)
    · rw [if_neg hr, sub_zero]; exact hT _ _ ⟨by omega, by omega, hj, hj'⟩
  unfold D
  rw [row0 c (by omega) (by omega), row0 (c + 1) (by omega) (by omega), row1 c (by omega) (by omega), row1 (c + 1) (by omega) (by omega)]
  have hm : ∀ i j : ℤ, i - 1 < 0 → i - 1 ≤ -1 → A (i - 1) j = 0 := fun i j h _ => hA _ _ (by rintro ⟨h', -⟩; omega)
  simp only [T, add_sub_cancel_right] at *
  by_cases ha : r = -1 <;> by_cases hb : r = R - 1
  · simp [ha]
    have : (R : ℤ) = 0 := by omega
    simp [this]
  · subst ha
    have y1 := hA (-1 - 1) c (by rintro ⟨h, -⟩; omega)
    have y2 := hA (-1 - 1) (c + 1) (by rintro ⟨h, -⟩; omega)
    have y3 := hA (-1 - 1) (c - 1) (by rintro ⟨h, -⟩; omega)
    simp only [if_true, if_neg hb, top, z3, z4]
    ring
  · have y1 := hA (r + 1) c (by rintro ⟨-, h, -⟩; omega)
    have y2 := hA (r + 1) (c + 1) (by rintro ⟨-, h, -⟩; omega)
    have y3 := hA (r + 1) (c - 1) (by rintro ⟨-, h, -⟩; omega)
    have x1 := hA r c (by rintro ⟨-, h, -⟩; omega)
    have x2 := hA r (c + 1) (by rintro ⟨-, h, -⟩; omega)
    have x3 := hA r (c - 1) (by rintro ⟨-, h, -⟩; omega)
    simp only [if_neg ha, if_pos hb, x1, x2, x3, z1, z2]
    ring
  · simp only [if_neg ha, if_neg hb, z1, z2, z3, z4]
    ring

theorem row_closed {R C : ℕ} {p : ℤ} : Closed (F := F) R C p (row R C) := by
  rintro r c ⟨h1, h2, h3, h4, h5⟩
  have a : ∀ i, (row R C i c : F) = row R C i (c + 1) := by
    intro i
    unfold row
    congr 1
    apply propext
    constructor <;> rintro ⟨h, h', h''⟩ <;> exact ⟨h, by omega, by omega⟩
  unfold D
  rw [a, a]
  ring

/-- Rows above the last one can be cleaned by stabilizers. -/
theorem clean {R C : ℕ} {p : ℤ} {v : ℤ → ℤ → F} (hv : OnGrid R C v) (hc : Closed R C p v) :
    ∀ n : ℕ, n + 1 ≤ R → ∃ A : ℤ → ℤ → F, (∀ r c, ¬ (first R C p r c ∧ r < n) → A r c = 0) ∧
      ∀ i j : ℤ, 0 ≤ i → i < n → 0 ≤ j → j < C → v i j = T A i j := by
  classical
  intro n
  induction n with
  | zero => intro _; exact ⟨fun _ _ => 0, fun _ _ _ => rfl, fun i j h h' => by push_cast at h'; omega⟩
  | succ n ih =>
    intro hn
    obtain ⟨A, hA, hT⟩ := ih (by omega)
    -- the tile (n, c) cleans the qubits (n, c) and (n, c + 1)
    let w : ℤ → F := fun j => v n j - A (n - 1) j - A (n - 1) (j - 1)
    let B : ℤ → ℤ → F := fun r c => if r = n ∧ first R C p r c then (if c = -1 then w 0 else w c) else A r c
    have hAn : ∀ c, A n c = 0 := fun c => hA _ _ (by rintro ⟨-, h⟩; omega)
    have hBA : ∀ r c : ℤ, r ≠ n → B r c = A r c := fun r c h => by simp [B, h]
    refine ⟨B, ?_, ?_⟩
    · intro r c h
      by_cases hr : r = n ∧ first R C p r c
      · exact absurd ⟨hr.2, by push_cast; omega⟩ h
      · simp only [B, if_neg hr]
        exact hA _ _ (fun h' => h ⟨h'.1, by push_cast; omega⟩)
    · intro i j hi hi' hj hj'
      rcases eq_or_ne i (n : ℤ) with rfl | hin
      · -- the new row
        have hfirst : ∀ c : ℤ, -1 ≤ c → c ≤ (C : ℤ) - 1 → ((n : ℤ) + c + p) % 2 = 0 → first R C p n c :=
          fun c h h' h'' => ⟨by omega, by omega, h, h', h''⟩
        have hB1 : ∀ c, B (n - 1) c = A (n - 1) c := fun c => hBA _ _ (by omega)
        have hBo : ∀ c : ℤ, ((n : ℤ) + c + p) % 2 = 1 → B n c = 0 := by
          intro c h
          have : ¬ ((n : ℤ) = n ∧ first R C p n c) := by rintro ⟨-, -, -, -, -, h'⟩; omega
          simp only [B, if_neg this]
          exact hAn c
        unfold T
        rw [hB1, hB1]
        rcases Int.emod_two_eq_zero_or_one (n + j + p) with hp | hp
        · -- covered by the tile (n, j)
          rw [hBo (j - 1) (by omega)]
          have : (n : ℤ) = n ∧ first R C p n j := ⟨rfl, hfirst j (by omega) (by omega) hp⟩
          have hj1 : ¬ j = -1 := by omega
          simp only [B, if_pos this, if_neg hj1, w]
          ring
        · -- covered by the tile (n, j - 1)
          rw [hBo j hp]
          have : (n : ℤ) = n ∧ first R C p n (j - 1) := ⟨rfl, hfirst (j - 1) (by omega) (by omega) (by omega)⟩
          simp only [B, if_pos this]
          rcases eq_or_ne j 0 with rfl | hj0
          · simp only [w, zero_sub, if_true]; ring
          · have hj1 : ¬ j - 1 = -1 := by omega
            rw [if_neg hj1]
            -- the check (n - 1, j - 1) says that both qubits need the same tile
            have key : w j = w (j - 1) := by
              have hs := hc (n - 1) (j - 1) ⟨by omega, by omega, by omega, by omega, by omega⟩
              unfold D at hs
              rw [sub_add_cancel, sub_add_cancel] at hs
              have e0 : ∀ r c, (r + c + p) % 2 = 1 → A r c = 0 := fun r c h => hA r c (by rintro ⟨⟨-, -, -, -, h'⟩, -⟩; omega)
              rcases Nat.eq_zero_or_pos n with hn0 | hn0
              · have m1 : ∀ c, A ((n : ℤ) - 1) c = 0 := fun c => hA _ _ (by rintro ⟨⟨h, -⟩, -⟩; omega)
                rw [hv (n - 1) (j - 1) (by rintro ⟨h, -⟩; omega), hv (n - 1) j (by rintro ⟨h, -⟩; omega)] at hs
                simp only [w, m1]
                linear_combination hs
              · have q1 := hT (n - 1) (j - 1) (by omega) (by omega) (by omega) (by omega)
                have q2 := hT (n - 1) j (by omega) (by omega) (by omega) (by omega)
                unfold T at q1 q2
                have y1 := e0 (n - 1 - 1) (j - 1 - 1) (by omega)
                have y2 := e0 (n - 1 - 1) j (by omega)
                have y3 := e0 (n - 1) (j - 1) (by omega)
                simp only [w, y1, y2, y3] at q1 q2 ⊢
                linear_combination hs - q1 + q2
            have := key
            simp only [w] at this ⊢
            linear_combination this
      · have hlt : i < n := by push_cast at hi'; omega
        unfold T
        rw [hBA i j hin, hBA _ _ (by omega), hBA i _ hin, hBA _ _ (by omega)]
        exact hT i j hi hlt hj hj'

/-- Every operator that satisfies the checks is a stabilizer times a multiple of the last row. -/
theorem decompose {R C : ℕ} {p : ℤ} (hR : 1 ≤ R) (_hC : 1 ≤ C) {v : ℤ → ℤ → F} (hv : OnGrid R C v) (hc : Closed R C p v) :
    ∃ t : F, Trivial R C p (fun i j => v i j - t * row R C i j) := by
  classical
  obtain ⟨A, hA, hT⟩ := clean hv hc (R - 1) (by omega)
  have hR' : ((R - 1 : ℕ) : ℤ) = (R : ℤ) - 1 := by omega
  rw [hR'] at hT
  -- what is left is supported on the last row, and constant there
  let g : ℤ → ℤ → F := fun i j => if inGrid R C i j then T A i j else 0
  have hA' : ∀ r c, ¬ first R C p r c → A r c = 0 := fun r c h => hA r c (fun h' => h h'.1)
  have hg : OnGrid R C g := fun i j h => by simp [g, h]
  have hgc : Closed R C p g := trivial_closed hg ⟨A, hA', fun i j h => by simp [g, h]⟩
  let u : ℤ → ℤ → F := fun i j => v i j - g i j
  have huc : Closed R C p u := by
    intro r c h
    have h1 := hc r c h
    have h2 := hgc r c h
    unfold D at *
    simp only [u]
    linear_combination h1 - h2
  have hu : ∀ i j, i ≠ (R : ℤ) - 1 → u i j = 0 := by
    intro i j hi
    by_cases h : inGrid R C i j
    · obtain ⟨h1, h2, h3, h4⟩ := id h
      simp only [u, g, if_pos h, hT i j h1 (by omega) h3 h4, sub_self]
    · simp only [u, hv i j h, hg i j h, sub_self]
  have step : ∀ c : ℤ, 0 ≤ c → c < (C : ℤ) - 1 → u (R - 1) c = u (R - 1) (c + 1) := by
    intro c h h'
    rcases Int.emod_two_eq_zero_or_one ((R : ℤ) - 1 + c + p) with hp | hp
    · have := huc ((R : ℤ) - 2) c ⟨by omega, by omega, h, h', by omega⟩
      unfold D at this
      rw [hu _ c (by omega), hu _ (c + 1) (by omega), show (R : ℤ) - 2 + 1 = R - 1 by ring] at this
      linear_combination -this
    · have := huc ((R : ℤ) - 1) c ⟨by omega, by omega, h, h', hp⟩
      unfold D at this
      rw [hu (R - 1 + 1) c (by omega), hu (R - 1 + 1) (c + 1) (by omega)] at this
      linear_combination this
  have const : ∀ n : ℕ, n < C → u (R - 1) n = u (R - 1) 0 := by
    intro n
    induction n with
    | zero => intro _; simp
    | succ n ih =>
      intro h
      rw [← ih (by omega), step n (by omega) (by omega)]
      push_cast
      rfl
  refine ⟨u (R - 1) 0, A, hA', fun i j h => ?_⟩
  obtain ⟨h1, h2, h3, h4⟩ := id h
  have hgi : g i j = T A i j := by simp only [g, if_pos h]
  by_cases hi : i = R - 1
  · subst hi
    have := const j.toNat (by omega)
    rw [Int.toNat_of_nonneg h3] at this
    have hr : (row R C ((R : ℤ) - 1) j : F) = 1 := by simp [row, h3, h4]
    show v (R - 1) j - u (R - 1) 0 * row R C (R - 1) j = T A (R - 1) j
    rw [hr, ← hgi, ← this]
    simp only [u]
    ring
  · have hr : (row R C i j : F) = 0 := by simp [row, hi]
    show v i j - u (R - 1) 0 * row R C i j = T A i j
    rw [hr, ← hgi]
    have := hu i j hi
    simp only [u] at this
    linear_combination this

/-- The alternating sum of a column. -/
def L (R : ℕ) (v : ℤ → ℤ → F) (j : ℤ) : F := ∑ i ∈ range R, (-1) ^ i * v i j

/-- Stabilizers commute with columns. -/
theorem trivial_column {R C : ℕ} {p : ℤ} {v : ℤ → ℤ → F} (ht : Trivial R C p v) {j : ℤ} (h : 0 ≤ j) (h' : j < C) : L R v j = 0 := by
  obtain ⟨A, hA, hT⟩ := ht
  have key : ∀ n : ℕ, n ≤ R → ∑ i ∈ range n, (-1) ^ i * v i j = (-1) ^ (n + 1) * (A (n - 1) j + A (n - 1) (j - 1)) := by
    intro n
    induction n with
    | zero =>
      intro _
      have a := hA (((0 : ℕ) : ℤ) - 1) j (by rintro ⟨h, -⟩; simp at h)
      have b := hA (((0 : ℕ) : ℤ) - 1) (j - 1) (by rintro ⟨h, -⟩; simp at h)
      simp only [a, b]; simp
    | succ n ih =>
      intro hn
      rw [sum_range_succ, ih (by omega), hT n j ⟨by omega, by omega, h, h'⟩]
      unfold T
      push_cast
      rw [add_sub_cancel_right]
      ring
  unfold L
  rw [key R le_rfl, hA ((R : ℤ) - 1) j (by rintro ⟨-, h, -⟩; omega), hA ((R : ℤ) - 1) (j - 1) (by rintro ⟨-, h, -⟩; omega)]
  ring

/-- All columns see the same of an operator that satisfies the checks. -/
theorem column_step {R C : ℕ} {p : ℤ} {v : ℤ → ℤ → F} (hv : OnGrid R C v) (hc : Closed R C p v) {j : ℤ} (h : 0 ≤ j) (h' : j < (C : ℤ) - 1) :
    L R v j = L R v (j + 1) := by
  let d : ℤ → F := fun i => v i j - v i (j + 1)
  have hd : ∀ r : ℤ, -1 ≤ r → r ≤ (R : ℤ) - 1 → (r + j + p) % 2 = 1 → d r = d (r + 1) := by
    intro r h1 h2 h3
    have := hc r j ⟨h1, h2, h, h', h3⟩
    unfold D at this
    simp only [d]
    linear_combination this
  have d0 : d (-1) = 0 := by
    simp only [d]; rw [hv _ j (by rintro ⟨h, -⟩; omega), hv _ (j + 1) (by rintro ⟨h, -⟩; omega)]; ring
  have dR : d R = 0 := by
    simp only [d]; rw [hv _ j (by rintro ⟨-, h, -⟩; omega), hv _ (j + 1) (by rintro ⟨-, h, -⟩; omega)]; ring
  have key : ∀ n : ℕ, n ≤ R → ∑ i ∈ range n, (-1) ^ i * d i = if ((n : ℤ) + j + p) % 2 = 1 then 0 else (-1) ^ (n + 1) * d (n - 1) := by
    intro n
    induction n with
    | zero => intro _; simp [d0]
    | succ n ih =>
      intro hn
      rw [sum_range_succ, ih (by omega)]
      push_cast
      rw [add_sub_cancel_right]
      rcases Int.emod_two_eq_zero_or_one (n + j + p) with hp | hp
      · rw [if_neg (by omega), if_pos (by omega)]
        have := hd (n - 1) (by omega) (by omega) (by omega)
        rw [sub_add_cancel] at this
        rw [this]; ring
      · rw [if_pos hp, if_neg (by omega)]
        ring
  have total : ∑ i ∈ range R, (-1) ^ i * d i = 0 := by
    rw [key R le_rfl]
    split_ifs with hp
    · rfl
    · have := hd (R - 1) (by omega) (by omega) (by omega)
      rw [sub_add_cancel, dR] at this
      rw [this, mul_zero]
  have : L R v j - L R v (j + 1) = 0 := by
    unfold L
    rw [← sum_sub_distrib, ← total]
    refine sum_congr rfl fun i _ => ?_
    simp only [d]; ring
  exact sub_eq_zero.mp this

theorem columns_agree {R C : ℕ} {p : ℤ} {v : ℤ → ℤ → F} (hv : OnGrid R C v) (hc : Closed R C p v) (n : ℕ) (h : n < C) : L R v n = L R v 0 := by
  induction n with
  | zero => simp
  | succ n ih =>
    have e : (((n + 1 : ℕ)) : ℤ) = (n : ℤ) + 1 := by push_cast; rfl
    rw [e, ← column_step hv hc (j := (n : ℤ)) (by omega) (by omega), ih (by omega)]

theorem row_column {R C : ℕ} (hR : 1 ≤ R) {j : ℤ} (h : 0 ≤ j) (h' : j < C) : L R (row R C : ℤ → ℤ → F) j = (-1) ^ (R - 1) := by
  unfold L
  rw [sum_eq_single (R - 1)]
  · have : ((R - 1 : ℕ) : ℤ) = (R : ℤ) - 1 := by omega
    rw [this]
    simp [row, h, h']
  · intro i _ hi
    have : ¬ (i : ℤ) = R - 1 := by omega
    simp [row, this]
  · intro h; simp at h; omega

theorem row_onGrid {R C : ℕ} (hR : 1 ≤ R) : OnGrid R C (row R C : ℤ → ℤ → F) := by
  intro i j h
  unfold row
  rw [if_neg]
  rintro ⟨h1, h2, h3⟩
  exact h ⟨by omega, by omega, h2, h3⟩

/-- One logical qudit: operators that satisfy the checks are stabilizers times a unique multiple of the last row. -/
theorem one_logical {R C : ℕ} {p : ℤ} (hR : 1 ≤ R) (hC : 1 ≤ C) {v : ℤ → ℤ → F} (hv : OnGrid R C v) (hc : Closed R C p v) :
    ∃! t : F, Trivial R C p (fun i j => v i j - t * row R C i j) := by
  obtain ⟨t, ht⟩ := decompose hR hC hv hc
  have val : ∀ s : F, Trivial R C p (fun i j => v i j - s * row R C i j) → s * (-1) ^ (R - 1) = L R v 0 := by
    intro s hs
    have := trivial_column hs (j := 0) le_rfl (by omega)
    have r0 := row_column (F := F) (R := R) (C := C) hR (j := 0) le_rfl (by omega)
    have split : L R (fun i j => v i j - s * row R C i j) 0 = L R v 0 - s * L R (row R C) 0 := by
      unfold L
      rw [mul_sum, ← sum_sub_distrib]
      exact sum_congr rfl fun i _ => by ring
    rw [split, r0] at this
    exact (sub_eq_zero.mp this).symm
  refine ⟨t, ht, fun s hs => ?_⟩
  have := (val s hs).trans (val t ht).symm
  exact mul_right_cancel₀ (pow_ne_zero _ (neg_ne_zero.mpr one_ne_zero)) this

/-- The last row is a nontrivial logical operator. -/
theorem row_nontrivial {R C : ℕ} {p : ℤ} (hR : 1 ≤ R) (hC : 1 ≤ C) : ¬ Trivial R C p (row R C : ℤ → ℤ → F) := by
  intro h
  have := trivial_column h (j := 0) le_rfl (by omega)
  rw [row_column hR le_rfl (by omega)] at this
  exact pow_ne_zero _ (neg_ne_zero.mpr one_ne_zero) this

/-- A nontrivial operator that satisfies the checks meets every column: its weight is at least the number of columns. -/
theorem distance {R C : ℕ} {p : ℤ} (hR : 1 ≤ R) (hC : 1 ≤ C) {v : ℤ → ℤ → F} (hv : OnGrid R C v) (hc : Closed R C p v)
    (hn : ¬ Trivial R C p v) (S : Finset (ℤ × ℤ)) (hS : ∀ i j, v i j ≠ 0 → (i, j) ∈ S) : C ≤ S.card := by
  classical
  have hL : L R v 0 ≠ 0 := by
    intro h0
    obtain ⟨t, ht⟩ := decompose hR hC hv hc
    have := trivial_column ht (j := 0) le_rfl (by omega)
    have r0 := row_column (F := F) (R := R) (C := C) hR (j := 0) le_rfl (by omega)
    have split : L R (fun i j => v i j - t * row R C i j) 0 = L R v 0 - t * L R (row R C) 0 := by
      unfold L
      rw [mul_sum, ← sum_sub_distrib]
      exact sum_congr rfl fun i _ => by ring
    rw [split, r0, h0, zero_sub, neg_eq_zero, mul_eq_zero] at this
    rcases this with h | h
    · exact hn (by simpa [h] using ht)
    · exact pow_ne_zero _ (neg_ne_zero.mpr one_ne_zero) h
  have meet : ∀ n : ℕ, n < C → ∃ i : ℤ, v i n ≠ 0 := by
    intro n h
    by_contra h'
    push Not at h'
    rw [← columns_agree hv hc n h] at hL
    exact hL (by unfold L; exact sum_eq_zero fun i _ => by rw [h', mul_zero])
  choose! f hf using meet
  calc C = ((range C).image fun n : ℕ => (f n, (n : ℤ))).card := by
        rw [card_image_of_injOn, card_range]
        intro a _ b _ h
        simpa using congrArg Prod.snd h
    _ ≤ S.card := card_le_card fun x hx => by
        obtain ⟨n, hn', rfl⟩ := mem_image.mp hx
        exact hS _ _ (hf n (mem_range.mp hn'))

/-- The last row has this weight. -/
theorem row_weight {R C : ℕ} (i j : ℤ) : (row R C i j : F) ≠ 0 ↔ (i, j) ∈ (range C).image fun n : ℕ => ((R : ℤ) - 1, (n : ℤ)) := by
  unfold row
  split_ifs with h
  · simp only [ne_eq, one_ne_zero, not_false_eq_true, true_iff, mem_image, mem_range]
    exact ⟨j.toNat, by omega, by rw [Int.toNat_of_nonneg h.2.1, h.1]⟩
  · simp only [ne_eq, not_true_eq_false, false_iff, mem_image, mem_range]
    rintro ⟨n, hn, he⟩
    have h1 := congrArg Prod.fst he
    have h2 := congrArg Prod.snd he
    simp only at h1 h2
    exact h ⟨h1.symm, by omega, by omega⟩

/-- Z-type operators: after multiplication with alternating signs and exchange of rows and columns, the X-type checks
(sums over tiles) are checks of the second kind, and the Z-type stabilizers (alternating sums) are tiles. -/
theorem twist (s v : ℤ → ℤ → F) (hr : ∀ i j, s (i + 1) j = -s i j) (hc : ∀ i j, s i (j + 1) = -s i j) (r c : ℤ) :
    D (fun j i => s i j * v i j) c r = s r c * (v r c + v r (c + 1) + v (r + 1) c + v (r + 1) (c + 1)) := by
  unfold D
  simp only [hr, hc]
  ring

theorem twist_tile (s A : ℤ → ℤ → F) (hr : ∀ i j, s (i + 1) j = -s i j) (hc : ∀ i j, s i (j + 1) = -s i j)
    (hA : ℤ → ℤ → F) (i j : ℤ) (he : ∀ r c, hA r c = s c r * A c r) :
    T hA j i = s i j * (A i j - A i (j - 1) - A (i - 1) j + A (i - 1) (j - 1)) := by
  have h1 := hr (i - 1) j
  have h2 := hc i (j - 1)
  have h3 := hr (i - 1) (j - 1)
  rw [sub_add_cancel] at h1 h2 h3
  unfold T
  simp only [he]
  have h4 : s (i - 1) j = -s i j := by rw [h1, neg_neg]
  have h5 : s i (j - 1) = -s i j := by rw [h2, neg_neg]
  have h6 : s (i - 1) (j - 1) = s i j := by rw [h2, h3, neg_neg]
  rw [h4, h5, h6]
  ring

/-- Tiles of the second kind are tiles of the first kind after the exchange of rows and columns. -/
theorem twist_kinds {R C : ℕ} {r c : ℤ} : (second R C 0 r c ↔ first C R 1 c r) ∧ (first R C 0 r c ↔ second C R 1 c r) := by
  unfold first second
  constructor <;> constructor <;> rintro ⟨h1, h2, h3, h4, h5⟩ <;> refine ⟨?_, ?_, ?_, ?_, ?_⟩ <;> omega

end Surface
