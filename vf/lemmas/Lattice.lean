import Mathlib

/-! Quasi-cyclic layouts: what follows from the contracts of `get_node_label_from_orders`, `get_order`, `is_valid_basis`,
`modular_inverse` and `change_poly_basis`. -/

namespace Lattice

set_option linter.unusedSectionVars false

/-- labels determine indices, and indices determine labels -/
theorem digits_unique {R₀ R₁ s a b s' a' b' : ℤ} (ha : 0 ≤ a ∧ a < R₀) (hb : 0 ≤ b ∧ b < R₁) (ha' : 0 ≤ a' ∧ a' < R₀)
    (hb' : 0 ≤ b' ∧ b' < R₁) (e : (s * R₀ + a) * R₁ + b = (s' * R₀ + a') * R₁ + b') : s = s' ∧ a = a' ∧ b = b' := by
  have h1 : (0:ℤ) < R₁ := by omega
  have h0 : (0:ℤ) < R₀ := by omega
  have eb : b = b' := by
    have := congrArg (· % R₁) e
    simpa [Int.add_comm, Int.add_mul_emod_self_right, Int.emod_eq_of_lt hb.1 hb.2, Int.emod_eq_of_lt hb'.1 hb'.2] using this
  subst eb
  have e2 : s * R₀ + a = s' * R₀ + a' := by
    have : (s * R₀ + a) * R₁ = (s' * R₀ + a') * R₁ := by linarith
    exact mul_right_cancel₀ h1.ne' this
  have ea : a = a' := by
    have := congrArg (· % R₀) e2
    simpa [Int.add_comm, Int.add_mul_emod_self_right, Int.emod_eq_of_lt ha.1 ha.2, Int.emod_eq_of_lt ha'.1 ha'.2] using this
  subst ea
  exact ⟨mul_right_cancel₀ h0.ne' (by linarith : s * R₀ = s' * R₀), rfl, rfl⟩

/-- `get_order` is the period of a vector -/
theorem period (R₀ R₁ : ℕ) [NeZero R₀] [NeZero R₁] (v₀ v₁ : ℤ) :
    addOrderOf ((v₀ : ZMod R₀), (v₁ : ZMod R₁)) = Nat.lcm (R₀ / Int.gcd v₀ R₀) (R₁ / Int.gcd v₁ R₁) := by
  have one : ∀ (n : ℕ) [NeZero n] (v : ℤ), addOrderOf (v : ZMod n) = n / Int.gcd v n := by
    intro n _ v
    have h0 : 0 ≤ v % (n:ℤ) := Int.emod_nonneg _ (by exact_mod_cast NeZero.ne n)
    have h1 : (((v % n).toNat : ℕ) : ℤ) = v % n := Int.toNat_of_nonneg h0
    have h : (v : ZMod n) = ((v % n).toNat : ZMod n) := by
      have h2 : (((v % n : ℤ)) : ZMod n) = (v : ZMod n) := by simp
      rw [← h2, ← h1]; norm_cast
    rw [h, ZMod.addOrderOf_coe _ (NeZero.ne n)]
    congr 1
    have h3 : Int.gcd (v % n) n = Int.gcd v n := by
      rw [Int.emod_def]; simp [Int.gcd_sub_mul_right_left]
    have h4 : Int.gcd v n = (v % n).toNat.gcd n := by
      rw [← h3]; conv_lhs => rw [← h1]
      exact Int.gcd_natCast_natCast _ _
    rw [h4, Nat.gcd_comm]
  rw [Prod.addOrderOf_mk, one, one]

variable {G H : Type*} [AddCommGroup G] [AddCommGroup H]

/-- combinations of g and h repeat with the periods of g and h -/
theorem reduce (g h : G) (hg : 0 < addOrderOf g) (hh : 0 < addOrderOf h) (i j : ℤ) :
    ∃ i' < addOrderOf g, ∃ j' < addOrderOf h, (i' : ℤ) • g + (j' : ℤ) • h = i • g + j • h := by
  have key : ∀ (x : G) (k : ℤ), 0 < addOrderOf x → ∃ k' < addOrderOf x, (k' : ℤ) • x = k • x := by
    intro x k hx
    have hp : (0:ℤ) < addOrderOf x := by exact_mod_cast hx
    refine ⟨(k % addOrderOf x).toNat, ?_, ?_⟩
    · have := Int.emod_lt_of_pos k hp
      have := Int.emod_nonneg k hp.ne'
      omega
    · rw [Int.toNat_of_nonneg (Int.emod_nonneg k hp.ne')]
      exact mod_addOrderOf_zsmul x k
  obtain ⟨i', hi, ei⟩ := key g i hg
  obtain ⟨j', hj, ej⟩ := key h j hh
  exact ⟨i', hi, j', hj, by rw [ei, ej]⟩

/-- `modular_inverse` raises an error only if no integers solve the equation -/
theorem search_is_complete (g h c : G) (hg : 0 < addOrderOf g) (hh : 0 < addOrderOf h)
    (none : ∀ i < addOrderOf g, ∀ j < addOrderOf h, (i : ℤ) • g + (j : ℤ) • h ≠ c) : ∀ i j : ℤ, i • g + j • h ≠ c := by
  intro i j e
  obtain ⟨i', hi, j', hj, e'⟩ := reduce g h hg hh i j
  exact none i' hi j' hj (e'.trans e)

/-- the homomorphism from Z_o(g) x Z_o(h) that a basis defines -/
noncomputable def basis (g h : G) : ZMod (addOrderOf g) × ZMod (addOrderOf h) →+ G :=
  AddMonoidHom.coprod
    (ZMod.lift (addOrderOf g) ⟨(zmultiplesHom G) g, by simp [addOrderOf_nsmul_eq_zero]⟩)
    (ZMod.lift (addOrderOf h) ⟨(zmultiplesHom G) h, by simp [addOrderOf_nsmul_eq_zero]⟩)

theorem basis_apply (g h : G) (i j : ℤ) : basis g h ((i : ZMod _), (j : ZMod _)) = i • g + j • h := by
  simp [basis, ZMod.lift_coe]

/-- `is_valid_basis`: a basis defines an isomorphism -/
theorem valid_basis [Fintype G] (g h : G) (card : addOrderOf g * addOrderOf h = Fintype.card G)
    (all : ∀ x : G, ∃ i j : ℤ, i • g + j • h = x) : Function.Bijective (basis g h) := by
  have : NeZero (addOrderOf g) := ⟨(addOrderOf_pos g).ne'⟩
  have : NeZero (addOrderOf h) := ⟨(addOrderOf_pos h).ne'⟩
  rw [Fintype.bijective_iff_surjective_and_card]
  constructor
  · intro x
    obtain ⟨i, j, e⟩ := all x
    exact ⟨((i : ZMod _), (j : ZMod _)), by rw [basis_apply, e]⟩
  · simp [ZMod.card, card]

/-- signs of the members of a basis do not matter -/
theorem signs (g h : G) (x : G) (e : ∃ i j : ℤ, i • g + j • h = x) :
    (∃ i j : ℤ, i • (-g) + j • h = x) ∧ (∃ i j : ℤ, i • g + j • (-h) = x) ∧ (∃ i j : ℤ, i • (-g) + j • (-h) = x)
      ∧ addOrderOf (-g) = addOrderOf g := by
  obtain ⟨i, j, e⟩ := e
  exact ⟨⟨-i, j, by simpa using e⟩, ⟨i, -j, by simpa using e⟩, ⟨-i, -j, by simpa using e⟩, by simp⟩

/-- `change_poly_basis`: the new exponents of x^i y^j, with x = u g + v h and y = u' g + v' h -/
theorem new_exponents (g h x y : G) (u v u' v' i j : ℤ) (hx : u • g + v • h = x) (hy : u' • g + v' • h = y) :
    (i * u + j * u') • g + (i * v + j * v') • h = i • x + j • y := by
  subst hx hy
  simp only [add_smul, mul_smul, smul_add]
  abel

variable {F : Type*} [Field F]

/-- the matrix of a polynomial: row v has the coefficient p e in column v + e -/
def shift (p : G → F) : Matrix G G F := fun v w => p (w - v)

/-- an isomorphism of groups relabels rows and columns -/
theorem relabel (φ : G ≃+ H) (p : H → F) (v w : G) : shift (p ∘ φ) v w = shift p (φ v) (φ w) := by
  simp [shift]

/-- a factor x^e of a polynomial shifts the columns: qubits are permuted -/
theorem shifted (p : G → F) (e v w : G) : shift (fun x => p (x + e)) v w = shift p v (w + e) := by
  simp only [shift]; congr 1; abel

/-- commuting shifts: the checks of a code with blocks (A, B) and (Bᵀ, -Aᵀ) commute -/
theorem shifts_commute [Fintype G] (p q : G → F) : shift p * shift q = shift q * shift p := by
  ext v w
  simp only [Matrix.mul_apply, shift]
  refine Fintype.sum_equiv ((Equiv.neg G).trans (Equiv.addRight (v + w))) _ _ fun x => ?_
  simp only [Equiv.trans_apply, Equiv.neg_apply, Equiv.coe_addRight]
  rw [mul_comm]
  congr 2 <;> abel

end Lattice
