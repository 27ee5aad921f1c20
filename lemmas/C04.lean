/- Mathematical lemmas behind the contracts of C04: what the likelihood returns (the contracts) is, up to the constant, the log
   density of the residuals r under a Gaussian with covariance C = N + F Φ Fᵀ, also with N and F made of the blocks of the pulsars
   (a pulsar without Gaussian process has no columns). -/
import Mathlib

open Matrix

set_option linter.unusedSectionVars false

namespace C04

variable {n m : Type*} [Fintype n] [DecidableEq n] [Fintype m] [DecidableEq m]

/-- The covariance. -/
noncomputable def C (N : Matrix n n ℝ) (F : Matrix n m ℝ) (Φ : Matrix m m ℝ) : Matrix n n ℝ := N + F * Φ * Fᵀ

/-- The conditional covariance's inverse. -/
noncomputable def Sigma (N : Matrix n n ℝ) (F : Matrix n m ℝ) (Φ : Matrix m m ℝ) : Matrix m m ℝ := Fᵀ * N⁻¹ * F + Φ⁻¹

theorem inv_C (N : Matrix n n ℝ) (F : Matrix n m ℝ) (Φ : Matrix m m ℝ) (hN : IsUnit N) (hΦ : IsUnit Φ) (hS : IsUnit (Sigma N F Φ)) :
    (C N F Φ)⁻¹ = N⁻¹ - N⁻¹ * F * (Sigma N F Φ)⁻¹ * Fᵀ * N⁻¹ := by
  have h : Φ⁻¹ + Fᵀ * N⁻¹ * F = Sigma N F Φ := add_comm _ _
  rw [C, add_mul_mul_inv_eq_sub (A := N) (U := F) (C := Φ) (V := Fᵀ) hN hΦ (by rw [h]; exact hS), h]

theorem det_C (N : Matrix n n ℝ) (F : Matrix n m ℝ) (Φ : Matrix m m ℝ) (hN : IsUnit N) (hΦ : IsUnit Φ) :
    (C N F Φ).det = N.det * Φ.det * (Sigma N F Φ).det := by
  have hΦ' : IsUnit Φ.det := (Matrix.isUnit_iff_isUnit_det Φ).1 hΦ
  have hN' : IsUnit N.det := (Matrix.isUnit_iff_isUnit_det N).1 hN
  have e : (1 : Matrix m m ℝ) + Fᵀ * N⁻¹ * (F * Φ) = Sigma N F Φ * Φ := by
    rw [Sigma, Matrix.add_mul, Matrix.nonsing_inv_mul Φ hΦ', ← Matrix.mul_assoc, add_comm]
  rw [C, det_add_mul _ _ hN', e, det_mul]; ring

/-- The quadratic form. -/
theorem quad_C (N : Matrix n n ℝ) (F : Matrix n m ℝ) (Φ : Matrix m m ℝ) (hN : IsUnit N) (hsym : Nᵀ = N) (hΦ : IsUnit Φ) (hS : IsUnit (Sigma N F Φ)) (r : n → ℝ) :
    r ⬝ᵥ (C N F Φ)⁻¹ *ᵥ r = r ⬝ᵥ N⁻¹ *ᵥ r - (Fᵀ *ᵥ N⁻¹ *ᵥ r) ⬝ᵥ (Sigma N F Φ)⁻¹ *ᵥ (Fᵀ *ᵥ N⁻¹ *ᵥ r) := by
  have hi : (N⁻¹)ᵀ = N⁻¹ := by rw [transpose_nonsing_inv, hsym]
  rw [inv_C N F Φ hN hΦ hS, sub_mulVec, dotProduct_sub]
  congr 1
  simp only [← mulVec_mulVec]
  rw [dotProduct_mulVec r N⁻¹, ← mulVec_transpose, hi, dotProduct_mulVec _ F, ← mulVec_transpose]

theorem unit_of_pos {k : Type*} [Fintype k] [DecidableEq k] (A : Matrix k k ℝ) (h : 0 < A.det) : IsUnit A :=
  (Matrix.isUnit_iff_isUnit_det A).2 (isUnit_iff_ne_zero.2 h.ne')

/-- What LogLikelihood returns for one matrix of each kind: white noise term plus the Gaussian process term. -/
theorem density (N : Matrix n n ℝ) (F : Matrix n m ℝ) (Φ : Matrix m m ℝ) (hsym : Nᵀ = N) (hN : 0 < N.det) (hΦ : 0 < Φ.det) (hS : 0 < (Sigma N F Φ).det) (r : n → ℝ) :
    -(1 / 2) * (r ⬝ᵥ (C N F Φ)⁻¹ *ᵥ r + Real.log (C N F Φ).det)
      = -(1 / 2) * (r ⬝ᵥ N⁻¹ *ᵥ r + Real.log N.det)
        + 1 / 2 * ((Fᵀ *ᵥ N⁻¹ *ᵥ r) ⬝ᵥ (Sigma N F Φ)⁻¹ *ᵥ (Fᵀ *ᵥ N⁻¹ *ᵥ r) - Real.log (Sigma N F Φ).det - Real.log Φ.det) := by
  rw [quad_C N F Φ (unit_of_pos N hN) hsym (unit_of_pos Φ hΦ) (unit_of_pos _ hS), det_C N F Φ (unit_of_pos N hN) (unit_of_pos Φ hΦ), Real.log_mul (mul_pos hN hΦ).ne' hS.ne', Real.log_mul hN.ne' hΦ.ne']
  ring

/- The blocks of the pulsars. -/
variable {p : ℕ} {ν μ : Fin p → Type} [∀ k, Fintype (ν k)] [∀ k, DecidableEq (ν k)] [∀ k, Fintype (μ k)] [∀ k, DecidableEq (μ k)]

theorem inv_blocks (N : ∀ k, Matrix (ν k) (ν k) ℝ) (h : ∀ k, IsUnit (N k).det) :
    (blockDiagonal' N)⁻¹ = blockDiagonal' (fun k => (N k)⁻¹) := by
  apply inv_eq_right_inv
  rw [← blockDiagonal'_mul]
  have : (fun k => N k * (N k)⁻¹) = fun k => (1 : Matrix (ν k) (ν k) ℝ) := funext fun k => mul_nonsing_inv _ (h k)
  rw [this]
  exact blockDiagonal'_one

/-- The matrix of all pulsars' terms is made of the blocks of each. -/
theorem TNT_blocks (N : ∀ k, Matrix (ν k) (ν k) ℝ) (F : ∀ k, Matrix (ν k) (μ k) ℝ) (h : ∀ k, IsUnit (N k).det) :
    (blockDiagonal' F)ᵀ * (blockDiagonal' N)⁻¹ * blockDiagonal' F = blockDiagonal' (fun k => (F k)ᵀ * (N k)⁻¹ * F k) := by
  rw [inv_blocks N h, blockDiagonal'_transpose, ← blockDiagonal'_mul, ← blockDiagonal'_mul]

theorem mulVec_blocks (A : ∀ k, Matrix (μ k) (ν k) ℝ) (r : (Σ k, ν k) → ℝ) (k : Fin p) (i : μ k) :
    (blockDiagonal' A *ᵥ r) ⟨k, i⟩ = (A k *ᵥ fun j => r ⟨k, j⟩) i := by
  simp only [mulVec, dotProduct, Fintype.sum_sigma]
  rw [Finset.sum_eq_single k]
  · simp [blockDiagonal'_apply_eq]
  · intro l _ hl
    exact Finset.sum_eq_zero fun j _ => by rw [blockDiagonal'_apply_ne _ _ _ hl.symm, zero_mul]
  · simp

/-- The vectors of the pulsars, one after the other. -/
theorem TNr_blocks (N : ∀ k, Matrix (ν k) (ν k) ℝ) (F : ∀ k, Matrix (ν k) (μ k) ℝ) (h : ∀ k, IsUnit (N k).det) (r : (Σ k, ν k) → ℝ) (k : Fin p) (i : μ k) :
    ((blockDiagonal' F)ᵀ *ᵥ (blockDiagonal' N)⁻¹ *ᵥ r) ⟨k, i⟩ = ((F k)ᵀ *ᵥ (N k)⁻¹ *ᵥ fun j => r ⟨k, j⟩) i := by
  rw [inv_blocks N h, blockDiagonal'_transpose, mulVec_blocks]
  congr 2
  funext j
  rw [mulVec_blocks]

/-- The white-noise quadratic form is the sum over the pulsars. -/
theorem rNr_blocks (N : ∀ k, Matrix (ν k) (ν k) ℝ) (h : ∀ k, IsUnit (N k).det) (r : (Σ k, ν k) → ℝ) :
    r ⬝ᵥ (blockDiagonal' N)⁻¹ *ᵥ r = ∑ k, (fun j => r ⟨k, j⟩) ⬝ᵥ (N k)⁻¹ *ᵥ fun j => r ⟨k, j⟩ := by
  rw [inv_blocks N h, dotProduct, Fintype.sum_sigma]
  exact Finset.sum_congr rfl fun k _ => by
    rw [dotProduct]
    exact Finset.sum_congr rfl fun j _ => by rw [mulVec_blocks]

/-- The determinant is the product over the pulsars. -/
theorem det_blocks (N : ∀ k, Matrix (ν k) (ν k) ℝ) : (blockDiagonal' N).det = ∏ k, (N k).det := by
  have t : BlockTriangular (blockDiagonal' N) (fun x : Σ k, ν k => x.1) := by
    rintro ⟨k, i⟩ ⟨l, j⟩ hkl
    exact blockDiagonal'_apply_ne _ _ _ (ne_of_gt hkl)
  rw [t.det_fintype]
  refine Finset.prod_congr rfl fun k _ => ?_
  let e : ν k ≃ {x : Σ k, ν k // x.1 = k} :=
    { toFun := fun i => ⟨⟨k, i⟩, rfl⟩
      invFun := fun x => x.2 ▸ x.1.2
      left_inv := fun i => rfl
      right_inv := by rintro ⟨⟨l, i⟩, rfl⟩; rfl }
  rw [← det_submatrix_equiv_self e]
  congr 1
  ext i j
  simp [e, toSquareBlock, toSquareBlockProp, blockDiagonal'_apply_eq]

theorem logdet_blocks (N : ∀ k, Matrix (ν k) (ν k) ℝ) (h : ∀ k, 0 < (N k).det) :
    Real.log (blockDiagonal' N).det = ∑ k, Real.log (N k).det := by
  rw [det_blocks, Real.log_prod fun k _ => (h k).ne']

end C04
