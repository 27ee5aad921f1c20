/- Mathematical lemmas behind the contracts of C03.  A = N⁻¹ and K = MᵀAM:
       P = A - A M K⁻¹ Mᵀ A
   is the operator MarginalizingNmat.solve applies (the contracts), log|N| + log|K| + m log φ its log-determinant. -/
import Mathlib

open Matrix Filter Topology

set_option linter.unusedSectionVars false

namespace C03

variable {n m : Type*} [Fintype n] [DecidableEq n] [Fintype m] [DecidableEq m]

/-- The Gram matrix of the columns. -/
noncomputable def K (N : Matrix n n ℝ) (M : Matrix n m ℝ) : Matrix m m ℝ := Mᵀ * N⁻¹ * M

/-- The operator with the columns of M marginalised. -/
noncomputable def P (N : Matrix n n ℝ) (M : Matrix n m ℝ) : Matrix n n ℝ := N⁻¹ - N⁻¹ * M * (K N M)⁻¹ * Mᵀ * N⁻¹

/-- It annihilates the columns of M. -/
theorem annihilates (N : Matrix n n ℝ) (M : Matrix n m ℝ) (h : IsUnit (K N M).det) : P N M * M = 0 := by
  have : N⁻¹ * M * (K N M)⁻¹ * Mᵀ * N⁻¹ * M = N⁻¹ * M * ((K N M)⁻¹ * K N M) := by
    simp only [K, Matrix.mul_assoc]
  rw [P, Matrix.sub_mul, this, nonsing_inv_mul _ h, Matrix.mul_one, sub_self]

/-- Adding any combination of the columns to the operand changes nothing. -/
theorem shift_invariant {k : Type*} [Fintype k] (N : Matrix n n ℝ) (M : Matrix n m ℝ) (h : IsUnit (K N M).det) (r : Matrix n k ℝ) (c : Matrix m k ℝ) :
    P N M * (r + M * c) = P N M * r := by
  rw [Matrix.mul_add, ← Matrix.mul_assoc, annihilates N M h, Matrix.zero_mul, add_zero]

/-- Covariance with an explicit prior of variance φ on the coefficients of the columns: its inverse. -/
theorem explicit_inv (N : Matrix n n ℝ) (M : Matrix n m ℝ) (hN : IsUnit N.det) (φ : ℝ) (hφ : φ ≠ 0)
    (h : IsUnit (φ⁻¹ • (1 : Matrix m m ℝ) + K N M).det) :
    (N + φ • (M * Mᵀ)) * (N⁻¹ - N⁻¹ * M * (φ⁻¹ • (1 : Matrix m m ℝ) + K N M)⁻¹ * Mᵀ * N⁻¹) = 1 := by
  set S := φ⁻¹ • (1 : Matrix m m ℝ) + K N M with hS
  have hNA : N * N⁻¹ = 1 := mul_nonsing_inv _ hN
  have hK : φ • K N M = φ • S - 1 := by
    rw [hS, smul_add, smul_smul, mul_inv_cancel₀ hφ, one_smul, add_sub_cancel_left]
  have hSS : S * S⁻¹ = 1 := mul_nonsing_inv _ h
  have e1 : φ • (M * Mᵀ) * (N⁻¹ * M * S⁻¹ * Mᵀ * N⁻¹) = M * ((φ • K N M) * S⁻¹) * Mᵀ * N⁻¹ := by
    simp only [K, Matrix.mul_assoc, Matrix.smul_mul, Matrix.mul_smul]
  have e2 : N * (N⁻¹ * M * S⁻¹ * Mᵀ * N⁻¹) = M * S⁻¹ * Mᵀ * N⁻¹ := by
    simp only [← Matrix.mul_assoc]; rw [hNA, Matrix.one_mul]
  have e3 : (φ • S - 1) * S⁻¹ = φ • (1 : Matrix m m ℝ) - S⁻¹ := by rw [Matrix.sub_mul, Matrix.smul_mul, hSS, Matrix.one_mul]
  rw [Matrix.add_mul, Matrix.mul_sub, Matrix.mul_sub, e1, e2, hNA, hK, e3]
  simp only [Matrix.mul_sub, Matrix.sub_mul, Matrix.mul_smul, Matrix.mul_one, Matrix.smul_mul, Matrix.mul_assoc]
  abel

/-- Its determinant. -/
theorem explicit_det (N : Matrix n n ℝ) (M : Matrix n m ℝ) (hN : IsUnit N.det) (φ : ℝ) (hφ : φ ≠ 0) :
    (N + φ • (M * Mᵀ)).det = N.det * (φ ^ Fintype.card m * (φ⁻¹ • (1 : Matrix m m ℝ) + K N M).det) := by
  have hNA : N * N⁻¹ = 1 := mul_nonsing_inv _ hN
  have e1 : N + φ • (M * Mᵀ) = N * (1 + (φ • (N⁻¹ * M)) * Mᵀ) := by
    rw [Matrix.mul_add, Matrix.mul_one, Matrix.smul_mul, Matrix.mul_smul, ← Matrix.mul_assoc, ← Matrix.mul_assoc, hNA, Matrix.one_mul]
  have e2 : (1 : Matrix m m ℝ) + Mᵀ * (φ • (N⁻¹ * M)) = φ • (φ⁻¹ • (1 : Matrix m m ℝ) + K N M) := by
    rw [smul_add, smul_smul, mul_inv_cancel₀ hφ, one_smul, Matrix.mul_smul, ← Matrix.mul_assoc, K]
  rw [e1, det_mul, det_one_add_mul_comm, e2, det_smul]

/-- As the prior variance grows the explicit inverse tends to the marginalised operator ... -/
theorem inv_limit (N : Matrix n n ℝ) (M : Matrix n m ℝ) (h : IsUnit (K N M).det) :
    Tendsto (fun φ : ℝ => N⁻¹ - N⁻¹ * M * (φ⁻¹ • (1 : Matrix m m ℝ) + K N M)⁻¹ * Mᵀ * N⁻¹) atTop (𝓝 (P N M)) := by
  have h0 : Tendsto (fun φ : ℝ => φ⁻¹ • (1 : Matrix m m ℝ) + K N M) atTop (𝓝 (K N M)) := by
    have := (tendsto_inv_atTop_zero (𝕜 := ℝ)).smul_const (1 : Matrix m m ℝ)
    simpa using this.add_const (K N M)
  have h1 : ContinuousAt (fun A : Matrix m m ℝ => A⁻¹) (K N M) := by
    have hd : (K N M).det ≠ 0 := h.ne_zero
    have hc : ContinuousAt (fun A : Matrix m m ℝ => (A.det)⁻¹ • A.adjugate) (K N M) :=
      ((continuous_id.matrix_det).continuousAt.inv₀ hd).smul (continuous_id.matrix_adjugate).continuousAt
    refine hc.congr (Filter.Eventually.of_forall fun A => ?_)
    simp [Matrix.inv_def, Ring.inverse_eq_inv']
  have h2 := h1.tendsto.comp h0
  have h3 : Continuous (fun B : Matrix m m ℝ => N⁻¹ - N⁻¹ * M * B * Mᵀ * N⁻¹) := by fun_prop
  exact (h3.tendsto _).comp h2

/-- ... and the log-determinant to log|N| + log|K| + m log φ. -/
theorem logdet_limit (N : Matrix n n ℝ) (M : Matrix n m ℝ) (hN : 0 < N.det) (h : 0 < (K N M).det) :
    Tendsto (fun φ : ℝ => Real.log (N + φ • (M * Mᵀ)).det - (Real.log N.det + Real.log (K N M).det + Fintype.card m * Real.log φ)) atTop (𝓝 0) := by
  have h0 : Tendsto (fun φ : ℝ => (φ⁻¹ • (1 : Matrix m m ℝ) + K N M).det) atTop (𝓝 (K N M).det) := by
    have hc := (continuous_id.matrix_det (n := m) (R := ℝ)).tendsto (K N M)
    have := (tendsto_inv_atTop_zero (𝕜 := ℝ)).smul_const (1 : Matrix m m ℝ)
    have h1 : Tendsto (fun φ : ℝ => φ⁻¹ • (1 : Matrix m m ℝ) + K N M) atTop (𝓝 (K N M)) := by
      simpa using this.add_const (K N M)
    exact hc.comp h1
  have hl := ((Real.continuousAt_log h.ne').tendsto.comp h0).sub_const (Real.log (K N M).det)
  rw [sub_self] at hl
  refine hl.congr' ?_
  filter_upwards [eventually_gt_atTop 0, h0.eventually (lt_mem_nhds h)] with φ hφ hdet
  have hpow : (0 : ℝ) < φ ^ Fintype.card m := pow_pos hφ _
  rw [explicit_det N M hN.ne'.isUnit φ hφ.ne', Real.log_mul hN.ne' (mul_pos hpow hdet).ne', Real.log_mul hpow.ne' hdet.ne', Real.log_pow]
  simp only [Function.comp]
  ring

end C03
