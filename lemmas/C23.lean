/- Mathematical lemmas behind the contracts of C23: the means that the contracts accept are Sigma⁻¹ d, and each of the maps B of the
   standard normal deviates has B Bᵀ = Sigma⁻¹. -/
import Mathlib

open Matrix

namespace C23

variable {n : Type*} [Fintype n] [DecidableEq n]

/-- Cholesky, A = L Lᵀ: B = L⁻ᵀ. -/
theorem chol (A L : Matrix n n ℝ) (h : A = L * Lᵀ) : (L⁻¹)ᵀ * ((L⁻¹)ᵀ)ᵀ = A⁻¹ := by
  rw [transpose_transpose, h, Matrix.mul_inv_rev, transpose_nonsing_inv]

theorem inv_perm (A p L : Matrix n n ℝ) (hP : pᵀ * p = 1) (h : p * A * pᵀ = L * Lᵀ) : A⁻¹ = pᵀ * (L * Lᵀ)⁻¹ * p := by
  have hP' : p * pᵀ = 1 := mul_eq_one_comm.1 hP
  have ip : p⁻¹ = pᵀ := inv_eq_right_inv hP'
  have ipt : (pᵀ)⁻¹ = p := inv_eq_right_inv hP
  rw [← h, Matrix.mul_inv_rev, Matrix.mul_inv_rev, ip, ipt]
  calc A⁻¹ = (pᵀ * p) * A⁻¹ * (pᵀ * p) := by rw [hP]; simp
    _ = pᵀ * (p * (A⁻¹ * pᵀ)) * p := by simp only [Matrix.mul_assoc]

/-- Sparse Cholesky, p A pᵀ = L Lᵀ with a permutation matrix p: B = pᵀ L⁻ᵀ. -/
theorem cholmod (A p L : Matrix n n ℝ) (hP : pᵀ * p = 1) (h : p * A * pᵀ = L * Lᵀ) : (pᵀ * (L⁻¹)ᵀ) * (pᵀ * (L⁻¹)ᵀ)ᵀ = A⁻¹ := by
  rw [inv_perm A p L hP h, transpose_mul, transpose_transpose, transpose_transpose, Matrix.mul_inv_rev, transpose_nonsing_inv]
  simp only [Matrix.mul_assoc]

theorem inv_svd (A u : Matrix n n ℝ) (s : n → ℝ) (hu : uᵀ * u = 1) (hs : ∀ i, 0 < s i) (h : A = u * diagonal s * uᵀ) : A⁻¹ = u * diagonal (fun i => (s i)⁻¹) * uᵀ := by
  apply inv_eq_right_inv
  have d : diagonal s * diagonal (fun i => (s i)⁻¹) = 1 := by
    rw [diagonal_mul_diagonal]
    have : (fun i => s i * (s i)⁻¹) = fun _ => 1 := funext fun i => mul_inv_cancel₀ (hs i).ne'
    rw [this, diagonal_one]
  have hu' : u * uᵀ = 1 := mul_eq_one_comm.1 hu
  rw [h]
  calc u * diagonal s * uᵀ * (u * diagonal (fun i => (s i)⁻¹) * uᵀ) = u * (diagonal s * ((uᵀ * u) * diagonal (fun i => (s i)⁻¹))) * uᵀ := by simp only [Matrix.mul_assoc]
    _ = 1 := by rw [hu, Matrix.one_mul, d, Matrix.mul_one, hu']

/-- The mean by the singular value decomposition A = u diag(s) uᵀ. -/
theorem svd_mean (A u : Matrix n n ℝ) (s d : n → ℝ) (hu : uᵀ * u = 1) (hs : ∀ i, 0 < s i) (h : A = u * diagonal s * uᵀ) :
    (fun i => ∑ j, u i j * ((∑ l, u l j * d l) / s j)) = A⁻¹ *ᵥ d := by
  rw [inv_svd A u s hu hs h, ← mulVec_mulVec, ← mulVec_mulVec]
  funext i
  simp only [mulVec, dotProduct, diagonal_apply, ite_mul, zero_mul, Finset.sum_ite_eq, Finset.mem_univ, if_true, transpose_apply]
  exact Finset.sum_congr rfl fun j _ => by ring

/-- B = u diag(s^(-1/2)). -/
theorem svd (A u : Matrix n n ℝ) (s : n → ℝ) (hu : uᵀ * u = 1) (hs : ∀ i, 0 < s i) (h : A = u * diagonal s * uᵀ) :
    (u * diagonal (fun i => (Real.sqrt (s i))⁻¹)) * (u * diagonal (fun i => (Real.sqrt (s i))⁻¹))ᵀ = A⁻¹ := by
  rw [inv_svd A u s hu hs h, transpose_mul, diagonal_transpose]
  have d : (fun i => (Real.sqrt (s i))⁻¹ * (Real.sqrt (s i))⁻¹) = fun i => (s i)⁻¹ := funext fun i => by
    rw [← mul_inv, Real.mul_self_sqrt (hs i).le]
  calc _ = u * (diagonal (fun i => (Real.sqrt (s i))⁻¹) * diagonal (fun i => (Real.sqrt (s i))⁻¹)) * uᵀ := by simp only [Matrix.mul_assoc]
    _ = _ := by rw [diagonal_mul_diagonal, d]

/-- B = u diag(s^(1/2)), of the decomposition of the inverse I = A⁻¹. -/
theorem svd_inverse (I u : Matrix n n ℝ) (s : n → ℝ) (hs : ∀ i, 0 < s i) (h : I = u * diagonal s * uᵀ) :
    (u * diagonal (fun i => Real.sqrt (s i))) * (u * diagonal (fun i => Real.sqrt (s i)))ᵀ = I := by
  rw [h, transpose_mul, diagonal_transpose]
  have d : (fun i => Real.sqrt (s i) * Real.sqrt (s i)) = s := funext fun i => Real.mul_self_sqrt (hs i).le
  calc _ = u * (diagonal (fun i => Real.sqrt (s i)) * diagonal (fun i => Real.sqrt (s i))) * uᵀ := by simp only [Matrix.mul_assoc]
    _ = _ := by rw [diagonal_mul_diagonal, d]

end C23
