/- Mathematical lemmas behind the contracts of C01: the log-determinant the Sherman-Morrison classes return, and the
   solutions of the block forms, are those of one covariance matrix
       N = diag(d) + sum over epochs k of j(k) u(k) u(k)^T,   u(k)(i) = 1 when TOA i lies in epoch k.
   e : n → Option κ maps a TOA to its epoch (none: in no epoch, or alone in it). -/
import Mathlib

open Matrix BigOperators

set_option linter.unusedSectionVars false
set_option linter.unusedSimpArgs false

namespace C01

variable {n κ : Type*} [Fintype n] [DecidableEq n] [Fintype κ] [DecidableEq κ]

/-- Indicator matrix of the epochs. -/
def U (e : n → Option κ) : Matrix n κ ℝ := fun i k => if e i = some k then 1 else 0

/-- The covariance matrix. -/
def N (d : n → ℝ) (e : n → Option κ) (j : κ → ℝ) : Matrix n n ℝ :=
  diagonal d + U e * diagonal j * (U e)ᵀ

/-- Elements of the covariance matrix. -/
theorem N_apply (d : n → ℝ) (e : n → Option κ) (j : κ → ℝ) (a b : n) :
    N d e j a b = (if a = b then d a else 0) + ∑ k, (if e a = some k then 1 else 0) * j k * (if e b = some k then 1 else 0) := by
  simp [N, U, diagonal_apply, Matrix.mul_apply]

/-- Epochs are disjoint: U^T diag(w) U is diagonal. -/
theorem gram (w : n → ℝ) (e : n → Option κ) :
    (U e)ᵀ * diagonal w * U e = diagonal (fun k => ∑ i, if e i = some k then w i else 0) := by
  ext k l
  simp only [Matrix.mul_apply, Matrix.mul_diagonal, transpose_apply, U, diagonal_apply]
  by_cases h : k = l
  · subst h
    simp only [if_true]
    apply Finset.sum_congr rfl
    intro i _
    by_cases hi : e i = some k <;> simp [hi]
  · simp only [h, if_false]
    apply Finset.sum_eq_zero
    intro i _
    by_cases hi : e i = some k
    · have : ¬ (e i = some l) := by rw [hi]; simpa using h
      simp [this]
    · simp [hi]

/-- The determinant lemma. -/
theorem det_N (d : n → ℝ) (hd : ∀ i, 0 < d i) (e : n → Option κ) (j : κ → ℝ) :
    (N d e j).det = (∏ i, d i) * ∏ k, (1 + j k * ∑ i, if e i = some k then 1 / d i else 0) := by
  have h1 : N d e j = diagonal d * (1 + (diagonal (fun i => 1 / d i) * U e) * (diagonal j * (U e)ᵀ)) := by
    have hdd : diagonal d * diagonal (fun i => 1 / d i) = (1 : Matrix n n ℝ) := by
      rw [diagonal_mul_diagonal]
      ext a b
      by_cases h : a = b
      · subst h; simp [(hd a).ne']
      · simp [h]
    rw [Matrix.mul_add, Matrix.mul_one, N]
    simp only [← Matrix.mul_assoc]
    rw [hdd, Matrix.one_mul]
  rw [h1, det_mul, det_diagonal, det_one_add_mul_comm]
  congr 1
  have h2 : diagonal j * (U e)ᵀ * (diagonal (fun i => 1 / d i) * U e)
      = diagonal j * ((U e)ᵀ * diagonal (fun i => 1 / d i) * U e) := by
    simp only [Matrix.mul_assoc]
  rw [h2, gram, diagonal_mul_diagonal, ← diagonal_one, diagonal_add, det_diagonal]

/-- log|N| is what the Sherman-Morrison contract states. -/
theorem logdet_N (d : n → ℝ) (hd : ∀ i, 0 < d i) (e : n → Option κ) (j : κ → ℝ) (hj : ∀ k, 0 < j k) :
    Real.log (N d e j).det = ∑ i, Real.log (d i)
      + ∑ k, Real.log (1 + j k * ∑ i, if e i = some k then 1 / d i else 0) := by
  have hA : ∀ k, 0 < 1 + j k * ∑ i, if e i = some k then 1 / d i else 0 := by
    intro k
    have : 0 ≤ ∑ i, if e i = some k then 1 / d i else 0 := by
      apply Finset.sum_nonneg
      intro i _
      split_ifs
      · exact (one_div_pos.mpr (hd i)).le
      · exact le_refl 0
    have := mul_nonneg (hj k).le this
    linarith
  rw [det_N d hd e j, Real.log_mul (Finset.prod_ne_zero_iff.mpr fun i _ => (hd i).ne')
    (Finset.prod_ne_zero_iff.mpr fun k _ => (hA k).ne'), Real.log_prod fun i _ => (hd i).ne',
    Real.log_prod fun k _ => (hA k).ne']

/-- The covariance matrix is invertible, so a vector y with N y = x is N⁻¹ x: the contracts of the solves determine
    their results. -/
theorem solve_unique (d : n → ℝ) (hd : ∀ i, 0 < d i) (e : n → Option κ) (j : κ → ℝ) (hj : ∀ k, 0 < j k)
    (x y : n → ℝ) (h : (N d e j).mulVec y = x) : y = (N d e j)⁻¹.mulVec x := by
  have hdet : IsUnit (N d e j).det := by
    rw [isUnit_iff_ne_zero, det_N d hd e j]
    apply mul_ne_zero (Finset.prod_ne_zero_iff.mpr fun i _ => (hd i).ne')
    apply Finset.prod_ne_zero_iff.mpr
    intro k _
    have : 0 ≤ ∑ i, if e i = some k then 1 / d i else 0 := by
      apply Finset.sum_nonneg
      intro i _
      split_ifs
      · exact (one_div_pos.mpr (hd i)).le
      · exact le_refl 0
    have := mul_nonneg (hj k).le this
    linarith
  rw [← h, Matrix.mulVec_mulVec, Matrix.nonsing_inv_mul _ hdet, Matrix.one_mulVec]

/-- A matrix without elements between different blocks: log|N| is the sum over the blocks. -/
theorem logdet_blocks {α : Type*} [LinearOrder α] (M : Matrix n n ℝ) (b : n → α) (h0 : ∀ i j, b i ≠ b j → M i j = 0)
    (hpos : ∀ a, 0 < (M.toSquareBlock b a).det) :
    Real.log M.det = ∑ a ∈ Finset.univ.image b, Real.log (M.toSquareBlock b a).det := by
  have ht : M.BlockTriangular b := fun i j hij => h0 i j (ne_of_gt hij)
  rw [ht.det, Real.log_prod]
  intro a _
  exact (hpos a).ne'

/-- A matrix without elements between different blocks is solved block by block. -/
theorem solve_blocks {α : Type*} [DecidableEq α] (M : Matrix n n ℝ) (b : n → α) (h0 : ∀ i j, b i ≠ b j → M i j = 0)
    (hdet : ∀ a, (M.toSquareBlock b a).det ≠ 0) (x y : n → ℝ)
    (hy : ∀ a, ∀ i : {i // b i = a}, y i = ((M.toSquareBlock b a)⁻¹.mulVec fun j => x j) i) :
    M.mulVec y = x := by
  ext i
  have hb : ((M.toSquareBlock b (b i)).mulVec fun j => y j) ⟨i, rfl⟩ = x i := by
    have : (fun j : {j // b j = b i} => y j) = (M.toSquareBlock b (b i))⁻¹.mulVec fun j => x j := by
      ext j
      exact hy (b i) j
    rw [this, Matrix.mulVec_mulVec, Matrix.mul_nonsing_inv _ (isUnit_iff_ne_zero.mpr (hdet _)), Matrix.one_mulVec]
  rw [← hb]
  have hs : ∑ j, M i j * y j = ∑ j ∈ Finset.univ.filter (fun j => b j = b i), M i j * y j := by
    rw [Finset.sum_filter]
    apply Finset.sum_congr rfl
    intro j _
    by_cases h : b j = b i
    · simp [h]
    · simp [h, h0 i j (fun hh => h hh.symm)]
  show ∑ j, M i j * y j = ∑ j : {j // b j = b i}, M i j * y j
  rw [hs]
  exact Finset.sum_subtype _ (by simp) fun j => M i j * y j

end C01
