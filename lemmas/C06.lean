import Mathlib

/-! The rows and columns of a matrix are divided into classes (cliques, frequencies, pulsars) such that entries between classes
are zero. The matrix made of the inverses of the classes is its inverse, and its determinant is the product of theirs. -/

open Matrix Finset

variable {n κ : Type*} [Fintype n] [DecidableEq n] [LinearOrder κ]

/-- If `N` restricted to each class is the inverse of `M` restricted to it, and both are zero between classes, `N` is the inverse of `M`. -/
theorem inverse_by_classes (c : n → κ) (M N : Matrix n n ℝ)
    (hM : ∀ i j, c i ≠ c j → M i j = 0) (hN : ∀ i j, c i ≠ c j → N i j = 0)
    (h : ∀ k, M.toSquareBlockProp (fun i => c i = k) * N.toSquareBlockProp (fun i => c i = k) = 1) :
    M * N = 1 := by
  ext i j
  rw [Matrix.mul_apply]
  by_cases hij : c i = c j
  · have hk := congrFun (congrFun (h (c i)) ⟨i, rfl⟩) ⟨j, hij.symm⟩
    rw [Matrix.mul_apply] at hk
    have e : ∑ x : {a // c a = c i}, M i x.1 * N x.1 j = ∑ x, M i x * N x j := by
      rw [← Finset.sum_subtype (univ.filter (fun a => c a = c i)) (by simp) (fun x => M i x * N x j), Finset.sum_filter]
      apply Finset.sum_congr rfl
      intro x _
      split_ifs with hx
      · rfl
      · rw [hM i x (fun e => hx e.symm)]; ring
    rw [← e]
    have hk' : ∑ x : {a // c a = c i}, M i x.1 * N x.1 j = (1 : Matrix {a // c a = c i} {a // c a = c i} ℝ) ⟨i, rfl⟩ ⟨j, hij.symm⟩ := hk
    rw [hk', Matrix.one_apply, Matrix.one_apply]
    simp [Subtype.ext_iff]
  · rw [Matrix.one_apply_ne (fun e => hij (by rw [e]))]
    apply Finset.sum_eq_zero
    intro x _
    by_cases hx : c i = c x
    · rw [hN x j (fun e => hij (hx.trans e))]; ring
    · rw [hM i x hx]; ring

/-- The determinant is the product of those of the classes. -/
theorem det_by_classes (c : n → κ) (M : Matrix n n ℝ) (hM : ∀ i j, c i ≠ c j → M i j = 0) :
    M.det = ∏ k ∈ univ.image c, (M.toSquareBlock c k).det :=
  Matrix.BlockTriangular.det (fun i j hij => hM i j (ne_of_gt hij))
