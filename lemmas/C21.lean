/- Mathematical lemmas behind the contracts of C21, for one DMX bin: with weights w(i) = dme(i)^-2, W = sum w and
   mean = sum w d / W, the likelihood of the DM measurements is that of the bin's DM under N(mean, 1/W) (delay and prior of
   the DMX column) times the factor that get_logsignalprior returns the logarithm of. -/
import Mathlib

open BigOperators MeasureTheory

namespace C21

variable {ι : Type*} (s : Finset ι) (w d : ι → ℝ)

noncomputable def W : ℝ := ∑ i ∈ s, w i
noncomputable def mean : ℝ := (∑ i ∈ s, w i * d i) / W s w

/-- Completing the square. -/
theorem square (h : W s w ≠ 0) (D : ℝ) :
    ∑ i ∈ s, w i * (d i - D) ^ 2 = W s w * (D - mean s w d) ^ 2 + (∑ i ∈ s, w i * d i ^ 2 - W s w * mean s w d ^ 2) := by
  have e : ∑ i ∈ s, w i * (d i - D) ^ 2 = ∑ i ∈ s, w i * d i ^ 2 - 2 * D * ∑ i ∈ s, w i * d i + D ^ 2 * W s w := by
    rw [W, Finset.mul_sum, Finset.mul_sum, ← Finset.sum_sub_distrib, ← Finset.sum_add_distrib]
    exact Finset.sum_congr rfl fun i _ => by ring
  have m : ∑ i ∈ s, w i * d i = W s w * mean s w d := by rw [mean]; field_simp
  rw [e, m]; ring

/-- The likelihood marginalised over a free DM of the bin. -/
theorem marginal (h : 0 < W s w) :
    ∫ D : ℝ, Real.exp (-(1 / 2) * ∑ i ∈ s, w i * (d i - D) ^ 2)
      = Real.sqrt (2 * Real.pi) * Real.exp (1 / 2 * mean s w d ^ 2 * W s w - 1 / 2 * Real.log (W s w) - 1 / 2 * ∑ i ∈ s, w i * d i ^ 2) := by
  have e : ∀ D : ℝ, Real.exp (-(1 / 2) * ∑ i ∈ s, w i * (d i - D) ^ 2)
      = Real.exp (1 / 2 * mean s w d ^ 2 * W s w - 1 / 2 * ∑ i ∈ s, w i * d i ^ 2) * Real.exp (-(W s w / 2) * (D - mean s w d) ^ 2) := by
    intro D
    rw [square s w d h.ne' D, ← Real.exp_add]
    congr 1; ring
  simp_rw [e]
  rw [integral_const_mul, integral_sub_right_eq_self (fun x : ℝ => Real.exp (-(W s w / 2) * x ^ 2)) (mean s w d), integral_gaussian]
  have hs : Real.sqrt (Real.pi / (W s w / 2)) = Real.sqrt (2 * Real.pi) * Real.exp (-(1 / 2) * Real.log (W s w)) := by
    have : Real.pi / (W s w / 2) = 2 * Real.pi / W s w := by field_simp
    rw [this, Real.sqrt_div (by positivity), Real.sqrt_eq_rpow (W s w), Real.rpow_def_of_pos h, div_eq_mul_inv, ← Real.exp_neg]
    congr 2; ring
  rw [hs, mul_comm, mul_assoc, ← Real.exp_add]
  congr 2; ring

end C21
