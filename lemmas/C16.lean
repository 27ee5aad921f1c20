/- Mathematical lemmas behind the contracts of C16. -/
import Mathlib

namespace C16

/-- A strictly increasing sequence of m ≥ 1 numbers whose last is m - 1 after the first takes every value in between, in order. -/
theorem contiguous (f : ℕ → ℤ) (m : ℕ) (hm : 1 ≤ m) (hf : ∀ c, c + 1 < m → f c < f (c + 1))
    (h : f (m - 1) - f 0 + 1 = m) : ∀ c, c < m → f c = f 0 + c := by
  have lo : ∀ c, c < m → f 0 + c ≤ f c := by
    intro c
    induction c with
    | zero => intro _; simp
    | succ c ih =>
      intro hc
      have := ih (by omega)
      have := hf c hc
      push_cast
      omega
  have hi : ∀ d, d < m → f (m - 1 - d) ≤ f (m - 1) - d := by
    intro d
    induction d with
    | zero => intro _; simp
    | succ d ih =>
      intro hd
      have h1 := ih (by omega)
      have h2 := hf (m - 1 - (d + 1)) (by omega)
      have e : m - 1 - (d + 1) + 1 = m - 1 - d := by omega
      rw [e] at h2
      push_cast
      omega
  intro c hc
  have h1 := lo c hc
  have h2 := hi (m - 1 - c) (by omega)
  have e : m - 1 - (m - 1 - c) = c := by omega
  rw [e] at h2
  have : ((m - 1 - c : ℕ) : ℤ) = m - 1 - c := by omega
  omega

/-- An increasing sequence lies between its first and its last number. -/
theorem between (f : ℕ → ℤ) (m : ℕ) (hf : ∀ c, c + 1 < m → f c < f (c + 1)) :
    ∀ c, c < m → f 0 ≤ f c ∧ f c ≤ f (m - 1) := by
  have mono : ∀ d c, c + d < m → f c ≤ f (c + d) := by
    intro d
    induction d with
    | zero => intro c _; simp
    | succ d ih =>
      intro c hc
      have h1 := ih c (by omega)
      have h2 := hf (c + d) (by omega)
      have e : c + (d + 1) = c + d + 1 := by omega
      rw [e]
      omega
  intro c hc
  constructor
  · have := mono c 0 (by omega)
    simpa using this
  · have := mono (m - 1 - c) c (by omega)
    have e : c + (m - 1 - c) = m - 1 := by omega
    rwa [e] at this

/-- A sum of numbers that are not negative is zero only when all are. -/
theorem column (n : ℕ) (g : Fin n → ℝ) (h : ∀ a, 0 ≤ g a) (s : ∑ a, g a = 0) : ∀ a, g a = 0 := by
  intro a
  exact (Finset.sum_eq_zero_iff_of_nonneg (fun i _ => h i)).mp s a (Finset.mem_univ a)

end C16
