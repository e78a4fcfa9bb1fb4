import Mathlib.Data.Int.GCD
import Mathlib.Tactic

/-- A reduced fraction halfway between two integers has denominator 2. -/
theorem half_denominator (n d q : ℤ) (h0 : 0 < d) (hc : IsCoprime n d)
    (h : 2 * (n - q * d) = d ∨ 2 * (n - q * d) = -d) : d = 2 := by
  have h2 : d ∣ 2 * n := by
    rcases h with h | h
    · exact ⟨2 * q + 1, by linarith⟩
    · exact ⟨2 * q - 1, by linarith⟩
  have h3 : d ∣ 2 := (hc.symm).dvd_of_dvd_mul_right h2
  have h4 : d ≤ 2 := Int.le_of_dvd (by norm_num) h3
  interval_cases d
  · omega
  · rfl
