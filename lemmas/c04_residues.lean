/- @C04 @C05 : the facts about powers of 16 and residues that the contracts in contracts/fixed.py use -/
import Mathlib
open Int

/- powers (zpow over the reals) -/
theorem pow_pos16 (e : ℤ) : (0 : ℝ) < (16 : ℝ) ^ e := by positivity
theorem pow_inv16 (e : ℤ) : (16 : ℝ) ^ e * (16 : ℝ) ^ (-e) = 1 := by
  rw [← zpow_add₀ (by norm_num : (16:ℝ) ≠ 0)]; simp
theorem pow_add16 (a b : ℤ) : (16 : ℝ) ^ (a + b) = (16 : ℝ) ^ a * (16 : ℝ) ^ b := zpow_add₀ (by norm_num) a b
theorem pow_nat16 (e : ℤ) (h : 0 ≤ e) : ∃ k : ℤ, 1 ≤ k ∧ (k : ℝ) = (16 : ℝ) ^ e := by
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h
  exact ⟨(16 : ℤ) ^ n, one_le_pow₀ (by norm_num), by push_cast; simp⟩
theorem pow_mono16 (a b : ℤ) (h : a ≤ b) : (16 : ℝ) ^ a ≤ (16 : ℝ) ^ b := zpow_le_zpow_right₀ (by norm_num) h
theorem pow_zero16 : (16 : ℝ) ^ (0 : ℤ) = 1 := by simp
theorem pow_one16 : (16 : ℝ) ^ (1 : ℤ) = 16 := by simp
theorem pow_16_2 (e : ℤ) : (16 : ℝ) ^ e = (2 : ℝ) ^ (4 * e) := by
  rw [zpow_mul]; norm_num
theorem pow_mono2 (a b : ℤ) (h : a ≤ b) : (2 : ℝ) ^ a ≤ (2 : ℝ) ^ b := zpow_le_zpow_right₀ (by norm_num) h
theorem pow_shift2 (e : ℤ) : (2 : ℝ) ^ (e - 50) * 2 ^ (49 : ℕ) = (2 : ℝ) ^ (e - 1) := by
  have h : (2 : ℝ) ^ (49 : ℕ) = (2 : ℝ) ^ (49 : ℤ) := by norm_cast
  rw [h, ← zpow_add₀ (by norm_num : (2:ℝ) ≠ 0)]; congr 1; ring
/- floor of the logarithm -/
theorem log_floor (x : ℝ) (hx : 0 < x) : (16 : ℝ) ^ ⌊Real.logb 16 x⌋ ≤ x ∧ x < (16 : ℝ) ^ (⌊Real.logb 16 x⌋ + 1) := by
  have h16 : (1 : ℝ) < 16 := by norm_num
  constructor
  · rw [← Real.rpow_intCast]
    exact (Real.le_logb_iff_rpow_le h16 hx).mp (Int.floor_le _)
  · rw [← Real.rpow_intCast]
    apply (Real.logb_lt_iff_lt_rpow h16 hx).mp
    push_cast; exact Int.lt_floor_add_one _

/- residues -/
theorem res_range (t n : ℤ) (h : 0 < n) : 0 ≤ t % n ∧ t % n < n := ⟨Int.emod_nonneg t (by omega), Int.emod_lt_of_pos t h⟩
theorem res_self (t n : ℤ) (h : 0 ≤ t) (h' : t < n) : t % n = t := Int.emod_eq_of_lt h h'
theorem res_neg (t n : ℤ) (h : t < 0) (h' : -n ≤ t) : t % n = t + n := by
  rw [← Int.add_emod_right, Int.emod_eq_of_lt (by omega) (by omega)]
theorem res_add (a b n : ℤ) : (a % n + b) % n = (a + b) % n := by simp [Int.add_emod]
theorem res_sub (a b n : ℤ) : (a % n - b) % n = (a - b) % n := by simp [Int.sub_emod]
theorem res_mul (a b n : ℤ) : (a % n * b) % n = (a * b) % n := by simp [Int.mul_emod]
theorem res_n (a k n : ℤ) : (a + k * n) % n = a % n := by simp
