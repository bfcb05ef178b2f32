-- @C19  The closed forms that the contracts of ml/loss and ml/optim/activation require of the code are
-- derivatives of one another.  (The contracts in contracts/loss.py state the same closed forms.)
import Mathlib
open Real

theorem cv {f g : ℝ → ℝ} {a b x : ℝ} (h : HasDerivAt f a x) (hf : ∀ t, g t = f t) (e : a = b) : HasDerivAt g b x := by
  have hh : g = f := funext hf
  subst hh; subst e; exact h

/-- least squares -/
theorem lse_grad (y x : ℝ) : HasDerivAt (fun x => (y - x) * (y - x)) (2 * (x - y)) x := by
  have h : HasDerivAt (fun x => y - x) (-1) x := by simpa using (hasDerivAt_id' x).const_sub y
  exact cv (h.mul h) (fun t => rfl) (by ring)
theorem lse_hess (y x : ℝ) : HasDerivAt (fun x => 2 * (x - y)) 2 x := by
  simpa using ((hasDerivAt_id' x).sub_const y).const_mul 2

/-- absolute error, away from the kink -/
theorem lae_grad_pos (y x : ℝ) (h : 0 < x - y) : HasDerivAt (fun x => |y - x|) 1 x := by
  have h1 : HasDerivAt (fun x => y - x) (-1) x := by simpa using (hasDerivAt_id' x).const_sub y
  have h2 := (hasDerivAt_abs_neg (x := y - x) (by linarith)).comp x h1
  exact cv h2 (fun t => rfl) (by norm_num)
theorem lae_grad_neg (y x : ℝ) (h : x - y < 0) : HasDerivAt (fun x => |y - x|) (-1) x := by
  have h1 : HasDerivAt (fun x => y - x) (-1) x := by simpa using (hasDerivAt_id' x).const_sub y
  have h2 := (hasDerivAt_abs_pos (x := y - x) (by linarith)).comp x h1
  exact cv h2 (fun t => rfl) (by norm_num)

/-- the (pseudo-)Huber loss -/
theorem huber_arg (y c x : ℝ) : HasDerivAt (fun x => 1 + ((x - y) / c) ^ 2) (2 * ((x - y) / c) / c) x := by
  have h := ((((hasDerivAt_id' x).sub_const y).div_const c).pow 2).const_add 1
  exact cv h (fun t => rfl) (by simp; ring)
theorem huber_pos (y c x : ℝ) : 0 < 1 + ((x - y) / c) ^ 2 := by positivity
theorem huber_grad (y c x : ℝ) (hc : c ≠ 0) :
    HasDerivAt (fun x => c ^ 2 * (√(1 + ((x - y) / c) ^ 2) - 1)) ((x - y) / √(1 + ((x - y) / c) ^ 2)) x := by
  have h := (((huber_arg y c x).sqrt (huber_pos y c x).ne').sub_const 1).const_mul (c ^ 2)
  refine cv h (fun t => rfl) ?_
  have := Real.sqrt_pos.mpr (huber_pos y c x)
  field_simp
theorem huber_hess (y c x : ℝ) (hc : c ≠ 0) :
    HasDerivAt (fun x => (x - y) / √(1 + ((x - y) / c) ^ 2)) (1 / (√(1 + ((x - y) / c) ^ 2)) ^ 3) x := by
  have hs := Real.sqrt_pos.mpr (huber_pos y c x)
  have h := ((hasDerivAt_id' x).sub_const y).div ((huber_arg y c x).sqrt (huber_pos y c x).ne') hs.ne'
  refine cv h (fun t => rfl) ?_
  have hq := Real.sq_sqrt (huber_pos y c x).le
  set s := √(1 + ((x - y) / c) ^ 2) with hsd
  have e : s ^ 2 * c ^ 2 = c ^ 2 + (x - y) ^ 2 := by rw [hq]; field_simp
  field_simp
  linarith

/-- Fair -/
theorem fair_grad_pos (y c x : ℝ) (hc : 0 < c) (h : 0 < x - y) :
    HasDerivAt (fun x => c * (x - y) - c ^ 2 * log ((x - y) / c + 1)) (c * (x - y) / ((x - y) + c)) x := by
  have p : 0 < (x - y) / c + 1 := by positivity
  have hd := (hasDerivAt_id' x).sub_const y
  have h1 := (hd.const_mul c).sub ((((hd.div_const c).add_const 1).log p.ne').const_mul (c ^ 2))
  refine cv h1 (fun t => rfl) ?_
  have : x - y + c ≠ 0 := by positivity
  field_simp; ring
theorem fair_grad_neg (y c x : ℝ) (hc : 0 < c) (h : x - y < 0) :
    HasDerivAt (fun x => c * (-(x - y)) - c ^ 2 * log ((-(x - y)) / c + 1)) (c * (x - y) / (-(x - y) + c)) x := by
  have q : 0 < -(x - y) := by linarith
  have p : 0 < (-(x - y)) / c + 1 := by positivity
  have hd : HasDerivAt (fun x => -(x - y)) (-1) x := cv ((hasDerivAt_id' x).sub_const y).neg (fun t => rfl) rfl
  have h1 := (hd.const_mul c).sub ((((hd.div_const c).add_const 1).log p.ne').const_mul (c ^ 2))
  refine cv h1 (fun t => rfl) ?_
  have : -(x - y) + c ≠ 0 := by positivity
  field_simp; ring
theorem fair_hess_pos (y c x : ℝ) (hc : 0 < c) (h : 0 < x - y) :
    HasDerivAt (fun x => c * (x - y) / ((x - y) + c)) (c ^ 2 / ((x - y) + c) ^ 2) x := by
  have hd := (hasDerivAt_id' x).sub_const y
  have n : x - y + c ≠ 0 := by positivity
  have h1 := (hd.const_mul c).div (hd.add_const c) n
  refine cv h1 (fun t => rfl) ?_
  field_simp; ring
theorem fair_hess_neg (y c x : ℝ) (hc : 0 < c) (h : x - y < 0) :
    HasDerivAt (fun x => c * (x - y) / (-(x - y) + c)) (c ^ 2 / (-(x - y) + c) ^ 2) x := by
  have hd := (hasDerivAt_id' x).sub_const y
  have n : -(x - y) + c ≠ 0 := by have : 0 < -(x-y) := by linarith
                                  positivity
  have hn : HasDerivAt (fun x => -(x - y)) (-1) x := cv hd.neg (fun t => rfl) rfl
  have h1 := (hd.const_mul c).div (hn.add_const c) n
  refine cv h1 (fun t => rfl) ?_
  field_simp; ring

/-- log-cosh -/
theorem logcosh_grad (y x : ℝ) : HasDerivAt (fun x => log (cosh (x - y))) (tanh (x - y)) x := by
  have hd := (hasDerivAt_id' x).sub_const y
  have h1 := hd.cosh.log (Real.cosh_pos (x - y)).ne'
  refine cv h1 (fun t => rfl) ?_
  rw [Real.tanh_eq_sinh_div_cosh]; ring
theorem logcosh_hess (y x : ℝ) : HasDerivAt (fun x => tanh (x - y)) (1 - tanh (x - y) ^ 2) x := by
  have hd := (hasDerivAt_id' x).sub_const y
  have e : (fun x => tanh (x - y)) = fun x => sinh (x - y) / cosh (x - y) := by
    funext z; exact Real.tanh_eq_sinh_div_cosh _
  rw [e]
  have h1 := hd.sinh.div hd.cosh (Real.cosh_pos (x - y)).ne'
  refine cv h1 (fun t => rfl) ?_
  rw [Real.tanh_eq_sinh_div_cosh]
  have := (Real.cosh_pos (x - y)).ne'
  field_simp

/-- binary cross entropy through the sigmoid -/
noncomputable def sg (x : ℝ) : ℝ := 1 / (1 + exp (-x))
theorem sg_pos (x : ℝ) : 0 < sg x ∧ sg x < 1 := by
  unfold sg; have := exp_pos (-x)
  constructor
  · positivity
  · rw [div_lt_one (by positivity)]; linarith
theorem sg_mirror (x : ℝ) : sg x + sg (-x) = 1 := by
  unfold sg; simp only [neg_neg]
  have e : exp x * exp (-x) = 1 := by rw [← exp_add]; simp
  have h1 := exp_pos x; have h2 := exp_pos (-x)
  field_simp; nlinarith
theorem sg_deriv (x : ℝ) : HasDerivAt sg (sg x * (1 - sg x)) x := by
  have hn : HasDerivAt (fun x => -x) (-1 : ℝ) x := cv (hasDerivAt_id' x).neg (fun t => rfl) rfl
  have h := (hasDerivAt_const x (1:ℝ)).div (hn.exp.const_add 1) (by have := exp_pos (-x); positivity)
  refine cv h (fun t => rfl) ?_
  unfold sg; have := exp_pos (-x); field_simp; ring
theorem bce_grad (y x : ℝ) :
    HasDerivAt (fun x => -(y * log (sg x) + (1 - y) * log (1 - sg x))) (sg x - y) x := by
  have p := sg_pos x
  have h1 := ((sg_deriv x).log p.1.ne').const_mul y
  have h2 := (((sg_deriv x).const_sub 1).log (by linarith : (1 : ℝ) - sg x ≠ 0)).const_mul (1 - y)
  refine cv (h1.add h2).neg (fun t => rfl) ?_
  have a := p.1.ne'
  have b : 1 - sg x ≠ 0 := by linarith
  field_simp; ring
theorem bce_hess (y x : ℝ) : HasDerivAt (fun x => sg x - y) (sg x * (1 - sg x)) x := (sg_deriv x).sub_const y

/-- softmax cross entropy -/
noncomputable def sm {n : ℕ} (x : Fin n → ℝ) (i : Fin n) : ℝ := exp (x i) / ∑ k, exp (x k)
theorem sm_sum_pos {n : ℕ} (x : Fin n → ℝ) (i : Fin n) : 0 < ∑ k, exp (x k) :=
  Finset.sum_pos (fun _ _ => exp_pos _) ⟨i, Finset.mem_univ i⟩
theorem sm_pos {n : ℕ} (x : Fin n → ℝ) (i : Fin n) : 0 < sm x i := div_pos (exp_pos _) (sm_sum_pos x i)
theorem sm_total {n : ℕ} (x : Fin n → ℝ) (i : Fin n) : ∑ k, sm x k = 1 := by
  unfold sm; rw [← Finset.sum_div]; exact div_self (sm_sum_pos x i).ne'
theorem upd_exp {n : ℕ} (x : Fin n → ℝ) (i k : Fin n) :
    HasDerivAt (fun t => exp (Function.update x i t k)) (if k = i then exp (x i) else 0) (x i) := by
  by_cases h : k = i
  · subst h; simpa using Real.hasDerivAt_exp (x k)
  · simp only [Function.update_of_ne h, h, if_false]; exact hasDerivAt_const _ _
theorem upd_sum {n : ℕ} (x : Fin n → ℝ) (i : Fin n) :
    HasDerivAt (fun t => ∑ k, exp (Function.update x i t k)) (exp (x i)) (x i) := by
  have h := HasDerivAt.fun_sum (u := Finset.univ) (fun k (_ : k ∈ Finset.univ) => upd_exp x i k)
  simpa using h
theorem sm_hess {n : ℕ} (x : Fin n → ℝ) (i : Fin n) :
    HasDerivAt (fun t => sm (Function.update x i t) i) (sm x i * (1 - sm x i)) (x i) := by
  have p := sm_sum_pos x i
  have h := (upd_exp x i i).div (upd_sum x i) (by simpa using p.ne')
  refine cv h (fun t => rfl) ?_
  unfold sm; simp; field_simp
theorem sm_grad {n : ℕ} (x : Fin n → ℝ) (y i : Fin n) :
    HasDerivAt (fun t => -log (sm (Function.update x i t) y)) (sm x i - if y = i then 1 else 0) (x i) := by
  have p := sm_sum_pos x i
  have h := ((upd_exp x i y).div (upd_sum x i) (by simpa using p.ne')).log
    (by have := sm_pos x y; unfold sm at this; simpa using this.ne')
  refine cv h.neg (fun t => rfl) ?_
  unfold sm
  have e := (exp_pos (x y)).ne'
  have e2 := p.ne'
  by_cases hy : y = i
  · subst hy; simp; field_simp; ring
  · simp [hy]; field_simp
