/- @C11 : the facts about prefix weights and counts of values that contracts/quantile.py uses.
   A list is its length and an array (a function on the integers); W g a n is the sum of the weights of the first n
   entries, Cnt p a n how many of the first n entries satisfy p. -/
import Mathlib
open Finset

variable {α : Type*}

def W (g : α → ℤ) (a : ℕ → α) (n : ℕ) : ℤ := ∑ i ∈ range n, g (a i)
open Classical in
noncomputable def Cnt (p : α → Prop) (a : ℕ → α) (n : ℕ) : ℤ := ∑ i ∈ range n, if p (a i) then 1 else 0

/- prefix weights -/
theorem w_zero (g : α → ℤ) (a : ℕ → α) : W g a 0 = 0 := by simp [W]
theorem w_succ (g : α → ℤ) (a : ℕ → α) (n : ℕ) : W g a (n + 1) = W g a n + g (a n) := by simp [W, sum_range_succ]
theorem w_congr (g : α → ℤ) (a b : ℕ → α) (n : ℕ) (h : ∀ i, i < n → a i = b i) : W g a n = W g b n :=
  sum_congr rfl fun i hi => by rw [h i (mem_range.mp hi)]
theorem w_store_before (g : α → ℤ) (a : ℕ → α) (n i : ℕ) (e : α) (h : i ≤ n) : W g (Function.update a n e) i = W g a i :=
  w_congr g _ _ i fun j hj => Function.update_of_ne (by omega) _ _
theorem w_store_at (g : α → ℤ) (a : ℕ → α) (n : ℕ) (e : α) : W g (Function.update a n e) (n + 1) = W g a n + g e := by
  rw [w_succ, w_store_before g a n n e le_rfl, Function.update_self]
theorem w_concat_before (g : α → ℤ) (p r : ℕ → α) (n j : ℕ) (hr : ∀ i, i < n → r i = p i) (h : j ≤ n) : W g r j = W g p j :=
  w_congr g _ _ j fun i hi => hr i (by omega)
theorem w_shift (g : α → ℤ) (a b : ℕ → α) (lo j : ℕ) (h : ∀ i, i < j → a i = b (lo + i)) : W g a j = W g b (lo + j) - W g b lo := by
  induction j with
  | zero => simp [W]
  | succ k ih =>
    rw [w_succ, ih fun i hi => h i (by omega), h k (by omega), ← Nat.add_assoc, w_succ]; ring
theorem w_concat_after (g : α → ℤ) (p q r : ℕ → α) (n m j : ℕ) (hp : ∀ i, i < n → r i = p i) (hq : ∀ i, i < m → r (n + i) = q i)
    (h : j ≤ m) : W g r (n + j) = W g p n + W g q j := by
  have h1 := w_shift g q r n j fun i hi => (hq i (by omega)).symm
  have h2 := w_congr g r p n hp
  rw [h1, h2]; ring
theorem w_reverse (g : α → ℤ) (a b : ℕ → α) (n j : ℕ) (h : ∀ i, i < n → a i = b (n - 1 - i)) (hj : j ≤ n) :
    W g a j = W g b n - W g b (n - j) := by
  induction j with
  | zero => simp [W]
  | succ k ih =>
    have e : n - k = (n - (k + 1)) + 1 := by omega
    rw [w_succ, ih (by omega), h k (by omega), e, w_succ]
    have e2 : n - 1 - k = n - (k + 1) := by omega
    rw [e2]; ring

/- counts -/
open Classical in
theorem cnt_zero (p : α → Prop) (a : ℕ → α) : Cnt p a 0 = 0 := by simp [Cnt]
open Classical in
theorem cnt_succ (p : α → Prop) (a : ℕ → α) (n : ℕ) : Cnt p a (n + 1) = Cnt p a n + if p (a n) then 1 else 0 := by
  unfold Cnt; rw [sum_range_succ]
open Classical in
theorem cnt_store_before (p : α → Prop) (a : ℕ → α) (n i : ℕ) (e : α) (h : i ≤ n) : Cnt p (Function.update a n e) i = Cnt p a i :=
  w_store_before (fun x => if p x then 1 else 0) a n i e h
open Classical in
theorem cnt_store_at (p : α → Prop) (a : ℕ → α) (n : ℕ) (e : α) :
    Cnt p (Function.update a n e) (n + 1) = Cnt p a n + if p e then 1 else 0 :=
  w_store_at (fun x => if p x then 1 else 0) a n e
theorem cnt_nonneg (p : α → Prop) (a : ℕ → α) (n : ℕ) : 0 ≤ Cnt p a n := by
  classical
  exact sum_nonneg fun i _ => by split_ifs <;> norm_num
theorem cnt_le (p : α → Prop) (a : ℕ → α) (n : ℕ) : Cnt p a n ≤ n := by
  classical
  calc Cnt p a n ≤ ∑ i ∈ range n, (1 : ℤ) := sum_le_sum fun i _ => by split_ifs <;> norm_num
    _ = n := by simp
theorem cnt_mono (p q : α → Prop) (a : ℕ → α) (n : ℕ) (h : ∀ x, p x → q x) : Cnt p a n ≤ Cnt q a n := by
  classical
  refine sum_le_sum fun i _ => ?_
  by_cases hp : p (a i)
  · simp [hp, h _ hp]
  · simp only [hp, if_false]; split_ifs <;> norm_num
/- at most / below: what Truth and Buffer assume -/
theorem below_le_atmost (a : ℕ → ℝ) (n : ℕ) (x : ℝ) : Cnt (· < x) a n ≤ Cnt (· ≤ x) a n := cnt_mono _ _ a n fun _ h => le_of_lt h
theorem atmost_grows (a : ℕ → ℝ) (n : ℕ) (x y : ℝ) (h : x ≤ y) : Cnt (· ≤ x) a n ≤ Cnt (· ≤ y) a n := cnt_mono _ _ a n fun _ h' => le_trans h' h
theorem below_grows (a : ℕ → ℝ) (n : ℕ) (x y : ℝ) (h : x ≤ y) : Cnt (· < x) a n ≤ Cnt (· < y) a n := cnt_mono _ _ a n fun _ h' => lt_of_lt_of_le h' h
theorem atmost_below (a : ℕ → ℝ) (n : ℕ) (x y : ℝ) (h : x < y) : Cnt (· ≤ x) a n ≤ Cnt (· < y) a n := cnt_mono _ _ a n fun _ h' => lt_of_le_of_lt h' h
/- an order of the same values has the same counts -/
theorem cnt_perm (p : α → Prop) (a b : ℕ → α) (n : ℕ) (f : Equiv.Perm (Fin n)) (h : ∀ i : Fin n, b i = a (f i)) : Cnt p b n = Cnt p a n := by
  classical
  unfold Cnt
  rw [← Fin.sum_univ_eq_sum_range (fun i => if p (b i) then (1:ℤ) else 0), ← Fin.sum_univ_eq_sum_range (fun i => if p (a i) then (1:ℤ) else 0)]
  simp only [h]
  exact Equiv.sum_comp f (fun i : Fin n => if p (a i) then (1:ℤ) else 0)
/- counts of an ordered list: the condition holds for a prefix -/
theorem cnt_full (p : α → Prop) (a : ℕ → α) (n : ℕ) (h : ∀ i, i < n → p (a i)) : Cnt p a n = n := by
  classical
  induction n with
  | zero => simp [Cnt]
  | succ k ih => rw [cnt_succ, ih fun i hi => h i (by omega), if_pos (h k (by omega))]; push_cast; ring
theorem cnt_grow (p : α → Prop) (a : ℕ → α) (m n : ℕ) (h : m ≤ n) : Cnt p a m ≤ Cnt p a n := by
  classical
  induction n, h using Nat.le_induction with
  | base => exact le_rfl
  | succ k _ ih => rw [cnt_succ]; split_ifs <;> omega
theorem cnt_stop (p : α → Prop) (a : ℕ → α) (m n : ℕ) (h : m ≤ n) (hn : ∀ i, m ≤ i → i < n → ¬ p (a i)) : Cnt p a n = Cnt p a m := by
  classical
  induction n, h using Nat.le_induction with
  | base => rfl
  | succ k hk ih => rw [cnt_succ, ih fun i h1 h2 => hn i h1 (by omega), if_neg (hn k hk (by omega))]; ring
theorem ordered_count_in (a : ℕ → ℝ) (n i : ℕ) (p : ℝ → Prop) (dn : ∀ x y, x ≤ y → p y → p x)
    (ord : ∀ i j, i ≤ j → j < n → a i ≤ a j) (hi : i < n) (hp : p (a i)) : (i : ℤ) + 1 ≤ Cnt p a n := by
  have h1 := cnt_full p a (i + 1) fun j hj => dn _ _ (ord j i (by omega) hi) hp
  have h2 := cnt_grow p a (i + 1) n (by omega)
  push_cast at h1; omega
theorem ordered_count_out (a : ℕ → ℝ) (n i : ℕ) (p : ℝ → Prop) (dn : ∀ x y, x ≤ y → p y → p x)
    (ord : ∀ i j, i ≤ j → j < n → a i ≤ a j) (hi : i < n) (hp : ¬ p (a i)) : Cnt p a n ≤ i := by
  rw [cnt_stop p a i n (by omega) fun j h1 h2 h3 => hp (dn _ _ (ord i j h1 h2) h3)]
  exact cnt_le p a i
/- both conditions are of that kind -/
theorem atmost_down (v : ℝ) (x y : ℝ) (h : x ≤ y) (hy : y ≤ v) : x ≤ v := le_trans h hy
theorem below_down (v : ℝ) (x y : ℝ) (h : x ≤ y) (hy : y < v) : x < v := lt_of_le_of_lt h hy
