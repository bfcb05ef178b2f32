/- @C06 @C07 @C08 : the facts about Paillier ciphertexts and residues that contracts/paillier.py uses.
   A ciphertext of m under n is c = (1 + n m) r^n modulo n^2, r prime to n. -/
import Mathlib
open Int

def Enc (n c m : ℤ) : Prop := ∃ r : ℤ, IsCoprime r n ∧ c ≡ (1 + n * m) * r ^ n.toNat [ZMOD n ^ 2]

/-- the plaintext matters modulo n only, the ciphertext modulo n^2 only -/
theorem enc_congr (n c c' m m' : ℤ) (h : Enc n c m) (hc : c ≡ c' [ZMOD n ^ 2]) (hm : m ≡ m' [ZMOD n]) : Enc n c' m' := by
  obtain ⟨r, hr, h⟩ := h
  refine ⟨r, hr, hc.symm.trans (h.trans ?_)⟩
  apply Int.ModEq.mul_right
  obtain ⟨k, hk⟩ := hm.dvd
  apply Int.modEq_iff_dvd.mpr
  exact ⟨k, by rw [show m' = m + n * k by linarith]; ring⟩
theorem enc_mod (n c m : ℤ) (h : Enc n c m) : Enc n (c % n ^ 2) m :=
  enc_congr n c _ m m h (Int.mod_modEq c _).symm rfl
/-- 1 + n m encrypts m -/
theorem enc_one (n m : ℤ) : Enc n (1 + n * m) m := ⟨1, isCoprime_one_left, by simp⟩
/-- products encrypt sums -/
theorem enc_mul (n c d m k : ℤ) (hc : Enc n c m) (hd : Enc n d k) : Enc n (c * d) (m + k) := by
  obtain ⟨r, hr, hc⟩ := hc; obtain ⟨s, hs, hd⟩ := hd
  refine ⟨r * s, hr.mul_left hs, (hc.mul hd).trans ?_⟩
  apply Int.modEq_iff_dvd.mpr
  exact ⟨-(m * k) * r ^ n.toNat * s ^ n.toNat, by rw [mul_pow]; ring⟩
/-- powers encrypt multiples -/
theorem enc_pow (n c m : ℤ) (k : ℕ) (hc : Enc n c m) : Enc n (c ^ k) (k * m) := by
  induction k with
  | zero => simpa using enc_one n 0
  | succ k ih =>
    have := enc_mul n _ _ _ _ ih hc
    rw [pow_succ]; push_cast; rw [add_mul, one_mul]; exact this
/-- r^n encrypts zero -/
theorem enc_zero (n r : ℤ) (hr : IsCoprime r n) : Enc n (r ^ n.toNat) 0 := ⟨r, hr, by simp⟩
/-- a ciphertext is a unit; its inverse encrypts the negative -/
theorem enc_unit (n c m : ℤ) (hc : Enc n c m) : IsCoprime c (n ^ 2) := by
  obtain ⟨r, hr, h⟩ := hc
  have h1 : IsCoprime (1 + n * m) n := ⟨1, -m, by ring⟩
  have h2 : IsCoprime ((1 + n * m) * r ^ n.toNat) (n ^ 2) := (h1.mul_left hr.pow_left).pow_right
  obtain ⟨k, hk⟩ := h.dvd
  rw [show c = (1 + n * m) * r ^ n.toNat + n ^ 2 * (-k) by linarith]
  exact (IsCoprime.add_mul_left_left_iff).mpr h2
theorem enc_inv (n c d m : ℤ) (hc : Enc n c m) (h : c * d ≡ 1 [ZMOD n ^ 2]) : Enc n d (-m) := by
  obtain ⟨r, hr, hc⟩ := hc
  obtain ⟨s, t, hst⟩ := (hr.pow_right (n := 2) : IsCoprime r (n ^ 2))
  have hs : IsCoprime s n := ⟨r, t * n, by linear_combination hst⟩
  have hrs : r * s ≡ 1 [ZMOD n ^ 2] := Int.modEq_iff_dvd.mpr ⟨t, by linear_combination -hst⟩
  refine ⟨s, hs, ?_⟩
  have hp : (r * s) ^ n.toNat ≡ 1 [ZMOD n ^ 2] := by simpa using hrs.pow n.toNat
  have e1 : (1 + n * m) * (1 + n * -m) ≡ 1 [ZMOD n ^ 2] := Int.modEq_iff_dvd.mpr ⟨m ^ 2, by ring⟩
  -- d = d * (1+nm)(1-nm) (rs)^n = (c d) (1-nm) s^n
  have e2 : d * ((1 + n * m) * (1 + n * -m)) * (r * s) ^ n.toNat ≡ d [ZMOD n ^ 2] := by
    simpa using ((Int.ModEq.refl d).mul e1).mul hp
  have e3 : d * ((1 + n * m) * (1 + n * -m)) * (r * s) ^ n.toNat = ((1 + n * m) * r ^ n.toNat) * d * ((1 + n * -m) * s ^ n.toNat) := by
    rw [mul_pow]; ring
  have e4 : ((1 + n * m) * r ^ n.toNat) * d * ((1 + n * -m) * s ^ n.toNat) ≡ c * d * ((1 + n * -m) * s ^ n.toNat) [ZMOD n ^ 2] :=
    (hc.symm.mul_right d).mul_right _
  have e5 : c * d * ((1 + n * -m) * s ^ n.toNat) ≡ 1 * ((1 + n * -m) * s ^ n.toNat) [ZMOD n ^ 2] := h.mul_right _
  rw [one_mul] at e5
  exact e2.symm.trans (e3 ▸ e4.trans e5)

/-- (1 + x)^k = 1 + k x modulo x^2 -/
theorem one_add_pow (p x : ℤ) (k : ℕ) (h : p ∣ x) : (1 + x) ^ k ≡ 1 + k * x [ZMOD p ^ 2] := by
  induction k with
  | zero => simp
  | succ k ih =>
    rw [pow_succ (1 + x) k]
    refine (ih.mul_right _).trans ?_
    obtain ⟨y, rfl⟩ := h
    apply Int.modEq_iff_dvd.mpr
    exact ⟨-(k * y ^ 2), by push_cast; ring⟩
/-- Euler modulo p^2 -/
theorem euler2 (p : ℕ) (hp : p.Prime) (r : ℤ) (hr : IsCoprime r (p : ℤ)) : r ^ (p * (p - 1)) ≡ 1 [ZMOD (p : ℤ) ^ 2] := by
  have h2 : IsCoprime r ((p : ℤ) ^ 2) := hr.pow_right
  have ht : Nat.totient (p ^ 2) = p * (p - 1) := by rw [Nat.totient_prime_pow hp (by norm_num)]; simp
  have hu : IsUnit ((r : ℤ) : ZMod (p ^ 2)) := by
    rw [ZMod.coe_int_isUnit_iff_isCoprime]; push_cast; exact h2.symm
  obtain ⟨u, hu⟩ := hu
  have := ZMod.pow_totient u
  rw [ht] at this
  have h3 : ((r ^ (p * (p - 1)) : ℤ) : ZMod (p ^ 2)) = ((1 : ℤ) : ZMod (p ^ 2)) := by
    push_cast; rw [← hu, ← Units.val_pow_eq_pow_val, this]; simp
  have := (ZMod.intCast_eq_intCast_iff _ _ _).mp h3
  push_cast at this; exact this
/-- the half of decryption modulo p: c^(p-1) modulo p^2 -/
theorem enc_half (p q : ℕ) (hp : p.Prime) (c m : ℤ) (hc : Enc ((p : ℤ) * q) c m) :
    c ^ (p - 1) % (p : ℤ) ^ 2 = 1 + p * ((m * (q * ((p : ℤ) - 1))) % p) := by
  obtain ⟨r, hr, h⟩ := hc
  have hr' : IsCoprime r (p : ℤ) := hr.of_isCoprime_of_dvd_right (Dvd.intro _ rfl)
  have hd : ((p : ℤ)) ^ 2 ∣ ((p : ℤ) * q) ^ 2 := ⟨(q : ℤ) ^ 2, by ring⟩
  have h1 := (h.of_dvd hd).pow (p - 1)
  have hn : ((p : ℤ) * q).toNat = p * q := by rw [← Nat.cast_mul]; exact Int.toNat_natCast _
  rw [hn, mul_pow, ← pow_mul] at h1
  have h2 : r ^ (p * q * (p - 1)) ≡ 1 [ZMOD (p : ℤ) ^ 2] := by
    rw [show p * q * (p - 1) = p * (p - 1) * q by ring, pow_mul]; simpa using (euler2 p hp r hr').pow q
  have h3 : (1 + (p : ℤ) * q * m) ^ (p - 1) ≡ 1 + ((p - 1 : ℕ) : ℤ) * ((p : ℤ) * q * m) [ZMOD (p : ℤ) ^ 2] :=
    one_add_pow p _ _ ⟨q * m, by ring⟩
  have h4 := h1.trans (h3.mul h2)
  have hp1 : ((p - 1 : ℕ) : ℤ) = (p : ℤ) - 1 := by rw [Nat.cast_sub hp.one_le]; simp
  rw [mul_one, hp1] at h4
  set x := m * (q * ((p : ℤ) - 1)) with hx
  have h5 : 1 + ((p : ℤ) - 1) * ((p : ℤ) * q * m) ≡ 1 + p * (x % p) [ZMOD (p : ℤ) ^ 2] := by
    apply Int.modEq_iff_dvd.mpr
    refine ⟨-(x / p), ?_⟩
    have := Int.emod_add_mul_ediv x p
    rw [show x % p = x - p * (x / p) by linarith, hx]; ring
  have h6 := h4.trans h5
  have ppos : (0 : ℤ) < p := by exact_mod_cast hp.pos
  have p2 : (2 : ℤ) ≤ p := by exact_mod_cast hp.two_le
  have b1 := Int.emod_nonneg x (ne_of_gt ppos)
  have b2 := Int.emod_lt_of_pos x ppos
  rw [h6, Int.emod_eq_of_lt] <;> nlinarith

/-- the other prime is a unit: its inverse exists -/
theorem prime_unit (p q : ℕ) (hp : p.Prime) (hq : q.Prime) (h : p ≠ q) : IsCoprime (q : ℤ) (p : ℤ) := by
  rw [Nat.isCoprime_iff_coprime]; exact ((Nat.coprime_primes hp hq).mpr h).symm
/-- Chinese remainders: congruent modulo p and q is congruent modulo p q -/
theorem crt (p q : ℕ) (hp : p.Prime) (hq : q.Prime) (h : p ≠ q) (a b : ℤ) (h1 : a ≡ b [ZMOD p]) (h2 : a ≡ b [ZMOD q]) : a % ((p : ℤ) * q) = b % ((p : ℤ) * q) := by
  have := (prime_unit p q hp hq h).symm
  exact Int.modEq_iff_dvd.mpr (this.mul_dvd h1.dvd h2.dvd)
/-- the residue normal form: sums and products of congruent terms are congruent; residues modulo n are residues modulo p -/
theorem nf_add (a a' b b' w : ℤ) (h : a ≡ a' [ZMOD w]) (k : b ≡ b' [ZMOD w]) : a + b ≡ a' + b' [ZMOD w] := h.add k
theorem nf_mul (a a' b b' w : ℤ) (h : a ≡ a' [ZMOD w]) (k : b ≡ b' [ZMOD w]) : a * b ≡ a' * b' [ZMOD w] := h.mul k
theorem nf_res (a w : ℤ) : a % w ≡ a [ZMOD w] := Int.mod_modEq a w
theorem nf_res' (a p q : ℤ) : a % (p * q) ≡ a [ZMOD p] := (Int.mod_modEq a (p * q)).of_dvd (Dvd.intro _ rfl)
theorem nf_unit (a x k w : ℤ) (hk : k * k = 1) (h : (k * a) * x ≡ 1 [ZMOD w]) : a * x ≡ k [ZMOD w] := by
  have := h.mul_left k
  rwa [mul_one, show k * (k * a * x) = k * k * (a * x) by ring, hk, one_mul] at this
theorem res_same (a b w : ℤ) (h : a ≡ b [ZMOD w]) : a % w = b % w := h
