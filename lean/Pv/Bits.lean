import Pv.Basic
import Pv.Pow
import Mathlib.Data.Nat.Size
import Mathlib.Data.Nat.Digits.Lemmas
import Mathlib.Algebra.BigOperators.Intervals
import Mathlib.Data.Nat.Bitwise
import Mathlib.Algebra.BigOperators.Group.Finset.Basic
/-! Binary digits of non-negative integers, most significant first. -/

def bitlen (x : Int) : Int := max 1 (Nat.size x.toNat)
def bitat (x i : Int) : Int := x / 2 ^ i.toNat % 2
def bitsvalN : ℕ → (Int → Int) → Int
  | 0, _ => 0
  | k + 1, f => 2 * bitsvalN k f + f k
def bitsval (n : Int) (f : Int → Int) : Int := bitsvalN n.toNat f

theorem bitlen_pos {x : Int} : 1 ≤ bitlen x := by unfold bitlen; exact_mod_cast le_max_left _ _
theorem bitat_range {x i : Int} : 0 ≤ bitat x i ∧ bitat x i < 2 := by unfold bitat; omega
theorem bitat_high {x i : Int} (h0 : 0 ≤ x) (h : bitlen x ≤ i) : bitat x i = 0 := by
  unfold bitat
  have h1 : (Nat.size x.toNat : Int) ≤ i := le_trans (le_max_right _ _) h
  have h2 : x.toNat < 2 ^ i.toNat := Nat.size_le.1 (by omega)
  have h3 : x < 2 ^ i.toNat := by
    have : ((x.toNat : ℕ) : Int) < ((2 ^ i.toNat : ℕ) : Int) := by exact_mod_cast h2
    rw [Int.toNat_of_nonneg h0] at this
    exact_mod_cast this
  rw [Int.ediv_eq_zero_of_lt h0 h3]; rfl
theorem bitlen_le {x n : Int} (h0 : 0 ≤ x) (hn : 1 ≤ n) (h : x < 2 ^ n.toNat) : bitlen x ≤ n := by
  unfold bitlen
  have : x.toNat < 2 ^ n.toNat := by
    have : ((x.toNat : ℕ) : Int) < ((2 ^ n.toNat : ℕ) : Int) := by rw [Int.toNat_of_nonneg h0]; exact_mod_cast h
    exact_mod_cast this
  have := Nat.size_le.2 this
  omega
theorem bitsvalN_congr {k : ℕ} {f g : Int → Int} (h : ∀ i : Int, 0 ≤ i → i < k → f i = g i) : bitsvalN k f = bitsvalN k g := by
  induction k with
  | zero => rfl
  | succ k ih => rw [bitsvalN, bitsvalN, ih (fun i h0 h1 => h i h0 (by push_cast; omega)), h k (by omega) (by push_cast; omega)]
theorem bitsval_congr {n : Int} {f g : Int → Int} (h : ∀ i : Int, 0 ≤ i → i < n → f i = g i) : bitsval n f = bitsval n g :=
  bitsvalN_congr fun i h0 h1 => h i h0 (by omega)
theorem bitsvalN_top {x : Int} {n : ℕ} (k : ℕ) (hk : k ≤ n) (h : x / 2 ^ n = 0) : bitsvalN k (fun i => bitat x (n - 1 - i)) = x / 2 ^ (n - k) := by
  induction k with
  | zero => simpa [bitsvalN] using h.symm
  | succ k ih =>
    rw [bitsvalN, ih (by omega)]
    unfold bitat
    have e : ((n : Int) - 1 - (k : Int)).toNat = n - (k + 1) := by omega
    have e2 : n - k = (n - (k + 1)) + 1 := by omega
    rw [e, e2, pow_succ, ← Int.ediv_ediv_of_nonneg (by positivity)]
    omega
/-- the digits of x have value x -/
theorem bitsval_bits {n x : Int} {f : Int → Int} (hn : 0 ≤ n) (h0 : 0 ≤ x) (h1 : x < 2 ^ n.toNat) (hf : ∀ i, 0 ≤ i → i < n → f i = bitat x (n - 1 - i)) : bitsval n f = x := by
  rw [bitsval_congr hf]
  unfold bitsval
  have := bitsvalN_top (x := x) (n := n.toNat) n.toNat le_rfl (Int.ediv_eq_zero_of_lt h0 h1)
  rw [Int.toNat_of_nonneg hn] at this
  simpa using this
theorem bitsvalN_range {k : ℕ} {f : Int → Int} (h : ∀ i : Int, 0 ≤ i → i < k → 0 ≤ f i ∧ f i ≤ 1) : 0 ≤ bitsvalN k f ∧ bitsvalN k f < 2 ^ k := by
  induction k with
  | zero => simp [bitsvalN]
  | succ k ih =>
    have := ih (fun i h0 h1 => h i h0 (by push_cast; omega))
    have := h k (by omega) (by push_cast; omega)
    rw [bitsvalN, pow_succ]
    omega
theorem bitsval_range {n : Int} {f : Int → Int} (hn : 0 ≤ n) (h : ∀ i : Int, 0 ≤ i → i < n → 0 ≤ f i ∧ f i ≤ 1) : 0 ≤ bitsval n f ∧ bitsval n f < 2 ^ n.toNat :=
  bitsvalN_range fun i h0 h1 => h i h0 (by omega)

def isbit (x : Int) : Prop := 0 ≤ x ∧ x ≤ 1
theorem ixor_bit {a b : Int} (ha : isbit a) (hb : isbit b) : isbit (ixor a b) := by
  obtain ⟨a0, a1⟩ := ha
  obtain ⟨b0, b1⟩ := hb
  have : a = 0 ∨ a = 1 := by omega
  have : b = 0 ∨ b = 1 := by omega
  rcases ‹a = 0 ∨ a = 1› with rfl | rfl <;> rcases ‹b = 0 ∨ b = 1› with rfl | rfl <;> (unfold isbit; decide)
theorem ixor_ixor {a b : Int} (hb : 0 ≤ b) : ixor (ixor a b) a = b := by
  unfold ixor
  rw [Int.toNat_natCast, Nat.xor_comm, ← Nat.xor_assoc, Nat.xor_self, Nat.zero_xor]
  exact Int.toNat_of_nonneg hb
theorem ixor_comm (a b : Int) : ixor a b = ixor b a := by unfold ixor; rw [Nat.xor_comm]
theorem ixor_back {a b : Int} (hb : 0 ≤ b) : ixor a (ixor b a) = b := by rw [ixor_comm, ixor_comm b, ixor_ixor hb]

/-- parity of the number of ones -/
def parityOf (x : Int) : Int := ((Nat.digits 2 x.toNat).sum : ℕ) % 2
theorem digits_sum (N m : ℕ) (h : m < 2 ^ N) : ∑ j ∈ Finset.range N, m / 2 ^ j % 2 = (Nat.digits 2 m).sum := by
  induction N generalizing m with
  | zero => have : m = 0 := by simpa using h
            subst this; simp
  | succ N ih =>
    rw [Finset.sum_range_succ']
    rcases Nat.eq_zero_or_pos m with rfl | hm
    · simp
    rw [Nat.digits_def' (by norm_num) hm, List.sum_cons, ← ih (m / 2) (by rw [pow_succ] at h; omega)]
    rw [pow_zero, Nat.div_one, Nat.add_comm]
    congr 1
    refine Finset.sum_congr rfl fun j _ => ?_
    rw [pow_succ, Nat.mul_comm, Nat.div_div_eq_div_mul]
theorem parity_bits {x : Int} (h0 : 0 ≤ x) : isum (bitlen x) (fun i => bitat x (bitlen x - 1 - i)) % 2 = parityOf x := by
  have hs : x.toNat < 2 ^ (bitlen x).toNat := Nat.size_le.1 (by unfold bitlen; omega)
  unfold parityOf isum
  rw [← digits_sum _ _ hs, ← Finset.sum_range_reflect]
  congr 1
  push_cast
  refine Finset.sum_congr rfl fun j hj => ?_
  have hj := Finset.mem_range.1 hj
  unfold bitat
  have hp := bitlen_pos (x := x)
  have e : (bitlen x - 1 - (((bitlen x).toNat - 1 - j : ℕ) : Int)).toNat = j := by omega
  rw [e, Int.toNat_of_nonneg h0]
theorem parityOf_bit {x : Int} : isbit (parityOf x) := by unfold isbit parityOf; omega
def bsecret (s : Int) : Int := s
def isecret (s j : Int) : Int := s + j
theorem bitat_bit {x i : Int} : isbit (bitat x i) := by have := bitat_range (x := x) (i := i); unfold isbit; omega
theorem pad_eq {x n k : Int} (h0 : 0 ≤ x) : (if k < n + -bitlen x then 0 else bitat x (n + -k + -1)) = bitat x (n - 1 - k) := by
  split_ifs
  · exact (bitat_high h0 (by omega)).symm
  · congr 1; omega
theorem two_bits {x : Int} {g : Int → Int} (h0 : 0 ≤ x) (h1 : x < 4) (e0 : g 0 = bitat x 1) (e1 : g 1 = bitat x 0) : bitsval 2 g = x := by
  refine bitsval_bits (by norm_num) h0 (by norm_num; exact h1) fun i hi hj => ?_
  obtain rfl | rfl : i = 0 ∨ i = 1 := by omega
  · simpa using e0
  · simpa using e1
theorem masked {a x i : Int} : ixor (ixor a (bitat x i)) a = bitat x i := ixor_ixor bitat_bit.1
