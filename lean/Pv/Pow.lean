import Pv.Basic
/-! Square-and-multiply. -/

def iand (a b : Int) : Int := (a.toNat &&& b.toNat : ℕ)
def ixor (a b : Int) : Int := (a.toNat ^^^ b.toNat : ℕ)
def ior (a b : Int) : Int := (a.toNat ||| b.toNat : ℕ)
/-- i is a power of two -/
def ispow2 (i : Int) : Prop := ∃ k : ℕ, i = 2 ^ k

theorem ispow2_two : ispow2 2 := ⟨1, rfl⟩
theorem ispow2_one : ispow2 1 := ⟨0, rfl⟩
theorem ispow2_double {i : Int} (h : ispow2 i) : ispow2 (i * 2) := by
  obtain ⟨k, rfl⟩ := h; exact ⟨k + 1, by ring⟩
theorem ispow2_double' {i : Int} (h : ispow2 i) : ispow2 (2 * i) := by
  rw [mul_comm]; exact ispow2_double h
theorem ispow2_pos {i : Int} (h : ispow2 i) : 0 < i := by
  obtain ⟨k, rfl⟩ := h; positivity
theorem ispow2_half {i : Int} (h : ispow2 i) (h2 : 2 ≤ i) : 2 * (i / 2) = i := by
  obtain ⟨k, rfl⟩ := h
  cases k with
  | zero => norm_num at h2
  | succ k => rw [pow_succ]; omega

/-- the bit test of the code -/
theorem iand_pow2 {n i : Int} (hn : 0 ≤ n) (hi : ispow2 i) : iand n i = i ↔ n / i % 2 = 1 := by
  obtain ⟨k, rfl⟩ := hi
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le hn
  have h2 : ((2 : Int) ^ k).toNat = 2 ^ k := by
    rw [show ((2 : Int) ^ k) = ((2 ^ k : ℕ) : Int) by push_cast; rfl, Int.toNat_natCast]
  have hb := Nat.testBit_eq_decide_div_mod_eq (x := m) (i := k)
  have hl : m &&& 2 ^ k = (m.testBit k).toNat * 2 ^ k := by
    apply Nat.eq_of_testBit_eq; intro j
    rw [Nat.testBit_and, Nat.testBit_two_pow]
    by_cases hjk : k = j
    · subst hjk; cases h : m.testBit k <;> simp [h]
    · cases h : m.testBit k <;> simp [h, hjk, Nat.testBit_two_pow]
  unfold iand
  rw [h2, Int.toNat_natCast, hl]
  rcases hbt : m.testBit k with _ | _
  · rw [hbt] at hb
    simp only [Bool.toNat_false, zero_mul, Nat.cast_zero]
    have h3 : ¬ (m / 2 ^ k % 2 = 1) := by simpa using hb.symm
    constructor
    · intro h; exact absurd h.symm (by positivity)
    · intro h; exfalso; apply h3; exact_mod_cast h
  · rw [hbt] at hb
    have h3 : m / 2 ^ k % 2 = 1 := by simpa using hb.symm
    simp only [Bool.toNat_true, one_mul]
    constructor
    · intro _; exact_mod_cast h3
    · intro _; push_cast; rfl

theorem mod_double {n i : Int} (hi : 0 < i) : n % (2 * i) = n % i + i * (n / i % 2) := by
  have h1 := Int.emod_add_mul_ediv n i
  have h2 := Int.emod_add_mul_ediv (n / i) 2
  have h3 : n / (2 * i) = n / i / 2 := by rw [mul_comm, Int.ediv_ediv_of_nonneg (by omega)]
  have h4 := Int.emod_add_mul_ediv n (2 * i)
  rw [h3] at h4
  nlinarith

/-- one step, bit set -/
theorem pow_step_set {R : Type} [CommRing R] {x q r : R} {n i : Int} (hn : 0 ≤ n) (hi : ispow2 i) (h2 : 2 ≤ i)
    (hq : q = ipow x (i / 2)) (hr : r = ipow x (n % i)) (hb : iand n i = i) : q * q * r = ipow x (n % (2 * i)) := by
  have h := ispow2_half hi h2
  rw [iand_pow2 hn hi] at hb
  rw [mod_double (by omega), hb, hq, hr, ← ipow_add x (by omega) (by omega), ← ipow_add x (by omega) (Int.emod_nonneg _ (by omega))]
  congr 1; omega
theorem pow_step_clear {R : Type} [CommRing R] {x r : R} {n i : Int} (hn : 0 ≤ n) (hi : ispow2 i)
    (hr : r = ipow x (n % i)) (hb : iand n i ≠ i) : r = ipow x (n % (2 * i)) := by
  have hp := ispow2_pos hi
  rw [Ne, iand_pow2 hn hi] at hb
  have : n / i % 2 = 0 := by omega
  rw [mod_double hp, this, hr]; simp
theorem pow_sq {R : Type} [CommRing R] {x q : R} {i : Int} (hi : ispow2 i) (h2 : 2 ≤ i)
    (hq : q = ipow x (i / 2)) : q * q = ipow x (2 * i / 2) := by
  have h := ispow2_half hi h2
  rw [hq, ← ipow_add x (by omega) (by omega)]; congr 1; omega
theorem pow_done {R : Type} [CommRing R] {x r : R} {n i : Int} (hn : 0 ≤ n) (hr : r = ipow x (n % i)) (h : n < i) : r = ipow x n := by
  rw [hr, Int.emod_eq_of_lt hn h]
/-- the highest processed bit -/
theorem top_bit {n i : Int} (hn : 0 ≤ n) (hi : ispow2 i) (h2 : 2 ≤ i) (hb : iand n i ≠ i) : n % (2 * i) < i := by
  rw [Ne, iand_pow2 hn hi] at hb
  have : n / i % 2 = 0 := by omega
  rw [mod_double (by omega), this]
  have := Int.emod_lt_of_pos n (show 0 < i by omega)
  omega

/-- the same steps modulo m -/
theorem powmod_sq {R : Type} [CommRing R] {x q m : R} {i : Int} (hi : ispow2 i) (h2 : 2 ≤ i)
    (hq : m ∣ q - ipow x (i / 2)) : m ∣ q * q - ipow x i := by
  have h := ispow2_half hi h2
  have e : ipow x i = ipow x (i / 2) * ipow x (i / 2) := by
    rw [← ipow_add x (by omega) (by omega)]; congr 1; omega
  rw [e, show q * q - ipow x (i / 2) * ipow x (i / 2) = (q - ipow x (i / 2)) * (q + ipow x (i / 2)) by ring]
  exact Dvd.dvd.mul_right hq _
theorem powmod_set {R : Type} [CommRing R] {x q r m : R} {n i : Int} (hn : 0 ≤ n) (hi : ispow2 i)
    (hq : m ∣ q - ipow x i) (hr : m ∣ r - ipow x (n % i)) (hb : iand n i = i) :
    m ∣ q * r - ipow x (n % (2 * i)) := by
  have hp := ispow2_pos hi
  rw [iand_pow2 hn hi] at hb
  have h0 := Int.emod_nonneg n (show i ≠ 0 by omega)
  have e : ipow x (n % (2 * i)) = ipow x i * ipow x (n % i) := by
    rw [mod_double hp, hb, ← ipow_add x (by omega) h0]; congr 1; omega
  rw [e, show q * r - ipow x i * ipow x (n % i) = (q - ipow x i) * r + ipow x i * (r - ipow x (n % i)) by ring]
  exact dvd_add (Dvd.dvd.mul_right hq _) (Dvd.dvd.mul_left hr _)
theorem powmod_clear {R : Type} [CommRing R] {x r m : R} {n i : Int} (hn : 0 ≤ n) (hi : ispow2 i)
    (hr : m ∣ r - ipow x (n % i)) (hb : iand n i ≠ i) : m ∣ r - ipow x (n % (2 * i)) := by
  have := pow_step_clear (x := x) (r := ipow x (n % i)) hn hi rfl hb
  rwa [← this]
/-- reduction: replacing a by something congruent -/
theorem dvd_red {R : Type} [CommRing R] {a b m t : R} (h : m ∣ a - b) (h2 : m ∣ b - t) : m ∣ a - t := by
  have := dvd_add h h2; rwa [sub_add_sub_cancel] at this
theorem dvd_red' {R : Type} [CommRing R] {a b m t : R} (h : m ∣ a - b) (h2 : m ∣ a - t) : m ∣ b - t := by
  rw [show b - t = (a - t) - (a - b) by ring]; exact dvd_sub h2 h

theorem iand_comm (a b : Int) : iand a b = iand b a := by unfold iand; rw [Nat.and_comm]

/-- the recursive power -/
theorem pow_even {R : Type} [CommRing R] (x : R) {n : Int} (hn : 0 ≤ n) (h : n % 2 = 0) :
    ipow x (n / 2) * ipow x (n / 2) = ipow x n := by
  rw [← ipow_add x (by omega) (by omega)]; congr 1; omega
theorem pow_odd {R : Type} [CommRing R] (x : R) {n : Int} (hn : 1 ≤ n) : ipow x (n - 1) * x = ipow x n := by
  rw [← ipow_succ x (by omega)]; congr 1; omega

theorem ipow_mod_two {R : Type} [CommRing R] (x : R) (n : Int) (h : n % 2 ≠ 0) : x = ipow x (n % 2) := by
  have : n % 2 = 1 := by omega
  rw [this, ipow_one]
theorem ipow_mod_two' {R : Type} [CommRing R] (x : R) (n : Int) (h : n % 2 = 0) : 1 = ipow x (n % 2) := by
  rw [h, ipow_zero]

theorem powmod_done {R : Type} [CommRing R] {x r m : R} {n i : Int} (hn : 0 ≤ n) (hr : m ∣ r - ipow x (n % i)) (h : n < i) : m ∣ r - ipow x n := by
  rwa [Int.emod_eq_of_lt hn h] at hr
syntax "pow_auto" : tactic
macro_rules
  | `(tactic| pow_auto) => `(tactic| first
    | exact ispow2_two
    | (rw [ipow_one]; done)
    | (apply ispow2_double'; assumption)
    | exact pow_sq (by assumption) (by omega) (by assumption)
    | (exact pow_done (by omega) (by assumption) (by omega))
    | (split_ifs
       · first
         | exact dvd_red' (by assumption) (powmod_set (by omega) (by assumption) (dvd_red' (by assumption) (powmod_sq (by assumption) (by omega) (by assumption))) (by assumption) (by first | assumption | (rw [iand_comm]; assumption)))
         | exact dvd_red' (by simp_all) (powmod_set (by omega) (by assumption) (dvd_red' (by assumption) (powmod_sq (by assumption) (by omega) (by assumption))) (by assumption) (by first | assumption | (rw [iand_comm]; assumption)))
       · exact powmod_clear (by omega) (by assumption) (by assumption) (by first | assumption | (rw [iand_comm]; assumption)))
    | exact powmod_done (by omega) (by assumption) (by omega)
    | (rename_i hr _; exact hr ⟨by omega, by omega⟩)
    | (split_ifs
       · rw [← ipow_mod_two _ _ (by assumption)]; simp
       · rw [← ipow_mod_two' _ _ (by omega)]; simp)
    | exact pow_even _ (by omega) (by omega)
    | exact pow_odd _ (by omega)
    | (split_ifs <;> omega)
    | (split_ifs
       · exact ipow_mod_two _ _ (by assumption)
       · exact ipow_mod_two' _ _ (by omega))
    | (split_ifs
       · exact pow_step_set (by omega) (by assumption) (by omega) (by assumption) (by assumption) (by first | assumption | (rw [iand_comm]; assumption))
       · exact pow_step_clear (by omega) (by assumption) (by assumption) (by first | assumption | (rw [iand_comm]; assumption))))
