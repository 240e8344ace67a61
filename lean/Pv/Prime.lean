import Pv.Gcd
import Pv.Bytes
import Mathlib.RingTheory.Int.Basic
import Mathlib.Data.Int.GCD
/-! Arithmetic modulo a prime. -/

theorem prime_dvd_one {p d a : Int} (hp : Prime p) (h1 : d ∣ a) (h2 : d ∣ p) (ha : a ≠ 0) (h0 : 0 ≤ a) (hl : a < p) (hd : 0 ≤ d) : d = 1 := by
  rcases (Int.prime_iff_natAbs_prime.1 hp).eq_one_or_self_of_dvd d.natAbs (Int.natAbs_dvd_natAbs.2 h2) with h | h
  · omega
  · exfalso
    have : d = p := by omega
    subst this
    have := Int.le_of_dvd (by omega) h1
    omega
theorem bezout_emod {p a x y : Int} (hp : 1 < p) (h : x * a + y * p = 1) : a * (x % p) % p = 1 := by
  rw [Int.mul_emod, Int.emod_emod_of_dvd _ dvd_rfl, ← Int.mul_emod]
  have : a * x = 1 + p * (-y) := by linarith [mul_comm a x, mul_comm y p]
  rw [this, Int.add_mul_emod_self_left]
  exact Int.emod_eq_of_lt (by norm_num) hp
theorem emod_self_range {p a : Int} (h0 : 0 ≤ a) (h1 : a < p) : a % p = a := Int.emod_eq_of_lt h0 h1

theorem div_emod {p a b x y d : Int} (hp : 1 < p) (h0 : 0 ≤ a) (h1 : a < p) (h : x * b + y * p = d) (hd : d = 1) :
    a * (x % p) % p * b % p = a := by
  have e : a * (x % p) % p * b % p = (a * x * b) % p := by
    rw [Int.mul_emod (a * (x % p) % p) b, Int.emod_emod_of_dvd _ dvd_rfl, Int.mul_emod a (x % p), Int.emod_emod_of_dvd _ dvd_rfl,
      ← Int.mul_emod a x, ← Int.mul_emod]
  have : a * x * b = a + p * (-(a * y)) := by rw [hd] at h; linear_combination a * h
  rw [e, this, Int.add_mul_emod_self_left, Int.emod_eq_of_lt h0 h1]
theorem div_emod' {p a b x y d : Int} (hp : 1 < p) (h0 : 0 ≤ a) (h1 : a < p) (h : x * b + y * p = d) (hd : d = 1) :
    (x % p) * a % p * b % p = a := by rw [mul_comm (x % p)]; exact div_emod hp h0 h1 h hd
theorem bezout_emod_d {p a x y d : Int} (hp : 1 < p) (h : x * a + y * p = d) (hd : d = 1) : a * (x % p) % p = 1 :=
  bezout_emod hp (hd ▸ h)
theorem quo_range {p a b : Int} (h0 : 0 ≤ a) (h1 : a < p) (hb : 0 ≤ b) (hb' : b ≠ 0) : a / b % p = a / b := by
  have h2 : 0 ≤ a / b := Int.ediv_nonneg h0 hb
  have h3 : a / b ≤ a := Int.ediv_le_self b h0
  exact Int.emod_eq_of_lt h2 (by omega)
theorem rem_range {p a b : Int} (hb : 0 ≤ b) (hb' : b ≠ 0) (h1 : b < p) : a % b % p = a % b := by
  have h2 := Int.emod_nonneg a hb'
  have h3 := Int.emod_lt_of_pos a (show 0 < b by omega)
  exact Int.emod_eq_of_lt h2 (by omega)
theorem prime_no {p a x y d : Int} (h : x * a + y * p = d) (h1 : d ∣ a) (h2 : d ∣ p) (hne : d ≠ 1) (hp : Prime p) (ha : a ≠ 0) (h0 : 0 ≤ a) (hl : a < p)
    (hd : 0 ≤ d) : False := hne (prime_dvd_one hp h1 h2 ha h0 hl hd)
theorem no_unit {p y d : Int} (h : y * p = d) (hd : d = 1) (hp : 1 < p) : False := by
  have := Int.eq_one_or_neg_one_of_mul_eq_one (show p * y = 1 by rw [mul_comm]; omega)
  omega
theorem sub_eq_mod {p a b : Int} : (a - b) % p = (a + -b) % p := by rfl

/-- obligations about residues -/
syntax "pf_auto" : tactic
macro_rules
  | `(tactic| pf_auto) => `(tactic| first
    | (simp only [iabs_eq] at *; omega)
    | exact Int.emod_nonneg _ (by omega)
    | exact Int.emod_lt_of_pos _ (by omega)
    | exact Int.emod_eq_of_lt (by assumption) (by assumption)
    | exact quo_range (by assumption) (by assumption) (by assumption) (by assumption)
    | exact rem_range (by assumption) (by assumption) (by assumption)
    | exact bezout_emod_d (by assumption) (by assumption) (by assumption)
    | exact div_emod (by assumption) (by assumption) (by assumption) (by assumption) (by assumption)
    | exact div_emod' (by assumption) (by assumption) (by assumption) (by assumption) (by assumption)
    | (exact prime_no (by assumption) (by assumption) (by assumption) (by assumption) (by assumption) (by assumption) (by assumption) (by assumption) (by first | assumption | (apply_assumption; constructor <;> omega)))
    | (exact no_unit (by assumption) (by assumption) (by assumption))
    | (rw [Int.emod_emod_of_dvd _ dvd_rfl])
    | gcd_auto)
