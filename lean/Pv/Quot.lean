import Pv.PolyDiv
/-! The quotient K[X]/(g). -/
open Polynomial Classical
variable {K : Type} [Field K]

theorem prem_self {p g : K[X]} (h : plen p < plen g) : prem p g = p :=
  ((div_unique (q := 0) (r := p) (by simp) h).2).symm
theorem prem_dvd (p g : K[X]) : g ∣ p - prem p g := ⟨pquo p g, by have := div_eq p g; linear_combination this⟩
theorem prem_congr {p q g : K[X]} (hg : g ≠ 0) (h : g ∣ p - q) : prem p g = prem q g := by
  obtain ⟨c, hc⟩ := h
  have e : p = (c + pquo q g) * g + prem q g := by have := div_eq q g; linear_combination hc + this
  exact ((div_unique e (prem_lt q hg)).2).symm
theorem prem_iff {p q g : K[X]} (hg : g ≠ 0) : prem p g = prem q g ↔ g ∣ p - q := by
  refine ⟨fun h => ?_, prem_congr hg⟩
  have h1 := prem_dvd p g; have h2 := prem_dvd q g; rw [h] at h1
  have := dvd_sub h1 h2; simpa using this
theorem prem_mul_prem_left {p q g : K[X]} (hg : g ≠ 0) : prem (prem p g * q) g = prem (p * q) g := by
  apply prem_congr hg
  have := (prem_dvd p g).mul_right (-q); convert this using 1; ring
theorem prem_mul_prem_right {p q g : K[X]} (hg : g ≠ 0) : prem (p * prem q g) g = prem (p * q) g := by
  rw [mul_comm, prem_mul_prem_left hg, mul_comm]
theorem prem_prem {p g : K[X]} (hg : g ≠ 0) : prem (prem p g) g = prem p g := prem_self (prem_lt p hg)
theorem prem_neg (p g : K[X]) (hg : g ≠ 0) : -prem p g = prem (-p) g := by
  rw [← prem_self (p := -prem p g) (g := g) (by rw [plen_neg]; exact prem_lt p hg)]
  apply prem_congr hg
  have := prem_dvd p g; convert this using 1; ring
theorem prem_zero (g : K[X]) : prem 0 g = 0 := by simp [prem]
theorem add_lt {p q g : K[X]} (h : plen p < plen g) (h' : plen q < plen g) : plen (p + q) < plen g :=
  lt_of_le_of_lt (plen_add_le p q) (max_lt h h')
theorem sub_lt' {p q g : K[X]} (h : plen p < plen g) (h' : plen q < plen g) : plen (p - q) < plen g :=
  lt_of_le_of_lt (plen_sub_le p q) (max_lt h h')
theorem neg_lt_len {p g : K[X]} (h : plen p < plen g) : plen (-p) < plen g := by rwa [plen_neg]
theorem plen_C_le (c : K) : plen (C c) ≤ 1 := by
  by_cases h : c = 0
  · simp [h]
  · rw [plen_C h]
theorem C_lt {c : K} {g : K[X]} (h : 1 < plen g) : plen (C c) < plen g := lt_of_le_of_lt (plen_C_le c) h
theorem pof_one (f : Int → K) : pof 1 f = C (f 0) := by
  apply pext; intro i hi; rw [pc_pof _ _ hi, pc_C]; by_cases h : i = 0
  · simp [h]
  · rw [if_neg (by omega), if_neg h]
theorem plen_one_C {d : K[X]} (h : plen d = 1) : d = C (pc d 0) := by
  apply pext; intro i hi; rw [pc_C]; by_cases h2 : i = 0
  · simp [h2]
  · rw [if_neg h2, pc_of_ge (by omega)]
/-- a common divisor of a nonzero residue and an irreducible modulus is constant -/
theorem unit_gcd {a d g : K[X]} (hg : Irreducible g) (ha : a ≠ 0) (hl : plen a < plen g) (h1 : d ∣ a) (h2 : d ∣ g) : plen d = 1 := by
  obtain ⟨c, hc⟩ := h2
  have hg0 := hg.ne_zero
  have hd0 : d ≠ 0 := by rintro rfl; simp at hc; exact hg0 hc
  have hc0 : c ≠ 0 := by rintro rfl; simp at hc; exact hg0 hc
  rcases hg.isUnit_or_isUnit hc with h | h
  · obtain ⟨r, hr, rfl⟩ := Polynomial.isUnit_iff.1 h
    exact plen_C hr.ne_zero
  · exfalso
    obtain ⟨r, hr, rfl⟩ := Polynomial.isUnit_iff.1 h
    have e := plen_mul hd0 hc0
    rw [← hc, plen_C hr.ne_zero] at e
    obtain ⟨b, hb⟩ := h1
    have hb0 : b ≠ 0 := by rintro rfl; simp at hb; exact ha hb
    have e2 := plen_mul hd0 hb0
    rw [← hb] at e2
    have := plen_pos.2 hb0
    omega
theorem inv_quot {a x y d g : K[X]} (h1 : 1 < plen g) (h : x * a + y * g = d) (hd : plen d = 1) :
    prem (a * prem (prem x g * C (pc d 0)⁻¹) g) g = 1 := by
  have hg : g ≠ 0 := by rintro rfl; simp at h1
  have hd0 : pc d 0 ≠ 0 := by have := pc_last' (p := d) (by omega); rw [hd] at this; simpa using this
  have one : prem (1 : K[X]) g = 1 := prem_self (by rw [plen_one]; exact h1)
  rw [prem_mul_prem_right hg, mul_comm a, mul_assoc, prem_mul_prem_left hg]
  refine Eq.trans ((prem_iff hg).2 ?_) one
  rw [plen_one_C hd] at h
  refine ⟨-y * C (pc d 0)⁻¹, ?_⟩
  have e : C (pc d 0) * C (pc d 0)⁻¹ = (1 : K[X]) := by rw [← C_mul, mul_inv_cancel₀ hd0, C_1]
  linear_combination C (pc d 0)⁻¹ * h + e

theorem pc0_ne {d : K[X]} (h : plen d = 1) : pc d 0 ≠ 0 := by
  have := pc_last' (p := d) (by omega); rwa [h] at this
theorem C_intCast' (n : Int) : (C ((n : Int) : K) : K[X]) = (n : K[X]) := by simp
syntax "quot_auto" : tactic
macro_rules
  | `(tactic| quot_auto) => `(tactic| first
    | exact prem_lt _ (by assumption)
    | exact prem_self (by assumption)
    | exact prem_self (add_lt (by assumption) (by assumption))
    | exact prem_self (sub_lt' (by assumption) (by assumption))
    | exact prem_self (neg_lt_len (by assumption))
    | (rw [prem_self (by assumption)]; done)
    | (rw [prem_self (add_lt (by assumption) (by assumption))]; done)
    | (rw [prem_self (sub_lt' (by assumption) (by assumption))]; done)
    | (rw [prem_self (neg_lt_len (by assumption))]; done)
    | exact unit_gcd (by assumption) (by assumption) (by assumption) (by assumption) (by assumption)
    | exact absurd (unit_gcd (by assumption) (by assumption) (by assumption) (by assumption) (by assumption)) (by omega)
    | exact pc0_ne (by omega)
    | exact C_lt (by omega)
    | exact prem_self (C_lt (by omega))
    | exact inv_quot (by omega) (by assumption) (by omega)
    | (rw [pof_one]; done)
    | (rw [pof_one]; exact C_lt (by omega))
    | (rw [pof_one, prem_self (C_lt (by omega))]; done)
    | (rw [pof_one, prem_self (C_lt (by omega))]; simp; done)
    | pdiv_auto)
