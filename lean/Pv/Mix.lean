import Pv.Quot
import Pv.Prime
/-! Mixed operands. -/
open Polynomial Classical
variable {K : Type} [Field K]
theorem mix_mul (a n p : Int) : a * (n % p) % p = a * n % p := by simp [Int.mul_emod]
theorem mix_add (a n p : Int) : (a + n % p) % p = (a + n) % p := by simp
theorem mix_sub (a n p : Int) : (a + -(n % p)) % p = (a + -n) % p := by
  rw [← sub_eq_add_neg, ← sub_eq_add_neg]; simp
theorem pof_zero_C (f : Int → K) (h : f 0 = 0) : pof 1 f = 0 := by rw [pof_one, h]; simp
theorem eq_len_coeff {p q : K[X]} : p = q ↔ plen p = plen q ∧ ∀ i, 0 ≤ i ∧ i < plen p → pc p i = pc q i := by
  constructor
  · rintro rfl; simp
  · rintro ⟨h1, h2⟩
    apply pext; intro i hi
    by_cases h : i < plen p
    · exact h2 i ⟨hi, h⟩
    · rw [pc_of_ge (by omega), pc_of_ge (by omega)]
theorem pof_add_self (n : Int) (p q : K[X]) (h1 : plen p ≤ n) (h2 : plen q ≤ n) (f : Int → K) (hf : ∀ i, 0 ≤ i → f i = pc p i + pc q i) :
    pof n f = p + q := by
  apply pext; intro i hi
  rw [pc_pof _ _ hi, pc_add]
  split_ifs with h
  · exact hf i hi
  · rw [pc_of_ge (by omega), pc_of_ge (by omega)]; simp
theorem pof_mul_self {N : Int} (p q : K[X]) (h : Int → K) (hN : plen p + plen q - 1 ≤ N)
    (hh : ∀ k, 0 ≤ k → k < N → h k = isum (plen p) fun i => if 0 ≤ k + -i ∧ k + -i < plen q then pc p i * pc q (k + -i) else 0) :
    pof N h = p * q := by
  have := pof_mul' (pc p) (pc q) h hN (plen_nonneg p) (plen_nonneg q) hh
  rw [this, pof_self, pof_self]
theorem ite_pc (p : K[X]) (i : Int) : (if i < plen p then pc p i else 0) = pc p i := by
  split_ifs with h
  · rfl
  · exact (pc_of_ge (by omega)).symm
theorem prem_add_l (p q : K[X]) {g : K[X]} (hg : g ≠ 0) : prem (prem p g + q) g = prem (p + q) g := by
  apply prem_congr hg
  have := dvd_neg.mpr (prem_dvd p g)
  convert this using 1; ring
syntax "mixp_auto" : tactic
macro_rules
  | `(tactic| mixp_auto) => `(tactic| first
    | exact mix_mul _ _ _
    | exact mix_sub _ _ _
    | exact mix_add _ _ _
    | (rw [← Int.add_emod]; done)
    | (rw [← Int.add_emod]; congr 1; ring1)
    | (rw [mix_mul]; congr 1; ring1)
    | (rw [mul_comm, mix_mul]; congr 1; ring1)
    | (rw [mix_add]; congr 1; ring1)
    | (rw [mix_sub]; congr 1; ring1)
    | (rw [add_comm, mix_add]; congr 1; ring1)
    | exact prime_no (by assumption) (by assumption) (by assumption) (by assumption) (by assumption) (by assumption) (Int.emod_nonneg _ (by omega)) (Int.emod_lt_of_pos _ (by omega)) (by apply_assumption; exact ⟨Int.emod_nonneg _ (by omega), by omega⟩)
    | exact div_emod (by assumption) (Int.emod_nonneg _ (by omega)) (Int.emod_lt_of_pos _ (by omega)) (by assumption) (by assumption)
    | exact div_emod' (by assumption) (Int.emod_nonneg _ (by omega)) (Int.emod_lt_of_pos _ (by omega)) (by assumption) (by assumption)
    | exact div_emod (by assumption) (by assumption) (by assumption) (by assumption) (by assumption)
    | exact div_emod' (by assumption) (by assumption) (by assumption) (by assumption) (by assumption)
    | pf_auto)
syntax "mix_auto" : tactic
macro_rules
  | `(tactic| mix_auto) => `(tactic| first
    | rfl
    | exact mul_comm _ _
    | exact add_comm _ _
    | (rw [mul_comm]; done)
    | (rw [add_comm]; done)
    | (simp only [ite_pc]; exact pof_add_self _ _ _ (by split_ifs <;> omega) (by split_ifs <;> omega) _ (fun i _ => rfl))
    | exact pof_mul_self _ _ _ (by split_ifs <;> omega) (fun k _ _ => rfl)
    | (rw [eq_len_coeff]; grind)
    | (rw [ne_eq, eq_len_coeff]; grind)
    | (show _ ↔ ¬ (_ = _); rw [eq_len_coeff]; grind)
    | (congr 1; ring1)
    | (rw [prem_add_l _ _ (by assumption)]; done)
    | (rw [prem_add_l _ _ (by assumption)]; congr 1; ring1)
    | (simp; ring1)
    | (simp; done)
    | (congr 1; simp; ring1)
    | quot_auto)
