import Pv.Poly
import Mathlib.Algebra.Polynomial.FieldDivision
/-! Division of polynomials over a field. -/
open Polynomial Classical
variable {K : Type} [Field K]

noncomputable def pquo (p q : K[X]) : K[X] := p / q
noncomputable def prem (p q : K[X]) : K[X] := p % q

theorem plen_lt_iff {p q : K[X]} : plen p < plen q ↔ p.degree < q.degree := by
  by_cases hp : p = 0 <;> by_cases hq : q = 0
  · simp [hp, hq]
  · have := (plen_pos).2 hq
    simp only [hp, plen_zero, degree_zero, this, true_iff]; exact bot_lt_iff_ne_bot.2 (by simpa using hq)
  · simp [hq, plen_nonneg]
  · rw [degree_eq_natDegree hp, degree_eq_natDegree hq]; simp only [plen, hp, hq, if_false]
    rw [Nat.cast_lt]; omega
theorem prem_lt (p : K[X]) {q : K[X]} (h : q ≠ 0) : plen (prem p q) < plen q :=
  plen_lt_iff.2 (EuclideanDomain.mod_lt p h)
theorem div_eq (p q : K[X]) : p = pquo p q * q + prem p q := by
  unfold pquo prem; rw [mul_comm, EuclideanDomain.div_add_mod]
/-- quotient and remainder are unique -/
theorem div_unique {a b q r : K[X]} (h : a = q * b + r) (hr : plen r < plen b) : q = pquo a b ∧ r = prem a b := by
  have hb : b ≠ 0 := by rintro rfl; have := plen_nonneg r; simp at hr; omega
  have e := div_eq a b
  have hl := prem_lt a hb
  have h1 : (q - pquo a b) * b = prem a b - r := by
    have : q * b + r = pquo a b * b + prem a b := h ▸ e
    linear_combination this
  have hq : q - pquo a b = 0 := by
    by_contra hc
    have h2 := plen_mul hc hb
    rw [h1] at h2
    have h3 := plen_sub_le (prem a b) r
    have h4 := plen_pos.2 hc
    have : max (plen (prem a b)) (plen r) < plen b := max_lt hl hr
    omega
  have h5 : q = pquo a b := sub_eq_zero.1 hq
  refine ⟨h5, ?_⟩
  rw [hq, zero_mul] at h1
  exact (sub_eq_zero.1 h1.symm).symm
theorem pc_mul_top {p q : K[X]} (hp : p ≠ 0) (hq : q ≠ 0) :
    pc (p * q) (plen p + plen q - 2) = pc p (plen p - 1) * pc q (plen q - 1) := by
  unfold pc plen
  simp only [hp, hq, if_false]
  have h1 : ((p.natDegree : Int) + 1 + (q.natDegree + 1) - 2).toNat = p.natDegree + q.natDegree := by omega
  rw [if_pos (by omega), if_pos (by omega), if_pos (by omega), h1]
  simp [coeff_mul_degree_add_degree]
/-- one step of long division lowers the remainder -/
theorem div_step {r d : K[X]} {n : Int} {f : Int → K} (hd : d ≠ 0) (hn : n + plen d = plen r + 1) (hge : plen d ≤ plen r)
    (h0 : f (n - 1) = pc r (plen r - 1) / pc d (plen d - 1)) : plen (r - pof n f * d) < plen r := by
  have hdp := plen_pos.2 hd
  have hr : r ≠ 0 := plen_pos.1 (by omega)
  have hl : pc d (plen d - 1) ≠ 0 := pc_last hd
  have hlr : pc r (plen r - 1) ≠ 0 := pc_last hr
  have hf : f (n - 1) ≠ 0 := by rw [h0]; exact div_ne_zero hlr hl
  have hc : canon n f := ⟨by omega, Or.inr hf⟩
  have hq : plen (pof n f) = n := plen_pof hc
  have hq0 : pof n f ≠ 0 := plen_pos.1 (by omega)
  have h1 : plen (pof n f * d) = plen r := by rw [plen_mul hq0 hd, hq]; omega
  have h2 : pc (pof n f * d) (plen r - 1) = pc r (plen r - 1) := by
    have := pc_mul_top hq0 hd
    rw [hq, pc_pof _ _ (by omega), if_pos (by omega), h0, div_mul_cancel₀ _ hl] at this
    rw [← this]; congr 1; omega
  have h3 : plen (r - pof n f * d) ≤ plen r - 1 := by
    apply plen_le (by omega)
    intro i hi
    rw [pc_sub]
    by_cases hi2 : i = plen r - 1
    · rw [hi2, h2, sub_self]
    · rw [pc_of_ge (by omega), pc_of_ge (by rw [h1]; omega), sub_self]
  omega
syntax "pdiv_auto" : tactic
macro_rules
  | `(tactic| pdiv_auto) => `(tactic| first
    | (apply plen_nonneg)
    | exact plen_pos.2 (by assumption)
    | exact pc_last (by assumption)
    | exact pc_last' (by omega)
    | exact (div_unique (by assumption) (by omega)).1
    | exact (div_unique (by assumption) (by omega)).2
    | exact div_step (by assumption) (by omega) (by omega) (by beta_reduce; rw [if_neg (by omega)]; congr 2 <;> omega)
    | ring1
    | (rename_i h _ _; rw [h]; ring1)
    | (subst_vars; ring1)
    | poly_auto)
