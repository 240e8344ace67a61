import Pv.Fft
import Pv.Interp
import Pv.PolyDiv
/-! Trace, constraint and boundary polynomials. -/
open Polynomial
variable {K : Type} [Field K]
theorem pof2_X (f : Int → K) (h0 : f 0 = 0) (h1 : f 1 = 1) : pof 2 f = X := by
  rw [pof2_eq (f := f) (g := fun i => if i = 0 then -(0:K) else 1) (by simp [h0]) (by simp [h1]), lin_C]; simp
theorem pof2_lin (a : K) (f : Int → K) (h0 : f 0 = -a) (h1 : f 1 = 1) : pof 2 f = X - C a := by
  rw [pof2_eq (f := f) (g := fun i => if i = 0 then -a else 1) (by simp [h0]) (by simp [h1]), lin_C]
theorem vanish_monic (n : Int) (xs : Int → K) : (vanish n xs).Monic := by
  unfold vanish iprod; exact monic_prod_of_monic _ _ fun i _ => monic_X_sub_C _
theorem vanish_deg (n : Int) (xs : Int → K) : (vanish n xs).natDegree = n.toNat := by
  unfold vanish iprod; rw [natDegree_prod_of_monic _ _ fun i _ => monic_X_sub_C _]; simp
/-- x^n - 1 over the group of order n -/
theorem group_poly {n : Int} {w : K} (h : primroot n w) : ipow (X : K[X]) n - 1 = vanish n (fun i => ipow w i) := by
  have hn := ispow2_pos h.1
  have hm : (X ^ n.toNat - 1 : K[X]).Monic := monic_X_pow_sub_C (1 : K) (by omega)
  have hd : (X ^ n.toNat - 1 : K[X]) ∣ vanish n (fun i => ipow w i) := by
    have := fft_congr h (vanish n fun i => ipow w i) 0 fun i a b => by rw [vanish_root (fun i => ipow w i) a b, eval_zero]
    rwa [sub_zero] at this
  have hX : (X ^ n.toNat - 1 : K[X]).natDegree = n.toNat := natDegree_X_pow_sub_C (r := (1 : K))
  have := eq_of_monic_of_dvd_of_natDegree_le hm (vanish_monic _ _) hd (by rw [hX, vanish_deg])
  exact this.symm
theorem group_last {n : Int} {w : K} (h : primroot n w) : ipow (X : K[X]) n - 1 = vanish (n - 1) (fun i => ipow w i) * (X - C (ipow w (n - 1))) := by
  have hn := ispow2_pos h.1
  rw [group_poly h, ← vanish_succ _ (by omega), sub_add_cancel]
theorem pquo_mul {a b : K[X]} (hb : b ≠ 0) : pquo (a * b) b = a := by unfold pquo; exact mul_div_cancel_right₀ a hb
theorem prem_dvd {a b : K[X]} : prem a b = 0 ↔ b ∣ a := by unfold prem; exact EuclideanDomain.mod_eq_zero
theorem pquo_dvd {a b : K[X]} (h : b ∣ a) : pquo a b * b = a := by
  obtain ⟨c, rfl⟩ := h
  by_cases hb : b = 0
  · subst hb; simp
  · rw [mul_comm b c, pquo_mul hb]
theorem vanish_dvd {n : Int} {w : K} (h : primroot n w) {m : Int} (hm : m ≤ n) (p : K[X]) (hp : ∀ i, 0 ≤ i → i < m → eval (ipow w i) p = 0) : vanish m (fun i => ipow w i) ∣ p := by
  unfold vanish iprod
  apply Finset.prod_dvd_of_coprime
  · intro i hi j hj e
    have := Finset.mem_coe.1 hi; have := Finset.mem_coe.1 hj
    rw [Finset.mem_range] at *
    apply isCoprime_X_sub_C_of_isUnit_sub
    rw [isUnit_iff_ne_zero, sub_ne_zero]
    exact fun e2 => e (by exact_mod_cast primroot_inj h (by omega) (by omega) (by omega) (by omega) e2)
  · intro i hi; rw [Finset.mem_range] at hi
    exact dvd_iff_isRoot.2 (hp _ (by omega) (by omega))
theorem two_dvd {a b : K} (hab : a ≠ b) (p : K[X]) (ha : eval a p = 0) (hb : eval b p = 0) : (X - C a) * (X - C b) ∣ p :=
  IsCoprime.mul_dvd (isCoprime_X_sub_C_of_isUnit_sub (isUnit_iff_ne_zero.2 (sub_ne_zero.2 hab))) (dvd_iff_isRoot.2 ha) (dvd_iff_isRoot.2 hb)
theorem two_ne (a b : K) : (X - C a) * (X - C b) ≠ 0 := mul_ne_zero (X_sub_C_ne_zero a) (X_sub_C_ne_zero b)
theorem last_ne_one {n : Int} {w : K} (h : primroot n w) (h2 : 2 ≤ n) : (1 : K) ≠ ipow w (n - 1) := fun e => h.2.2 (n - 1) (by omega) (by omega) e.symm
theorem pof2X : pof 2 (fun i => if i = 0 then (0 : K) else 1) = X := pof2_X _ (by simp) (by simp)
theorem pof2L (a : K) : pof 2 (fun i => if i = 0 then -a else (1 : K)) = X - C a := pof2_lin _ _ (by simp) (by simp)
theorem group_quo {n : Int} {w : K} (h : primroot n w) : pquo (ipow (X : K[X]) n - 1) (X - C (ipow w (n + -1))) = vanish (n + -1) (fun i => ipow w i) := by
  rw [show n + -1 = n - 1 by omega, group_last h, pquo_mul (X_sub_C_ne_zero _)]
theorem group_rem {n : Int} {w : K} (h : primroot n w) : prem (ipow (X : K[X]) n - 1) (X - C (ipow w (n + -1))) = 0 := by
  rw [prem_dvd, show n + -1 = n - 1 by omega, group_last h]; exact dvd_mul_left _ _
theorem group_den {n : Int} {w : K} : (X : K[X]) - C (ipow w (n + -1)) ≠ 0 := X_sub_C_ne_zero _
/-- the boundary quotient is exact -/
theorem boundary_quo {n : Int} {w a b : K} {p l : K[X]} (h : primroot n w) (h2 : 2 ≤ n) (ha : eval 1 p = a) (hb : eval (ipow w (n + -1)) p = b) (hl : l = lag2 1 (ipow w (n + -1)) a b) :
    pquo (p - l) ((X - C 1) * (X - C (ipow w (n + -1)))) * ((X - C 1) * (X - C (ipow w (n + -1)))) = p - l := by
  subst hl
  have hne : (1 : K) ≠ ipow w (n + -1) := by rw [show n + -1 = n - 1 by omega]; exact last_ne_one h h2
  obtain ⟨_, e0, e1⟩ := lag2_spec a b hne.symm
  apply pquo_dvd
  apply two_dvd hne
  · rw [eval_sub, e0, ha, sub_self]
  · rw [eval_sub, e1, hb, sub_self]
macro "stark_norm" : tactic => `(tactic| ((try simp only [pof2X, pof2L, map_one, map_neg, sub_eq_add_neg] at *); (try simp only [← sub_eq_add_neg] at *)))
macro "stark_auto" : tactic => `(tactic| (
  have hn := ispow2_pos (And.left ‹primroot _ _›)
  have hq := group_quo ‹primroot _ _›
  have hr := group_rem ‹primroot _ _›
  (try simp only [pof2X, pof2L, map_one, Int.add_neg_one] at *)
  first
  | done
  | assumption
  | omega
  | (rw [hr]; done)
  | exact absurd ‹_› (X_sub_C_ne_zero _)
  | (rw [hq] at *; exact vanish_ne _ _)
  | (rw [hq] at *; exact absurd ‹_› (vanish_ne _ _))))
theorem pof2N (a : K) : (pof 2 (fun i => if i = 0 then (-1 : K) else 1) : K[X]) * pof 2 (fun i => if i = 0 then -a else (1 : K)) = (X - C 1) * (X - C a) := by
  rw [pof2_lin 1 _ (by simp) (by simp), pof2L]
