import Pv.Pow
/-! MiMC iterations, powers of two, power cycles. -/
def mimcMod : Int := 115792089237316195423570985008687907853269984665640564039457584006405596119041
def mimcN (n : Int) (c : Int → Int) (x : Int) : Int :=
  irec n (fun i y => (y * y * y + c i) % 115792089237316195423570985008687907853269984665640564039457584006405596119041) x
theorem mimcN_succ (c : Int → Int) (x : Int) {n : Int} (h : 0 ≤ n) :
    mimcN (n + 1) c x = (mimcN n c x * mimcN n c x * mimcN n c x + c n) % 115792089237316195423570985008687907853269984665640564039457584006405596119041 := by
  unfold mimcN; rw [irec_succ _ _ h]
theorem mimcN_zero (c : Int → Int) (x : Int) {n : Int} (h : n ≤ 0) : mimcN n c x = x := by
  unfold mimcN; rw [irec_of_nonpos _ _ h]
theorem ispow2_odd {x : Int} (h : x % 2 ≠ 0) (h1 : x ≠ 1) : ¬ ispow2 x := by
  rintro ⟨k, rfl⟩
  rcases k with _ | k
  · simp at h1
  · rw [pow_succ] at h; simp at h
theorem ispow2_even {x : Int} (h : x % 2 = 0) : ispow2 (x / 2) ↔ ispow2 x := by
  have e : x = 2 * (x / 2) := by omega
  constructor
  · intro h'; rw [e]; exact ispow2_double' h'
  · rintro ⟨k, hk⟩
    rcases k with _ | k
    · simp at hk; omega
    · refine ⟨k, ?_⟩; rw [pow_succ] at hk; omega
theorem pow_inj {R : Type} [Field R] {r : R} {n i j : Int} (hn : 0 < n) (h1 : ipow r n = 1) (h : ∀ i, 0 < i ∧ i < n → ipow r i ≠ 1)
    (hi : 0 ≤ i) (hij : i < j) (hj : j < n) : ipow r i ≠ ipow r j := by
  intro he
  have hr : r ≠ 0 := by
    rintro rfl
    unfold ipow at h1
    rw [zero_pow (by omega)] at h1
    exact zero_ne_one h1
  have : ipow r j = ipow r i * ipow r (j - i) := by rw [← ipow_add _ hi (by omega)]; congr 1; omega
  have h2 : ipow r i ≠ 0 := pow_ne_zero _ hr
  rw [← he] at this
  exact h (j - i) ⟨by omega, by omega⟩ (by
    have : ipow r i * 1 = ipow r i * ipow r (j - i) := by rw [mul_one]; exact this
    exact (mul_left_cancel₀ h2 this).symm)
syntax "mimc_auto" : tactic
macro_rules
  | `(tactic| mimc_auto) => `(tactic| first
    | exact Int.emod_nonneg _ (by omega)
    | exact Int.emod_lt_of_pos _ (by omega)
    | (rw [mimcN_zero _ _ (by omega)]; done)
    | (rw [mimcN_succ _ _ (by omega)]; subst_vars; congr 1; ring1)
    | (rw [mimcN_succ _ _ (by omega)]; subst_vars; rfl)
    | (rw [mimcN_succ _ _ (by omega)]; simp_all; done)
    | (split_ifs; simp_all; done)
    | (split_ifs at * <;> first | (subst_vars; rw [mimcN_zero _ _ (by omega)]; try rw [mimcN_zero _ _ (by omega)]; done) | (simp_all; done))
    | pv_auto)
theorem ispow2_iff {x : Int} (h : 0 < x) : ispow2 x ↔ (x = 1 ∨ x % 2 = 0 ∧ ispow2 (x / 2)) := by
  by_cases h1 : x = 1
  · subst h1; simp [ispow2_one]
  · by_cases h2 : x % 2 = 0
    · rw [← ispow2_even h2]; simp [h1, h2]
    · simp only [h1, h2, false_and, or_self, iff_false]; exact ispow2_odd h2 h1
syntax "pow2_auto" : tactic
macro_rules
  | `(tactic| pow2_auto) => `(tactic| first
    | exact (ispow2_iff (by assumption)).symm
    | (rw [ispow2_iff (by assumption)]; grind)
    | (subst_vars; exact iff_of_true trivial ispow2_one)
    | (simp only [eq_iff_iff, false_iff]; exact ispow2_odd (by assumption) (by assumption))
    | (simp only [eq_iff_iff]; exact ispow2_even (by omega))
    | (rw [ispow2_even (by omega)]; done)
    | pv_auto)
theorem ipow_last {R : Type} [Monoid R] (r : R) {n : Int} (h : 0 < n) : ipow r n = ipow r (n + -1) * r := by
  have := ipow_succ r (show 0 ≤ n + -1 by omega)
  rwa [show n + -1 + 1 = n by omega] at this
theorem ipow_one' {R : Type} [Monoid R] (r : R) : ipow r 1 = r := by simp [ipow]
theorem ipow_zero' {R : Type} [Monoid R] (r : R) : ipow r 0 = 1 := by simp [ipow]
theorem cycle_init {R : Type} [Monoid R] (r : R) : ∀ i : Int, 0 ≤ i ∧ i < 2 → (if i = 0 then 1 else r) = ipow r i := by
  intro i hi
  split_ifs with h
  · subst h; simp [ipow]
  · have : i = 1 := by omega
    subst this; simp [ipow]
syntax "cycle_auto" : tactic
macro_rules
  | `(tactic| cycle_auto) => `(tactic| first
    | omega
    | exact cycle_init _
    | (intro i hi; split_ifs with h
       · grind
       · have e : i = i + -1 + 1 := by omega
         rw [ipow_last _ (by omega)]; grind)
    | (intro i hi; split_ifs with h
       · grind
       · rw [ipow_last _ (by omega), mul_comm]; grind)
    | (intro i j hij; have hne := pow_inj (by omega) (by assumption) (by assumption) hij.1 hij.2.1 hij.2.2; grind)
    | pv_auto)
