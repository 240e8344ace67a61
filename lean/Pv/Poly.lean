import Pv.Basic
import Mathlib.Algebra.Polynomial.Basic
import Mathlib.Algebra.Polynomial.Eval.Defs
import Mathlib.Algebra.Polynomial.FieldDivision
/-! Coefficient lists and polynomials. -/
open Polynomial Classical

variable {K : Type} [Field K]

/-- The polynomial with coefficient list f 0, …, f (n-1). -/
noncomputable def pof (n : Int) (f : Int → K) : K[X] := isum n fun i => monomial i.toNat (f i)
/-- Length of the canonical coefficient list. -/
noncomputable def plen (p : K[X]) : Int := if p = 0 then 0 else p.natDegree + 1
/-- Coefficient i. -/
noncomputable def pc (p : K[X]) (i : Int) : K := if 0 ≤ i then p.coeff i.toNat else 0
/-- A coefficient list without trailing zeros. -/
def canon (n : Int) (f : Int → K) : Prop := 0 ≤ n ∧ (n = 0 ∨ f (n - 1) ≠ 0)

theorem plen_nonneg (p : K[X]) : 0 ≤ plen p := by unfold plen; split_ifs <;> omega
@[simp] theorem plen_zero : plen (0 : K[X]) = 0 := by simp [plen]
theorem plen_eq_zero {p : K[X]} : plen p = 0 ↔ p = 0 := by
  unfold plen; split_ifs with h
  · simp [h]
  · simp [h]; omega
theorem plen_pos {p : K[X]} : 0 < plen p ↔ p ≠ 0 := by
  have := plen_nonneg p; have := plen_eq_zero (p := p); constructor
  · intro h hp; rw [this.2 hp] at h; omega
  · intro h; by_contra hc; exact h (this.1 (by omega))
theorem pext {p q : K[X]} (h : ∀ i : Int, 0 ≤ i → pc p i = pc q i) : p = q := by
  ext j; have := h j (by omega); simpa [pc] using this
theorem pext_iff {p q : K[X]} : p = q ↔ ∀ i : Int, 0 ≤ i → pc p i = pc q i := ⟨fun h => by simp [h], pext⟩
theorem pc_of_neg {p : K[X]} {i : Int} (h : i < 0) : pc p i = 0 := by simp [pc, not_le.2 h]
theorem pc_of_ge {p : K[X]} {i : Int} (h : plen p ≤ i) : pc p i = 0 := by
  unfold pc plen at *
  split_ifs with hi
  · split_ifs at h with hp
    · simp [hp]
    · apply coeff_eq_zero_of_natDegree_lt; omega
  · rfl
theorem pc_last {p : K[X]} (h : p ≠ 0) : pc p (plen p - 1) ≠ 0 := by
  unfold pc plen
  simp only [h, if_false]
  simp [h]
theorem pc_last' {p : K[X]} (h : 0 < plen p) : pc p (plen p - 1) ≠ 0 := pc_last (plen_pos.1 h)
theorem pc_canon (p : K[X]) : canon (plen p) (pc p) := by
  refine ⟨plen_nonneg p, ?_⟩
  by_cases h : p = 0
  · left; simp [h]
  · right; exact pc_last h
theorem plen_le {p : K[X]} {n : Int} (hn : 0 ≤ n) (h : ∀ i, n ≤ i → pc p i = 0) : plen p ≤ n := by
  by_contra hc
  have := h (plen p - 1) (by omega)
  exact pc_last' (by omega) this
theorem plen_eq {p : K[X]} {n : Int} (hn : 0 ≤ n) (h : ∀ i, n ≤ i → pc p i = 0) (h2 : n = 0 ∨ pc p (n - 1) ≠ 0) : plen p = n := by
  have h1 := plen_le hn h
  rcases h2 with h2 | h2
  · have := plen_nonneg p; omega
  · by_contra hc
    exact h2 (pc_of_ge (by omega))

theorem pc_pof (n : Int) (f : Int → K) {i : Int} (hi : 0 ≤ i) : pc (pof n f) i = if i < n then f i else 0 := by
  unfold pc pof isum
  simp only [hi, if_true, finsetSum_coeff, coeff_monomial]
  split_ifs with h
  · rw [Finset.sum_eq_single_of_mem i.toNat (by rw [Finset.mem_range]; omega)]
    · simp [Int.toNat_of_nonneg hi]
    · intro b _ hb; simp [hb]
  · apply Finset.sum_eq_zero
    intro b hb; rw [Finset.mem_range] at hb
    rw [if_neg]; simp; omega
theorem pof_self (p : K[X]) : pof (plen p) (pc p) = p := by
  apply pext; intro i hi; rw [pc_pof _ _ hi]; split_ifs with h
  · rfl
  · exact (pc_of_ge (by omega)).symm
theorem plen_pof {n : Int} {f : Int → K} (h : canon n f) : plen (pof n f) = n := by
  apply plen_eq h.1
  · intro i hi; have := h.1; rw [pc_pof _ _ (by omega)]; simp [not_lt.2 hi]
  · rcases h.2 with h2 | h2
    · exact Or.inl h2
    · by_cases h0 : n = 0
      · exact Or.inl h0
      · right; have := h.1; rw [pc_pof _ _ (by omega)]; simpa using h2
theorem plen_pof_le {n : Int} (hn : 0 ≤ n) (f : Int → K) : plen (pof n f) ≤ n :=
  plen_le hn fun i hi => by rw [pc_pof _ _ (by omega)]; simp [not_lt.2 hi]
@[simp] theorem pof_zero (f : Int → K) : pof 0 f = 0 := by simp [pof]
theorem pof_congr {n : Int} {f g : Int → K} (h : ∀ i, 0 ≤ i → i < n → f i = g i) : pof n f = pof n g := by
  unfold pof; exact isum_congr fun i h0 h1 => by rw [h i h0 h1]
theorem canon_congr {n : Int} {f g : Int → K} (h : canon n f) (e : ∀ i, 0 ≤ i → i < n → f i = g i) : canon n g := by
  refine ⟨h.1, ?_⟩
  by_cases h0 : n = 0
  · exact Or.inl h0
  · right
    have := h.2.resolve_left h0
    rwa [e (n - 1) (by have := h.1; omega) (by omega)] at this
/-- stripping a canonical list changes nothing -/
theorem strip_keep {m n : Int} {f : Int → K} (h : canon n f) (m0 : 0 ≤ m) (hm : m ≤ n) (hz : ∀ i, m ≤ i → i < n → f i = 0) : m = n := by
  by_contra hne
  rcases h.2 with h0 | h0
  · omega
  · exact h0 (hz (n - 1) (by omega) (by omega))
/-- stripping trailing zeros does not change the polynomial -/
theorem pof_strip {m n : Int} {f : Int → K} (hm : m ≤ n) (h : ∀ i, m ≤ i → i < n → f i = 0) : pof m f = pof n f := by
  apply pext; intro i hi; rw [pc_pof _ _ hi, pc_pof _ _ hi]
  by_cases h1 : i < m
  · simp [h1, lt_of_lt_of_le h1 hm]
  · by_cases h2 : i < n
    · simp [h1, h2, h i (by omega) h2]
    · simp [h1, h2]
/-- equal polynomials have equal canonical lists -/
theorem canon_unique {n m : Int} {f g : Int → K} (hf : canon n f) (hg : canon m g) (h : pof n f = pof m g) :
    n = m ∧ ∀ i, 0 ≤ i → i < n → f i = g i := by
  have h1 := plen_pof hf
  rw [h, plen_pof hg] at h1
  refine ⟨h1.symm, fun i h0 hi => ?_⟩
  have := congrArg (fun p => pc p i) h
  simp only [pc_pof _ _ h0] at this
  simpa [hi, h1 ▸ hi] using this

@[simp] theorem pc_zero (i : Int) : pc (0 : K[X]) i = 0 := by simp [pc]
theorem pc_add (p q : K[X]) (i : Int) : pc (p + q) i = pc p i + pc q i := by unfold pc; split_ifs <;> simp
theorem pc_sub (p q : K[X]) (i : Int) : pc (p - q) i = pc p i - pc q i := by unfold pc; split_ifs <;> simp
theorem pc_neg (p : K[X]) (i : Int) : pc (-p) i = -pc p i := by unfold pc; split_ifs <;> simp
theorem pc_C_mul (c : K) (p : K[X]) (i : Int) : pc (C c * p) i = c * pc p i := by unfold pc; split_ifs <;> simp
theorem pc_C (c : K) (i : Int) : pc (C c) i = if i = 0 then c else 0 := by
  unfold pc; split_ifs with h1 h2 h2
  · simp [h2]
  · rw [coeff_C, if_neg]; omega
  · omega
  · rfl
theorem pc_one (i : Int) : pc (1 : K[X]) i = if i = 0 then 1 else 0 := by
  rw [← C_1, pc_C]
theorem pc_X (i : Int) : pc (X : K[X]) i = if i = 1 then 1 else 0 := by
  unfold pc; split_ifs with h1 h2 h2
  · simp [h2]
  · rw [coeff_X, if_neg]; omega
  · omega
  · rfl
theorem pc_mul (p q : K[X]) {k : Int} (hk : 0 ≤ k) : pc (p * q) k = isum (k + 1) fun i => pc p i * pc q (k - i) := by
  obtain ⟨a, rfl⟩ := Int.eq_ofNat_of_zero_le hk
  have : ((a : Int) + 1).toNat = a + 1 := by omega
  unfold pc isum
  rw [this]
  simp only [Int.toNat_natCast, Int.natCast_nonneg, if_true]
  rw [coeff_mul, Finset.Nat.sum_antidiagonal_eq_sum_range_succ_mk]
  apply Finset.sum_congr rfl
  intro i hi
  have := Finset.mem_range.1 hi
  rw [if_pos (by omega)]
  congr 2; omega
/-- the schoolbook product -/
theorem pof_mul {n m N : Int} (f g h : Int → K) (hN : n + m - 1 ≤ N) (hn : 0 ≤ n) (hm : 0 ≤ m)
    (hh : ∀ k, 0 ≤ k → k < N → h k = isum n fun i => isum m fun j => if i + j = k then f i * g j else 0) :
    pof N h = pof n f * pof m g := by
  have key : pof n f * pof m g = isum n fun i => isum m fun j => monomial (i + j).toNat (f i * g j) := by
    unfold pof
    rw [← isum_mul_right]
    apply isum_congr; intro i h0 h1
    rw [← isum_mul_left]
    apply isum_congr; intro j h2 h3
    rw [monomial_mul_monomial, Int.toNat_add h0 h2]
  rw [key]
  apply pext; intro k hk
  rw [pc_pof _ _ hk]
  have e : pc (isum n fun i => isum m fun j => (monomial (i + j).toNat (f i * g j) : K[X])) k
      = isum n fun i => isum m fun j => if i + j = k then f i * g j else 0 := by
    unfold pc isum
    simp only [hk, if_true, finsetSum_coeff, coeff_monomial]
    apply Finset.sum_congr rfl; intro i _
    apply Finset.sum_congr rfl; intro j _
    congr 1
    simp only [eq_iff_iff]
    omega
  rw [e]
  split_ifs with h1
  · exact hh k hk h1
  · symm; apply isum_eq_zero; intro i h2 h3
    apply isum_eq_zero; intro j h4 h5
    rw [if_neg]; omega
theorem plen_mul {p q : K[X]} (hp : p ≠ 0) (hq : q ≠ 0) : plen (p * q) = plen p + plen q - 1 := by
  unfold plen
  simp only [hp, hq, mul_ne_zero hp hq, if_false, natDegree_mul hp hq]
  push_cast; ring
theorem plen_neg (p : K[X]) : plen (-p) = plen p := by simp [plen]
theorem plen_C {c : K} (h : c ≠ 0) : plen (C c) = 1 := by simp [plen, h]
theorem plen_one : plen (1 : K[X]) = 1 := by simp [plen]
theorem plen_X : plen (X : K[X]) = 2 := by simp [plen]
theorem plen_add_le (p q : K[X]) : plen (p + q) ≤ max (plen p) (plen q) :=
  plen_le (le_max_of_le_left (plen_nonneg p)) fun i hi => by
    rw [pc_add, pc_of_ge (le_trans (le_max_left _ _) hi), pc_of_ge (le_trans (le_max_right _ _) hi), add_zero]
theorem plen_sub_le (p q : K[X]) : plen (p - q) ≤ max (plen p) (plen q) := by
  rw [sub_eq_add_neg]; have := plen_add_le p (-q); rwa [plen_neg] at this
/-- evaluation as a sum over the coefficient list -/
theorem eval_pof (n : Int) (f : Int → K) (x : K) : (pof n f).eval x = isum n fun i => f i * ipow x i := by
  unfold pof isum ipow
  simp [eval_finsetSum, eval_monomial]
theorem eval_self (p : K[X]) (x : K) : p.eval x = isum (plen p) fun i => pc p i * ipow x i := by
  conv_lhs => rw [← pof_self p]
  exact eval_pof _ _ _
theorem comp_pof (n : Int) (f : Int → K) (x : K[X]) : (pof n f).comp x = isum n fun i => C (f i) * ipow x i := by
  unfold pof isum ipow
  rw [comp, eval₂_finsetSum]
  simp [eval₂_monomial]

theorem pof_mul' {n m N : Int} (f g h : Int → K) (hN : n + m - 1 ≤ N) (hn : 0 ≤ n) (hm : 0 ≤ m)
    (hh : ∀ k, 0 ≤ k → k < N → h k = isum n fun i => if 0 ≤ k + -i ∧ k + -i < m then f i * g (k + -i) else 0) :
    pof N h = pof n f * pof m g := by
  apply pof_mul f g h hN hn hm
  intro k h0 h1
  rw [hh k h0 h1]
  apply isum_congr; intro i h2 h3
  split_ifs with h4
  · rw [isum_single (j := k + -i) _ h4.1 h4.2]
    · simp
    · intro j _ _ hj; rw [if_neg]; omega
  · symm; apply isum_eq_zero; intro j h5 h6; rw [if_neg]; omega
theorem eq_canon {n m : Int} {f g : Int → K} (hf : canon n f) (hg : canon m g) :
    pof n f = pof m g ↔ n = m ∧ ∀ i, 0 ≤ i ∧ i < n → f i = g i := by
  constructor
  · intro h; have := canon_unique hf hg h; exact ⟨this.1, fun i hi => this.2 i hi.1 hi.2⟩
  · rintro ⟨rfl, h⟩; exact pof_congr fun i h0 h1 => h i ⟨h0, h1⟩

theorem strip_mul {n m M N : Int} {f g h : Int → K} (hM : M ≤ N) (hs : ∀ i, M ≤ i ∧ i < N → h i = 0) (hN : n + m - 1 ≤ N)
    (hn : 0 ≤ n) (hm : 0 ≤ m)
    (hh : ∀ k, 0 ≤ k → k < N → h k = isum n fun i => if 0 ≤ k + -i ∧ k + -i < m then f i * g (k + -i) else 0) :
    pof M h = pof n f * pof m g :=
  (pof_strip hM fun i h0 h1 => hs i ⟨h0, h1⟩).trans (pof_mul' f g h hN hn hm hh)

theorem pof_strip' {m n : Int} {f : Int → K} (hm : m ≤ n) (h : ∀ i, m ≤ i ∧ i < n → f i = 0) : pof m f = pof n f :=
  pof_strip hm fun i h0 h1 => h i ⟨h0, h1⟩
syntax "poly_auto" : tactic
macro_rules
  | `(tactic| poly_auto) => `(tactic| first
    | (rw [plen_pof (by assumption)]; done)
    | (rw [plen_pof (by assumption)]; omega)
    | (rw [← plen_eq_zero, plen_pof (by assumption)]; done)
    | exact pof_strip' (by omega) (by assumption)
    | (rename_i h; rcases h with h | h <;> simp [h]; done)
    | (rw [eval_pof]; apply isum_congr; intros; ring)
    | (rw [eq_canon (by assumption) (by assumption)]; constructor
       · rintro ⟨h1, h2⟩; refine ⟨by omega, fun i hi => h2 i ?_⟩; split_ifs <;> omega
       · rintro ⟨h1, h2⟩; refine ⟨by omega, fun i hi => h2 i ?_⟩; split_ifs at hi <;> omega)
    | (show _ ↔ ¬ (pof _ _ = pof _ _); rw [eq_canon (by assumption) (by assumption)]; constructor
       · rintro (h | ⟨i, h0, h1, h2⟩) ⟨h3, h4⟩
         · omega
         · exact h2 (h4 i ⟨h0, by split_ifs at h1 <;> omega⟩)
       · intro h; by_contra hc
         simp only [not_or, not_exists, not_and, ne_eq, not_not] at hc
         exact h ⟨by omega, fun i hi => hc.2 i hi.1 (by split_ifs <;> omega)⟩)
    | (apply pext; intro i hi; simp only [pc_pof _ _ hi, pc_add, pc_sub, pc_neg, pc_zero]; grind)
    | exact strip_mul (by assumption) (by assumption) (by split_ifs <;> omega) (by assumption) (by assumption) (fun k _ _ => rfl)
    | exact pof_strip (by omega) (by grind))
