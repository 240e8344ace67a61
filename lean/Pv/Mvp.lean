import Pv.Poly
import Mathlib.Algebra.MvPolynomial.Degrees
import Mathlib.Algebra.MvPolynomial.CommRing
/-! Multivariate polynomials: exponent tuples and coefficient dictionaries. -/
open MvPolynomial
open Finset (range)
abbrev Mon := ℕ →₀ ℕ
def mexp (m : Mon) (i : Int) : Int := (m i.toNat : Int)
theorem mexp_nonneg (m : Mon) (i : Int) : 0 ≤ mexp m i := Int.natCast_nonneg _
/-- the exponents f 0, .., f (n-1) -/
noncomputable def monof (n : Int) (f : Int → Int) : Mon :=
  Finsupp.onFinset (range n.toNat) (fun i => if i < n.toNat then (f i).toNat else 0) (by intro i h; simp at h ⊢; exact h.1)
theorem mexp_monof (n : Int) (f : Int → Int) {i : Int} (h0 : 0 ≤ i) (h1 : i < n) (hf : 0 ≤ f i) : mexp (monof n f) i = f i := by
  unfold mexp monof; simp only [Finsupp.onFinset_apply]
  rw [if_pos (by omega), show ((i.toNat : ℕ) : Int) = i by omega]; omega
/-- a tuple of length n -/
def mlen (n : Int) (m : Mon) : Prop := ∀ i : Int, n ≤ i → 0 ≤ i → mexp m i = 0
theorem mlen_monof (n : Int) (f : Int → Int) : mlen n (monof n f) := by
  intro i h h0; unfold mexp monof; simp only [Finsupp.onFinset_apply]; rw [if_neg (by omega)]; rfl
theorem mon_ext {n : Int} {a b : Mon} (ha : mlen n a) (hb : mlen n b) (h : ∀ i, 0 ≤ i → i < n → mexp a i = mexp b i) : a = b := by
  ext i
  have : mexp a i = mexp b i := by
    by_cases hi : (i : Int) < n
    · exact h i (by omega) hi
    · rw [ha i (by omega) (by omega), hb i (by omega) (by omega)]
  unfold mexp at this; simpa using this
theorem monof_self {n : Int} {a : Mon} (ha : mlen n a) (f : Int → Int) (h : ∀ i, 0 ≤ i → i < n → f i = mexp a i) : monof n f = a :=
  mon_ext (mlen_monof n f) ha fun i h0 h1 => by rw [mexp_monof n f h0 h1 (by rw [h i h0 h1]; exact mexp_nonneg _ _), h i h0 h1]
theorem monof_zero {n : Int} (f : Int → Int) (h : ∀ i, 0 ≤ i → i < n → f i = 0) : monof n f = 0 :=
  monof_self (fun i _ _ => by simp [mexp]) f (fun i a b => by rw [h i a b]; simp [mexp])
theorem mexp_add (a b : Mon) (i : Int) : mexp (a + b) i = mexp a i + mexp b i := by unfold mexp; simp
theorem mlen_add {n : Int} {a b : Mon} (ha : mlen n a) (hb : mlen n b) : mlen n (a + b) := fun i h h0 => by rw [mexp_add, ha i h h0, hb i h h0]; rfl
theorem monof_add {n : Int} {a b : Mon} (ha : mlen n a) (hb : mlen n b) (f : Int → Int) (h : ∀ i, 0 ≤ i → i < n → f i = mexp a i + mexp b i) : monof n f = a + b :=
  monof_self (mlen_add ha hb) f fun i h0 h1 => by rw [mexp_add, h i h0 h1]
variable {K : Type} [Field K]
/-- the coefficient of a monomial -/
noncomputable def mcoef (p : MvPolynomial ℕ K) (m : Mon) : K := coeff m p
noncomputable def mmon (m : Mon) (c : K) : MvPolynomial ℕ K := monomial m c
/-- only the first n variables occur -/
def mvars (n : Int) (p : MvPolynomial ℕ K) : Prop := ∀ m, mcoef p m ≠ 0 → mlen n m
theorem mcoef_add (p q : MvPolynomial ℕ K) (m : Mon) : mcoef (p + q) m = mcoef p m + mcoef q m := coeff_add m p q
theorem mcoef_sub (p q : MvPolynomial ℕ K) (m : Mon) : mcoef (p - q) m = mcoef p m - mcoef q m := by unfold mcoef; exact MvPolynomial.coeff_sub _ _ _ _
theorem mcoef_neg (p : MvPolynomial ℕ K) (m : Mon) : mcoef (-p) m = -mcoef p m := by unfold mcoef; exact MvPolynomial.coeff_neg _ _ _
theorem mcoef_mon (a m : Mon) (c : K) : mcoef (mmon a c) m = if m = a then c else 0 := by
  unfold mcoef mmon; rw [coeff_monomial]; simp only [eq_comm]
theorem mcoef_zero (m : Mon) : mcoef (0 : MvPolynomial ℕ K) m = 0 := coeff_zero m
theorem mcoef_C (m : Mon) (c : K) : mcoef (C c : MvPolynomial ℕ K) m = if m = 0 then c else 0 := by
  unfold mcoef; rw [coeff_C]; simp only [eq_comm]
theorem mv_ext {p q : MvPolynomial ℕ K} (h : ∀ m, mcoef p m = mcoef q m) : p = q := MvPolynomial.ext p q h
theorem mvars_zero (n : Int) : mvars n (0 : MvPolynomial ℕ K) := fun m h => absurd (mcoef_zero m) h
theorem mvars_C (n : Int) (c : K) : mvars n (C c : MvPolynomial ℕ K) := fun m h => by
  rw [mcoef_C] at h; split_ifs at h with h0
  · subst h0; intro i _ _; simp [mexp]
  · exact absurd rfl h
theorem mvars_add {n : Int} {p q : MvPolynomial ℕ K} (hp : mvars n p) (hq : mvars n q) : mvars n (p + q) := fun m h => by
  rw [mcoef_add] at h
  by_cases h0 : mcoef p m = 0
  · exact hq m (by rwa [h0, zero_add] at h)
  · exact hp m h0
/-- an enumeration of the monomials of p -/
def mlisted (p : MvPolynomial ℕ K) (n : Int) (keys : Int → Mon) (at' : Mon → Int) : Prop :=
  (∀ i, 0 ≤ i ∧ i < n → mcoef p (keys i) ≠ 0) ∧ (∀ m, mcoef p m ≠ 0 → (0 ≤ at' m ∧ at' m < n ∧ keys (at' m) = m)) ∧ ∀ i, 0 ≤ i ∧ i < n → at' (keys i) = i
theorem mlisted_sum {M : Type*} [AddCommMonoid M] {p : MvPolynomial ℕ K} {n : Int} {keys : Int → Mon} {at' : Mon → Int} (h : mlisted p n keys at') (g : Mon → M) :
    isum n (fun i => g (keys i)) = ∑ m ∈ p.support, g m := by
  obtain ⟨h1, h2, h3⟩ := h
  unfold isum
  refine Finset.sum_bij (fun (i : ℕ) _ => keys (i : Int)) ?_ ?_ ?_ ?_
  · intro i hi; rw [Finset.mem_range] at hi; rw [mem_support_iff]; exact h1 i (by omega)
  · intro i hi j hj e; rw [Finset.mem_range] at hi hj
    have a := h3 i (by omega); have b := h3 j (by omega); rw [e, b] at a; exact_mod_cast a.symm
  · intro m hm; rw [mem_support_iff] at hm
    obtain ⟨a, b, c⟩ := h2 m hm
    exact ⟨(at' m).toNat, by rw [Finset.mem_range]; omega, by rw [show (((at' m).toNat : ℕ) : Int) = at' m by omega]; exact c⟩
  · intro i _; rfl
theorem mlisted_self {p : MvPolynomial ℕ K} {n : Int} {keys : Int → Mon} {at' : Mon → Int} (h : mlisted p n keys at') :
    isum n (fun i => mmon (keys i) (mcoef p (keys i))) = p := by
  rw [mlisted_sum h fun m => mmon m (mcoef p m)]; exact (as_sum p).symm
/-- evaluation in a commutative algebra -/
noncomputable def mval {A : Type} [CommRing A] [Algebra K A] (p : MvPolynomial ℕ K) (v : Int → A) : A := aeval (fun i : ℕ => v i) p
theorem mval_mon {A : Type} [CommRing A] [Algebra K A] {n : Int} {m : Mon} (hm : mlen n m) (c : K) (v : Int → A) :
    mval (mmon m c) v = algebraMap K A c * iprod n fun i => ipow (v i) (mexp m i) := by
  unfold mval mmon; rw [aeval_monomial]; congr 1
  unfold iprod ipow mexp
  rw [Finsupp.prod_of_support_subset (s := range n.toNat)]
  · apply Finset.prod_congr rfl; intro i _; simp
  · intro i hi; rw [Finsupp.mem_support_iff] at hi; rw [Finset.mem_range]; by_contra hc
    have := hm i (by omega) (by omega); unfold mexp at this; simp at this; exact hi this
  · intro i _; simp
theorem mval_listed {A : Type} [CommRing A] [Algebra K A] {p : MvPolynomial ℕ K} {n w : Int} {keys : Int → Mon} {at' : Mon → Int} (h : mlisted p n keys at') (hp : mvars w p) (v : Int → A) :
    isum n (fun i => algebraMap K A (mcoef p (keys i)) * iprod w fun j => ipow (v j) (mexp (keys i) j)) = mval p v := by
  conv_rhs => rw [← mlisted_self h]
  unfold isum mval; rw [map_sum]
  apply Finset.sum_congr rfl; intro i hi; rw [Finset.mem_range] at hi
  exact (mval_mon (hp _ (h.1 i (by omega))) _ v).symm
theorem mval_add {A : Type} [CommRing A] [Algebra K A] (p q : MvPolynomial ℕ K) (v : Int → A) : mval (p + q) v = mval p v + mval q v := map_add _ _ _
theorem mval_mul {A : Type} [CommRing A] [Algebra K A] (p q : MvPolynomial ℕ K) (v : Int → A) : mval (p * q) v = mval p v * mval q v := map_mul _ _ _
/-- the sum of the exponents -/
def mdeg (w : Int) (m : Mon) : Int := isum w fun i => mexp m i
theorem mdeg_eq {w : Int} {m : Mon} (h : mlen w m) : mdeg w m = ((m.sum fun _ e => e : ℕ) : Int) := by
  unfold mdeg isum mexp
  rw [Finsupp.sum_of_support_subset (s := range w.toNat)]
  · push_cast; apply Finset.sum_congr rfl; intro i _; simp
  · intro i hi; rw [Finsupp.mem_support_iff] at hi; rw [Finset.mem_range]; by_contra hc
    have := h i (by omega) (by omega); unfold mexp at this; simp at this; exact hi this
  · intro i _; rfl
noncomputable def mtotal (p : MvPolynomial ℕ K) : Int := (p.totalDegree : Int)
theorem mtotal_of_max {p : MvPolynomial ℕ K} {n w d : Int} {keys : Int → Mon} {at' : Mon → Int} (h : mlisted p n keys at') (hp : mvars w p)
    (hle : ∀ i, 0 ≤ i → i < n → mdeg w (keys i) ≤ d) (hd : d = 0 ∨ ∃ i, 0 ≤ i ∧ i < n ∧ mdeg w (keys i) = d) : d = mtotal p := by
  unfold mtotal
  apply le_antisymm
  · rcases hd with rfl | ⟨i, a, b, e⟩
    · omega
    · rw [← e, mdeg_eq (hp _ (h.1 i ⟨a, b⟩))]
      exact_mod_cast le_totalDegree (mem_support_iff.2 (h.1 i ⟨a, b⟩))
  · have h0 : 0 ≤ d := by
      rcases hd with rfl | ⟨i, a, b, e⟩
      · omega
      · rw [← e, mdeg_eq (hp _ (h.1 i ⟨a, b⟩))]; omega
    have : p.totalDegree ≤ d.toNat := by
      rw [totalDegree]
      apply Finset.sup_le
      intro m hm; rw [mem_support_iff] at hm
      obtain ⟨a, b, c⟩ := h.2.1 m hm
      have := hle _ a b
      rw [c, mdeg_eq (hp m hm)] at this; omega
    omega
@[simp] theorem monof_zeros (n : Int) : monof n (fun _ => 0) = 0 := monof_zero _ (fun _ _ _ => rfl)
theorem mv_eq_zero_iff (p : MvPolynomial ℕ K) : (∀ m, ¬ mcoef p m ≠ 0) ↔ p = 0 :=
  ⟨fun h => mv_ext fun m => by rw [mcoef_zero]; exact not_not.1 (h m), fun h m => by rw [h, mcoef_zero]; simp⟩
theorem mv_eq_zero_iff' (p : MvPolynomial ℕ K) : (∀ m, mcoef p m = 0) ↔ p = 0 :=
  ⟨fun h => mv_ext fun m => by rw [mcoef_zero]; exact h m, fun h m => by rw [h, mcoef_zero]⟩
theorem mv_eq_of {p q : MvPolynomial ℕ K} (hs : ∀ m, mcoef p m ≠ 0 ↔ mcoef q m ≠ 0) (hv : ∀ m, mcoef p m ≠ 0 → mcoef p m = mcoef q m) : p = q := by
  refine mv_ext fun m => ?_
  by_cases hm : mcoef p m ≠ 0
  · exact hv m hm
  · rw [not_not.1 hm, not_not.1 (mt (hs m).2 hm)]
syntax "mv_dict" : tactic
macro_rules
  | `(tactic| mv_dict) => `(tactic| first
    | exact mv_eq_zero_iff _
    | exact mv_eq_zero_iff' _
    | (intros; (try simp only [mcoef_add, mcoef_sub, mcoef_neg, mcoef_C, mcoef_zero, monof_zeros]); grind)
    | (intro m; (try simp only [mcoef_add, mcoef_sub, mcoef_neg, mcoef_C, mcoef_zero, monof_zeros]); (try split_ifs) <;> simp_all <;> grind))
/-- the product of two monomials -/
noncomputable def madd (a b : Mon) : Mon := a + b
theorem madd_key {w : Int} {a b : Mon} (ha : mlen w a) (hb : mlen w b) : monof w (fun i => mexp a i + mexp b i) = madd a b := monof_add ha hb _ fun _ _ _ => rfl
theorem mmon_mul (a b : Mon) (c d : K) : mmon a c * mmon b d = mmon (madd a b) (c * d) := by unfold mmon madd; rw [monomial_mul]
theorem mmon_mul_listed {q : MvPolynomial ℕ K} {n : Int} {keys : Int → Mon} {at' : Mon → Int} (h : mlisted q n keys at') (a : Mon) (c : K) :
    isum n (fun j => mmon (madd a (keys j)) (c * mcoef q (keys j))) = mmon a c * q := by
  conv_rhs => rw [← mlisted_self h]
  unfold isum; rw [Finset.mul_sum]; apply Finset.sum_congr rfl; intro i _; rw [mmon_mul]
theorem mul_listed {p : MvPolynomial ℕ K} {n : Int} {keys : Int → Mon} {at' : Mon → Int} (h : mlisted p n keys at') (q : MvPolynomial ℕ K) :
    isum n (fun i => mmon (keys i) (mcoef p (keys i)) * q) = p * q := by
  conv_rhs => rw [← mlisted_self h]
  unfold isum; rw [Finset.sum_mul]
theorem mcoef_mul_zero {p q : MvPolynomial ℕ K} (h : (∀ m, mcoef p m = 0) ∨ ∀ m, mcoef q m = 0) (m : Mon) : mcoef (p * q) m = 0 := by
  rcases h with h | h
  · rw [(mv_eq_zero_iff' p).1 h, zero_mul, mcoef_zero]
  · rw [(mv_eq_zero_iff' q).1 h, mul_zero, mcoef_zero]
syntax "mv_len" : tactic
macro_rules
  | `(tactic| mv_len) => `(tactic| first | assumption | (unfold mvars at *; grind))
syntax "mv_mul" : tactic
macro_rules
  | `(tactic| mv_mul) => `(tactic| first
    | (intros; exact add_nonneg (mexp_nonneg _ _) (mexp_nonneg _ _))
    | (intro m; rw [isum_zero, mcoef_zero])
    | (intro m; rw [isum_zero, add_zero]; solve_by_elim)
    | (intro m; exact mcoef_mul_zero (by assumption) m)
    | (intro m; rw [isum_succ _ (by assumption), ← mmon_mul_listed ⟨by assumption, by assumption, by assumption⟩]; solve_by_elim)
    | (rw [mul_listed ⟨by assumption, by assumption, by assumption⟩] at *; grind)
    | (simp (disch := mv_len) only [madd_key] at *; intro m; rw [isum_succ _ (by assumption)]; simp only [mcoef_add, mcoef_mon] at *; grind)
    | mv_dict)
theorem mval_listed_self {p : MvPolynomial ℕ K} {n w : Int} {keys : Int → Mon} {at' : Mon → Int} (h : mlisted p n keys at') (hp : mvars w p) (v : Int → K) :
    isum n (fun i => mcoef p (keys i) * iprod w fun j => ipow (v j) (mexp (keys i) j)) = mval p v := by
  rw [← mval_listed h hp v]; rfl
theorem mval_listed_poly {p : MvPolynomial ℕ K} {n w : Int} {keys : Int → Mon} {at' : Mon → Int} (h : mlisted p n keys at') (hp : mvars w p) (v : Int → Polynomial K) :
    isum n (fun i => Polynomial.C (mcoef p (keys i)) * iprod w fun j => ipow (v j) (mexp (keys i) j)) = mval p v := by
  rw [← mval_listed h hp v]; rfl
theorem mval_listed_mv {p : MvPolynomial ℕ K} {n w : Int} {keys : Int → Mon} {at' : Mon → Int} (h : mlisted p n keys at') (hp : mvars w p) (v : Int → MvPolynomial ℕ K) :
    isum n (fun i => MvPolynomial.C (mcoef p (keys i)) * iprod w fun j => ipow (v j) (mexp (keys i) j)) = mval p v := by
  rw [← mval_listed h hp v]; rfl
syntax "mv_call" : tactic
macro_rules
  | `(tactic| mv_call) => `(tactic| first
    | (intros; exact mexp_nonneg _ _)
    | exact mval_listed_self ⟨by assumption, by assumption, by assumption⟩ (by assumption) _
    | exact mval_listed_poly ⟨by assumption, by assumption, by assumption⟩ (by assumption) _
    | exact mval_listed_mv ⟨by assumption, by assumption, by assumption⟩ (by assumption) _
    | mv_dict)
