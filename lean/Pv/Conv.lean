import Pv.Mvp
import Mathlib.FieldTheory.Finite.Basic
/-! Conversions between univariate, multivariate and functional forms. -/
open MvPolynomial
open Finset (range)
variable {K : Type} [Field K]
/-- the exponents of the i-th variable -/
theorem mval_C {A : Type} [CommRing A] [Algebra K A] (c : K) (v : Int → A) : mval (C c) v = algebraMap K A c := by unfold mval; exact aeval_C _ _
theorem mval_C_self (c : K) (v : Int → K) : mval (C c) v = c := mval_C c v
theorem mval_one {A : Type} [CommRing A] [Algebra K A] (v : Int → A) : mval (1 : MvPolynomial ℕ K) v = 1 := map_one _
theorem mval_zero {A : Type} [CommRing A] [Algebra K A] (v : Int → A) : mval (0 : MvPolynomial ℕ K) v = 0 := map_zero _
theorem mval_sub {A : Type} [CommRing A] [Algebra K A] (p q : MvPolynomial ℕ K) (v : Int → A) : mval (p - q) v = mval p v - mval q v := map_sub _ _ _
theorem mval_neg {A : Type} [CommRing A] [Algebra K A] (p : MvPolynomial ℕ K) (v : Int → A) : mval (-p) v = -mval p v := map_neg _ _
theorem mval_ipow {A : Type} [CommRing A] [Algebra K A] (p : MvPolynomial ℕ K) (e : Int) (v : Int → A) : mval (ipow p e) v = ipow (mval p v) e := map_pow _ _ _
/-- the monomial 0 -/
theorem mval_const {A : Type} [CommRing A] [Algebra K A] {n : Int} {f : Int → Int} (h : ∀ i, 0 ≤ i → i < n → f i = 0) (c : K) (v : Int → A) :
    mval (mmon (monof n f) c) v = algebraMap K A c := by
  rw [monof_zero f h]; unfold mmon; exact mval_C c v
theorem iprod_single {A : Type} [CommRing A] {n i : Int} (h0 : 0 ≤ i) (h1 : i < n) (g : Int → A) (h : ∀ j, 0 ≤ j → j < n → j ≠ i → g j = 1) : iprod n g = g i := by
  unfold iprod
  rw [Finset.prod_eq_single i.toNat]
  · rw [show ((i.toNat : ℕ) : Int) = i by omega]
  · intro b hb hne; rw [Finset.mem_range] at hb; exact h b (by omega) (by omega) (by omega)
  · intro hn; exact absurd (Finset.mem_range.2 (by omega)) hn
theorem mval_var {A : Type} [CommRing A] [Algebra K A] {n i : Int} (h0 : 0 ≤ i) (h1 : i < n) {f : Int → Int} (hi : f i = 1) (hf : ∀ j, 0 ≤ j → j < n → j ≠ i → f j = 0) (v : Int → A) :
    mval (mmon (monof n f) (1 : K)) v = v i := by
  rw [mval_mon (mlen_monof n f), map_one, one_mul]
  rw [iprod_single h0 h1]
  · rw [mexp_monof n f h0 h1 (by omega), hi]; simp [ipow]
  · intro j a b c
    rw [mexp_monof n f a b (by rw [hf j a b c]), hf j a b c]; simp [ipow]
/-- the i-th variable -/
noncomputable def xvar (i : Int) : MvPolynomial ℕ K := X i.toNat
theorem mval_xvar {A : Type} [CommRing A] [Algebra K A] {i : Int} (h : 0 ≤ i) (v : Int → A) : mval (xvar i : MvPolynomial ℕ K) v = v i := by
  unfold mval xvar; rw [aeval_X, show ((i.toNat : ℕ) : Int) = i by omega]
theorem xvar_of {n i : Int} (h0 : 0 ≤ i) (h1 : i < n) {f : Int → Int} (hi : f i = 1) (hf : ∀ j, 0 ≤ j → j < n → j ≠ i → f j = 0) :
    mmon (monof n f) (1 : K) = xvar i := by
  have e : monof n f = Finsupp.single i.toNat 1 := by
    ext j
    unfold monof; simp only [Finsupp.onFinset_apply]
    by_cases hj : j = i.toNat
    · subst hj; rw [Finsupp.single_eq_same, if_pos (by omega), show ((i.toNat : ℕ) : Int) = i by omega, hi]; rfl
    · rw [Finsupp.single_eq_of_ne hj]
      split_ifs with hc
      · rw [hf j (by omega) (by omega) (by omega)]; rfl
      · rfl
  rw [e]; unfold mmon xvar; rfl
/-- substitution, then evaluation -/
theorem mval_mval {A : Type} [CommRing A] [Algebra K A] (p : MvPolynomial ℕ K) (u : Int → MvPolynomial ℕ K) (v : Int → A) :
    mval (mval p u) v = mval p fun i => mval (u i) v := by
  unfold mval
  have := comp_aeval_apply (R := K) (f := fun i : ℕ => u i) (aeval (fun i : ℕ => v i) : MvPolynomial ℕ K →ₐ[K] A) p
  exact this
/-- only the variables that occur matter -/
theorem mval_congr {A : Type} [CommRing A] [Algebra K A] {n : Int} {p : MvPolynomial ℕ K} (hp : mvars n p) {u v : Int → A} (h : ∀ i, 0 ≤ i → i < n → u i = v i) : mval p u = mval p v := by
  unfold mval
  rw [p.as_sum, map_sum, map_sum]
  apply Finset.sum_congr rfl
  intro m hm; rw [mem_support_iff] at hm
  rw [aeval_monomial, aeval_monomial]; congr 1
  apply Finsupp.prod_congr; intro i hi; rw [Finsupp.mem_support_iff] at hi
  have hi2 : (i : Int) < n := by
    by_contra hc; exact hi (by have := hp m hm i (by omega) (by omega); unfold mexp at this; simpa using this)
  rw [h i (by omega) hi2]
/-- a polynomial at the variables, then at values -/
theorem mval_vars {A : Type} [CommRing A] [Algebra K A] {n : Int} {p : MvPolynomial ℕ K} (hp : mvars n p) {u : Int → MvPolynomial ℕ K} (hu : ∀ i, 0 ≤ i → i < n → u i = xvar i) (v : Int → A) :
    mval (mval p u) v = mval p v := by
  rw [mval_mval]; exact mval_congr hp fun i h0 h1 => by rw [hu i h0 h1, mval_xvar h0]
theorem xvar_fold {n i : Int} {f : Int → Int} (h : 0 ≤ i ∧ i < n ∧ f i = 1 ∧ ∀ j, 0 ≤ j → j < n → j ≠ i → f j = 0) :
    mmon (monof n f) (1 : K) = xvar i := xvar_of h.1 h.2.1 h.2.2.1 h.2.2.2
syntax "mv_conv" : tactic
macro_rules
  | `(tactic| mv_conv) => `(tactic| first
    | (intros; split_ifs <;> first | omega | grind)
    | (intro i hi; split_ifs <;> first | (apply_assumption; omega) | (apply xvar_fold; grind))
    | grind)
/-- the value at two states, one after the other -/
noncomputable def mpair (p : MvPolynomial ℕ K) (n : Int) (s t : Int → K) : K := mval p fun i => if i < n then s i else t (i - n)
theorem mpair_eq {p q : MvPolynomial ℕ K} {n m : Int} {s t : Int → K} (h : p = q) (e : m = n) : mval p (fun i => if i < m then s i else t (i + -m)) = mpair q n s t := by subst h; subst e; rfl
theorem mpair_sub (p q : MvPolynomial ℕ K) (n : Int) (s t : Int → K) : mpair (p - q) n s t = mpair p n s t - mpair q n s t := mval_sub _ _ _
theorem mpair_add (p q : MvPolynomial ℕ K) (n : Int) (s t : Int → K) : mpair (p + q) n s t = mpair p n s t + mpair q n s t := mval_add _ _ _
theorem mpair_neg (p : MvPolynomial ℕ K) (n : Int) (s t : Int → K) : mpair (-p) n s t = -mpair p n s t := mval_neg _ _
theorem mpair_mval (p : MvPolynomial ℕ K) (u : Int → MvPolynomial ℕ K) (n : Int) (s t : Int → K) : mpair (mval p u) n s t = mval p fun i => mpair (u i) n s t := mval_mval _ _ _
theorem mpair_lo {i n : Int} (h0 : 0 ≤ i) (h : i < n) (s t : Int → K) : mpair (xvar i) n s t = s i := by unfold mpair; rw [mval_xvar h0, if_pos h]
theorem mpair_hi {i n : Int} (h0 : 0 ≤ n) (h : n ≤ i) (s t : Int → K) : mpair (xvar i) n s t = t (i - n) := by unfold mpair; rw [mval_xvar (by omega), if_neg (by omega)]
attribute [irreducible] mpair
theorem mpair_lo' {x : MvPolynomial ℕ K} {i j n : Int} (h : x = xvar j) (e : j = i) (h0 : 0 ≤ i) (h1 : i < n) (s t : Int → K) : mpair x n s t = s i := by rw [h, e, mpair_lo h0 h1]
theorem mpair_hi' {x : MvPolynomial ℕ K} {i j n : Int} (h : x = xvar j) (e : j = n + i) (h0 : 0 ≤ n) (h1 : 0 ≤ i) (s t : Int → K) : mpair x n s t = t i := by
  rw [h, mpair_hi h0 (by omega), e]; congr 1; omega
theorem flag_step {P : Int → Prop} {k : Int} {f a : Prop} (h0 : 0 ≤ k) (h : f ↔ ∀ i, 0 ≤ i ∧ i < k → P i) (ha : a ↔ P k) : (f ∧ a) ↔ ∀ i, 0 ≤ i ∧ i < k + 1 → P i := by
  rw [h, ha]; constructor
  · rintro ⟨h1, h2⟩ i ⟨a, b⟩
    by_cases c : i < k
    · exact h1 i ⟨a, c⟩
    · obtain rfl : i = k := by omega
      exact h2
  · intro h; exact ⟨fun i hi => h i ⟨hi.1, by omega⟩, h k ⟨h0, by omega⟩⟩
theorem flag_step' {P : Int → Prop} {k : Int} {f a : Prop} (h0 : 0 ≤ k) (h : f ↔ ∀ i, 0 ≤ i ∧ i < k → P i) (ha : a ↔ P k) : (a ∧ f) ↔ ∀ i, 0 ≤ i ∧ i < k + 1 → P i := by
  rw [and_comm]; exact flag_step h0 h ha
theorem flags_step {P Q : Int → Prop} {k n : Int} {f : Prop} (e : n = k) (h : ∀ i, 0 ≤ i ∧ i < k → (Q i ↔ P i)) (hf : f ↔ P k) :
    ∀ i, 0 ≤ i ∧ i < k + 1 → ((i < n → Q i) ∧ (n ≤ i → f) ↔ P i) := by
  intro i hi; subst e
  by_cases c : i < n
  · have := h i ⟨hi.1, c⟩; constructor
    · intro x; exact this.1 (x.1 c)
    · intro x; exact ⟨fun _ => this.2 x, fun d => by omega⟩
  · obtain rfl : i = n := by omega
    constructor
    · intro x; exact hf.1 (x.2 le_rfl)
    · intro x; exact ⟨fun d => by omega, fun _ => hf.2 x⟩
theorem all_neg {P Q : Int → Prop} {k n : Int} (h : ∀ i, 0 ≤ i ∧ i < n → (Q i ↔ P i)) (hb : ¬ Q k) (h0 : 0 ≤ k) (h1 : k < n) : ¬ ∀ i, 0 ≤ i ∧ i < n → P i :=
  fun x => hb ((h k ⟨h0, h1⟩).2 (x k ⟨h0, h1⟩))
theorem all_step {P Q : Int → Prop} {k n : Int} (h : ∀ i, 0 ≤ i ∧ i < n → (Q i ↔ P i)) (hb : Q k) (h0 : 0 ≤ k) (h1 : k < n) (hi : ∀ i, 0 ≤ i ∧ i < k → P i) :
    ∀ i, 0 ≤ i ∧ i < k + 1 → P i := by
  intro i a
  by_cases c : i < k
  · exact hi i ⟨a.1, c⟩
  · obtain rfl : i = k := by omega
    exact (h i ⟨h0, h1⟩).1 hb
theorem eq_iff_of {A : Type*} {x y c : A} (h : x = y) : x = c ↔ y = c := by rw [h]
/-- the value of a polynomial in constraints: `$s` are the values of the first variables -/
syntax "mv_constraint" term:max : tactic
macro_rules
  | `(tactic| mv_constraint $s) => `(tactic| (
      simp only [mpair_sub, mpair_add, mpair_neg, mpair_mval]
      rw [mval_congr (v := $s) (by apply_assumption; omega) (by
        intro j a b; apply mpair_lo'
        · apply_assumption; (first | omega | (split_ifs <;> omega))
        · (first | omega | (split_ifs <;> omega))
        · omega
        · omega)]
      (try rw [neg_add_eq_sub])
      (try rw [← sub_eq_add_neg])
      congr 1
      apply mpair_hi'
      · apply_assumption; (first | omega | (split_ifs <;> omega))
      · (first | omega | (split_ifs <;> omega))
      · omega
      · omega))
syntax "mv_circuit" : tactic
macro_rules
  | `(tactic| mv_circuit) => `(tactic| first
    | exact flags_step (by assumption) (by assumption) (by assumption)
    | exact all_neg (by assumption) (by assumption) (by assumption) (by assumption)
    | exact all_step (by assumption) (by assumption) (by assumption) (by assumption) (by assumption)
    | (first | apply flag_step | apply flag_step'
       · omega
       · assumption
       · exact eq_iff_of (by first | (apply_assumption <;> omega) | exact mpair_eq rfl (by apply_assumption; omega)))
    | (constructor
       · intro h i hi j hj
         refine Eq.trans (Eq.symm ?_) (h i ?_ j ?_)
         · first | (apply_assumption <;> omega) | exact mpair_eq rfl (by apply_assumption; omega)
         · omega
         · first | omega | grind
       · intro h i hi j hj
         refine Eq.trans ?_ (h i ?_ j ?_)
         · first | (apply_assumption <;> first | omega | grind) | exact mpair_eq rfl (by apply_assumption; omega)
         · omega
         · first | omega | grind)
    | (intros; split_ifs <;> first
        | (apply_assumption <;> omega)
        | (apply mpair_eq
           · congr 1; omega
           · apply_assumption; omega)
        | grind)
    | grind)
theorem vanish_iff_of {x a b : K} (h : x = a - b) : x = 0 ↔ a = b := by rw [h, sub_eq_zero]
/-! the delta polynomial of a point -/
/-- the field has q elements -/
def fsize (_ : K) (q : Int) : Prop := (Nat.card K : Int) = q ∧ 1 < q
theorem fsize_pow {q : Int} (h : fsize (0 : K) q) {a : K} (ha : a ≠ 0) : ipow a (q - 1) = 1 := by
  obtain ⟨h1, h2⟩ := h
  have : Finite K := Nat.finite_of_card_ne_zero (by omega)
  have : Fintype K := Fintype.ofFinite K
  unfold ipow
  have e : (q - 1).toNat = Fintype.card K - 1 := by rw [← Nat.card_eq_fintype_card]; omega
  rw [e]; exact FiniteField.pow_card_sub_one_eq_one a ha
theorem fsize_pow_zero {q : Int} (h : fsize (0 : K) q) : ipow (0 : K) (q - 1) = 0 := by
  unfold ipow; rw [zero_pow]; have := h.2; omega
noncomputable def mdelta (n q : Int) (y : Int → K) : MvPolynomial ℕ K := iprod n fun i => 1 - ipow (xvar i - C (y i)) (q - 1)
theorem mdelta_zero (q : Int) (y : Int → K) : mdelta 0 q y = 1 := by unfold mdelta iprod; simp
theorem mdelta_succ {n : Int} (h : 0 ≤ n) (q : Int) (y : Int → K) : mdelta (n + 1) q y = mdelta n q y * (1 - ipow (xvar n - C (y n)) (q - 1)) := by
  unfold mdelta; rw [iprod_succ _ h]
theorem mval_mdelta (n q : Int) (y v : Int → K) : mval (mdelta n q y) v = iprod n fun i => 1 - ipow (v i - y i) (q - 1) := by
  unfold mdelta iprod mval; rw [map_prod]
  apply Finset.prod_congr rfl; intro i _
  have := mval_xvar (K := K) (i := (i : Int)) (by omega) v
  unfold mval at this
  rw [map_sub, map_one]; unfold ipow; rw [map_pow, map_sub, this, aeval_C]; rfl
theorem mdelta_self {n q : Int} (hq : fsize (0 : K) q) {y v : Int → K} (h : ∀ i, 0 ≤ i → i < n → v i = y i) : mval (mdelta n q y) v = 1 := by
  rw [mval_mdelta]; unfold iprod
  apply Finset.prod_eq_one; intro i hi; rw [Finset.mem_range] at hi
  show 1 - ipow (v (i : Int) - y (i : Int)) (q - 1) = 1
  rw [h i (by omega) (by omega), sub_self, fsize_pow_zero hq, sub_zero]
theorem mdelta_other {n q : Int} (hq : fsize (0 : K) q) {y v : Int → K} (h : ∃ i, 0 ≤ i ∧ i < n ∧ v i ≠ y i) : mval (mdelta n q y) v = 0 := by
  obtain ⟨i, h0, h1, hne⟩ := h
  rw [mval_mdelta]; unfold iprod
  apply Finset.prod_eq_zero (i := i.toNat) (Finset.mem_range.2 (by omega))
  show 1 - ipow (v ((i.toNat : ℕ) : Int) - y ((i.toNat : ℕ) : Int)) (q - 1) = 0
  rw [show ((i.toNat : ℕ) : Int) = i by omega, fsize_pow hq (sub_ne_zero.2 hne), sub_self]
theorem mmon_zero_key {n : Int} {f : Int → Int} (h : ∀ i, 0 ≤ i → i < n → f i = 0) (c : K) : mmon (monof n f) c = C c := by
  rw [monof_zero f h]; rfl
theorem delta_term {n i : Int} {f g : Int → Int} (hf : ∀ j, 0 ≤ j → j < n → f j = 0) (hg : 0 ≤ i ∧ i < n ∧ g i = 1 ∧ ∀ j, 0 ≤ j → j < n → j ≠ i → g j = 0) (c : K) :
    mmon (monof n f) (-c) + mmon (monof n g) 1 = xvar i - C c := by
  rw [mmon_zero_key hf, xvar_fold hg, map_neg]; ring
theorem monof_ne {n i : Int} {f g : Int → Int} (h0 : 0 ≤ i) (h1 : i < n) (hf : 0 ≤ f i) (hg : 0 ≤ g i) (h : f i ≠ g i) : monof n f ≠ monof n g := by
  intro e; have := congrArg (fun m => mexp m i) e; simp only [mexp_monof n _ h0 h1 hf, mexp_monof n _ h0 h1 hg] at this; exact h this
/-! every function on a prime field is a polynomial -/
theorem prime_all {p : Int} (hp : Prime p) (h1 : 1 < p) (hs : fsize (0 : K) p) (hc : ((p : Int) : K) = 0) (x : K) : ∃ i : Int, 0 ≤ i ∧ i < p ∧ (i : K) = x := by
  obtain ⟨hs1, hs2⟩ := hs
  have : Finite K := Nat.finite_of_card_ne_zero (by omega)
  obtain ⟨q, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : (0 : Int) ≤ p)
  have hq : Nat.Prime q := Nat.prime_iff_prime_int.2 hp
  haveI : Fact q.Prime := ⟨hq⟩
  haveI : CharP K q := by
    apply (CharP.charP_iff_prime_eq_zero hq).2
    exact_mod_cast hc
  have hinj : Function.Injective (ZMod.castHom (dvd_refl q) K) := RingHom.injective _
  have hcard : Nat.card (ZMod q) = Nat.card K := by rw [Nat.card_zmod]; exact_mod_cast hs1.symm
  haveI : Fintype K := Fintype.ofFinite K
  have hbij : Function.Bijective (ZMod.castHom (dvd_refl q) K) := by
    rw [Fintype.bijective_iff_injective_and_card]
    exact ⟨hinj, by rw [← Nat.card_eq_fintype_card, ← Nat.card_eq_fintype_card]; exact hcard⟩
  obtain ⟨z, hz⟩ := hbij.2 x
  refine ⟨(z.val : Int), by omega, by exact_mod_cast z.val_lt, ?_⟩
  rw [← hz]; simp
theorem interp_all {p : Int} (hp : Prime p) (h1 : 1 < p) (hs : fsize (0 : K) p) (hc : ((p : Int) : K) = 0) (f : K → K) (x : K) :
    isum p (fun j => f ((j : Int) : K) * mval (mdelta 1 p (fun _ => ((j : Int) : K))) (fun _ => x)) = f x := by
  obtain ⟨i, h0, hi, rfl⟩ := prime_all hp h1 hs hc x
  have inj : ∀ j : Int, 0 ≤ j → j < p → (j : K) = (i : K) → j = i := by
    intro j a b e
    obtain ⟨q, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : (0 : Int) ≤ p)
    have hq : Nat.Prime q := Nat.prime_iff_prime_int.2 hp
    haveI : CharP K q := by
      apply (CharP.charP_iff_prime_eq_zero hq).2
      exact_mod_cast hc
    have := (CharP.intCast_eq_intCast K q).1 e
    have h2 := Int.emod_emod_of_dvd; unfold Int.ModEq at this
    rwa [Int.emod_eq_of_lt a b, Int.emod_eq_of_lt h0 hi] at this
  unfold isum
  rw [Finset.sum_eq_single i.toNat]
  · show f (((i.toNat : ℕ) : Int) : K) * mval (mdelta 1 p (fun _ => (((i.toNat : ℕ) : Int) : K))) (fun _ => (i : K)) = f (i : K)
    rw [show ((i.toNat : ℕ) : Int) = i by omega, mdelta_self hs (fun _ _ _ => rfl), mul_one]
  · intro b hb hne; rw [Finset.mem_range] at hb
    show f (((b : ℕ) : Int) : K) * mval (mdelta 1 p (fun _ => (((b : ℕ) : Int) : K))) (fun _ => (i : K)) = 0
    rw [mdelta_other hs ⟨0, le_rfl, by omega, fun e => hne (by have := inj b (by omega) (by omega) e.symm; omega)⟩, mul_zero]
  · intro hn; exact absurd (Finset.mem_range.2 (by omega)) hn
/-! projection: exponents without the i-th -/
noncomputable def mdrop (w i : Int) (m : Mon) : Mon := monof (w - 1) fun t => if t < i then mexp m t else mexp m (t + 1)
noncomputable def minsert (w i d : Int) (m : Mon) : Mon := monof w fun t => if t < i then mexp m t else if t = i then d else mexp m (t - 1)
noncomputable def ucoef (r : Polynomial (MvPolynomial ℕ K)) (d : Int) : MvPolynomial ℕ K := r.coeff d.toNat
noncomputable def mproj (w i : Int) (m : Mon) (c : K) : Polynomial (MvPolynomial ℕ K) := Polynomial.C (mmon (mdrop w i m) c) * ipow Polynomial.X (mexp m i)
theorem minsert_drop {w i : Int} {m : Mon} (hm : mlen w m) (h0 : 0 ≤ i) (h1 : i < w) : minsert w i (mexp m i) (mdrop w i m) = m := by
  apply monof_self hm; intro t a b
  unfold mdrop
  split_ifs with c d
  · rw [mexp_monof _ _ a (by omega) (by rw [if_pos c]; exact mexp_nonneg _ _), if_pos c]
  · rw [d]
  · rw [mexp_monof _ _ (by omega) (by omega) (by rw [if_neg (by omega)]; exact mexp_nonneg _ _), if_neg (by omega)]; congr 1; omega
theorem minsert_at {w i d : Int} (m : Mon) (h0 : 0 ≤ i) (h1 : i < w) (hd : 0 ≤ d) : mexp (minsert w i d m) i = d := by
  unfold minsert; rw [mexp_monof _ _ h0 h1] <;> simp [hd]
theorem mdrop_insert {w i d : Int} {m : Mon} (hm : mlen (w - 1) m) (h0 : 0 ≤ i) (h1 : i < w) (hd : 0 ≤ d) : mdrop w i (minsert w i d m) = m := by
  apply monof_self hm; intro t a b
  have pos : ∀ t : Int, 0 ≤ (if t < i then mexp m t else if t = i then d else mexp m (t - 1)) := by
    intro t; split_ifs <;> first | exact mexp_nonneg _ _ | exact hd
  unfold minsert
  split_ifs with c
  · rw [mexp_monof _ _ a (by omega) (pos _), if_pos c]
  · rw [mexp_monof w _ (i := t + 1) (by omega) (by omega) (pos (t + 1)), if_neg (by omega), if_neg (by omega)]; congr 1; omega
theorem ucoef_mproj (w i d : Int) (hd : 0 ≤ d) (m : Mon) (c : K) : ucoef (mproj w i m c) d = if mexp m i = d then mmon (mdrop w i m) c else 0 := by
  unfold ucoef mproj ipow; rw [Polynomial.coeff_C_mul_X_pow]
  have := mexp_nonneg m i
  by_cases h : mexp m i = d
  · rw [if_pos h, if_pos (by omega)]
  · rw [if_neg h, if_neg (by omega)]
theorem ucoef_sum {n : Int} (f : Int → Polynomial (MvPolynomial ℕ K)) (d : Int) : ucoef (isum n f) d = isum n fun j => ucoef (f j) d := by
  unfold ucoef isum; rw [Polynomial.finset_sum_coeff]
theorem mcoef_sum {n : Int} (f : Int → MvPolynomial ℕ K) (m : Mon) : mcoef (isum n f) m = isum n fun j => mcoef (f j) m := by
  unfold mcoef isum; rw [coeff_sum]
theorem project_coef {p : MvPolynomial ℕ K} {n w i : Int} {keys : Int → Mon} {at' : Mon → Int} (h : mlisted p n keys at') (hp : mvars w p) (h0 : 0 ≤ i) (h1 : i < w)
    {d : Int} (hd : 0 ≤ d) {m : Mon} (hm : mlen (w - 1) m) :
    mcoef (ucoef (isum n fun j => mproj w i (keys j) (mcoef p (keys j))) d) m = mcoef p (minsert w i d m) := by
  rw [ucoef_sum, mcoef_sum, mlisted_sum h fun s => mcoef (ucoef (mproj w i s (mcoef p s)) d) m]
  have key : ∀ s ∈ p.support, mcoef (ucoef (mproj w i s (mcoef p s)) d) m = if s = minsert w i d m then mcoef p (minsert w i d m) else 0 := by
    intro s hs; rw [mem_support_iff] at hs
    have hl := hp s hs
    rw [ucoef_mproj _ _ _ hd]
    by_cases e : s = minsert w i d m
    · rw [if_pos e, if_pos (by rw [e]; exact minsert_at m h0 h1 hd), mcoef_mon, e, mdrop_insert hm h0 h1 hd, if_pos rfl]
    · rw [if_neg e]
      split_ifs with c
      · rw [mcoef_mon, if_neg]; intro x
        exact e (by rw [← minsert_drop hl h0 h1, c, x])
      · exact mcoef_zero m
  rw [Finset.sum_congr rfl key, Finset.sum_ite_eq']
  split_ifs with c
  · rfl
  · rw [mem_support_iff, not_not] at c; exact c.symm
theorem project_vars {p : MvPolynomial ℕ K} {n w i : Int} {keys : Int → Mon} {at' : Mon → Int} (h : mlisted p n keys at') {d : Int} (hd : 0 ≤ d) :
    mvars (w - 1) (ucoef (isum n fun j => mproj w i (keys j) (mcoef p (keys j))) d) := by
  intro m hm
  rw [ucoef_sum, mcoef_sum, mlisted_sum h fun s => mcoef (ucoef (mproj w i s (mcoef p s)) d) m] at hm
  obtain ⟨s, _, hs⟩ := Finset.exists_ne_zero_of_sum_ne_zero hm
  rw [ucoef_mproj _ _ _ hd] at hs
  split_ifs at hs
  · rw [mcoef_mon] at hs
    split_ifs at hs with c
    · rw [c]; exact mlen_monof _ _
    · exact absurd rfl hs
  · exact absurd (mcoef_zero m) hs
/-! the steps of the loops -/
theorem lift_step {q : MvPolynomial ℕ K} {m : Mon} {v S : Int → K} {n k : Int} {y c : K} (h0 : 0 ≤ k) (hS : S k = c * ipow y k) (hy : v n = y) (hm : mmon m (1 : K) = xvar n) (hn : 0 ≤ n) (hq : mval q v = isum k fun i => S i) :
    mval (q + C c * ipow (mmon m 1) k) v = isum (k + 1) fun i => S i := by
  rw [isum_succ _ h0, ← hq, hS, mval_add, mval_mul, mval_ipow, mval_C_self, hm, mval_xvar hn, hy]
theorem lift_step' {q : MvPolynomial ℕ K} {m : Mon} {v S : Int → K} {n k : Int} {y c : K} (h0 : 0 ≤ k) (hS : S k = c * ipow y k) (hy : v n = y) (hm : mmon m (1 : K) = xvar n) (hn : 0 ≤ n) (hq : mval q v = isum k fun i => S i) :
    mval (q + ipow (mmon m 1) k * C c) v = isum (k + 1) fun i => S i := by
  rw [mul_comm (ipow _ _)]; exact lift_step h0 hS hy hm hn hq
theorem lift_step'' {q : MvPolynomial ℕ K} {m : Mon} {v S : Int → K} {n k : Int} {y c : K} (h0 : 0 ≤ k) (hS : S k = c * ipow y k) (hy : v n = y) (hm : mmon m (1 : K) = xvar n) (hn : 0 ≤ n) (hq : mval q v = isum k fun i => S i) :
    mval (C c * ipow (mmon m 1) k + q) v = isum (k + 1) fun i => S i := by
  rw [add_comm]; exact lift_step h0 hS hy hm hn hq
syntax "mv_lift" : tactic
macro_rules
  | `(tactic| mv_lift) => `(tactic| first
    | (rw [eval_self]; assumption)
    | ((first | with_reducible apply lift_step | with_reducible apply lift_step' | with_reducible apply lift_step'')
       · assumption
       · rfl
       · rfl
       · apply xvar_fold; refine ⟨by assumption, by assumption, ?_, ?_⟩
         · first | omega | grind
         · first | (intros; split_ifs <;> first | rfl | omega) | grind
       · assumption
       · assumption))
theorem delta_step {b t : MvPolynomial ℕ K} {k e q : Int} {y : Int → K} (hb : b = mdelta k q y) (h0 : 0 ≤ k) (ht : t = xvar k - C (y k)) (he : e = q - 1) :
    b * (C 1 - ipow t e) = mdelta (k + 1) q y := by
  rw [mdelta_succ h0, hb, ht, he, C_1]
theorem delta_step' {b t : MvPolynomial ℕ K} {k e q : Int} {y : Int → K} (hb : b = mdelta k q y) (h0 : 0 ≤ k) (ht : t = xvar k - C (y k)) (he : e = q - 1) :
    (C 1 - ipow t e) * b = mdelta (k + 1) q y := by
  rw [mul_comm]; exact delta_step hb h0 ht he
theorem delta_step1 {b t : MvPolynomial ℕ K} {k e q : Int} {y : Int → K} (hb : b = mdelta k q y) (h0 : 0 ≤ k) (ht : t = xvar k - C (y k)) (he : e = q - 1) :
    b * (1 - ipow t e) = mdelta (k + 1) q y := by rw [← C_1]; exact delta_step hb h0 ht he
theorem delta_term' {n i : Int} {f g : Int → Int} {c d : K} (hf : ∀ j, 0 ≤ j → j < n → f j = 0) (hg : 0 ≤ i ∧ i < n ∧ g i = 1 ∧ ∀ j, 0 ≤ j → j < n → j ≠ i → g j = 0) (hd : d = -c) :
    mmon (monof n f) d + mmon (monof n g) 1 = xvar i - C c := by rw [hd]; exact delta_term hf hg c
theorem delta_term'' {n i : Int} {f g : Int → Int} {c d : K} (hf : ∀ j, 0 ≤ j → j < n → f j = 0) (hg : 0 ≤ i ∧ i < n ∧ g i = 1 ∧ ∀ j, 0 ≤ j → j < n → j ≠ i → g j = 0) (hd : d = -c) :
    mmon (monof n g) 1 + mmon (monof n f) d = xvar i - C c := by rw [add_comm]; exact delta_term' hf hg hd
syntax "mv_delta_term" : tactic
macro_rules
  | `(tactic| mv_delta_term) => `(tactic| (
      (first | with_reducible apply delta_term' | with_reducible apply delta_term'')
      · first | (intros; rfl) | grind
      · refine ⟨by omega, by omega, ?_, ?_⟩
        · first | omega | grind
        · first | (intros; split_ifs <;> first | rfl | omega) | grind
      · first | rfl | ring))
syntax "mv_delta" : tactic
macro_rules
  | `(tactic| mv_delta) => `(tactic| first
    | (have := (‹fsize _ _›).2; omega)
    | (refine monof_ne (by assumption) (by assumption) ?_ ?_ ?_ <;> grind)
    | (refine Eq.trans ?_ (mdelta_zero _ _).symm; first | rfl | exact C_1 | simp)
    | ((first | with_reducible apply delta_step | with_reducible apply delta_step' | with_reducible apply delta_step1)
       · assumption
       · assumption
       · mv_delta_term
       · omega)
    | (subst_vars; exact mdelta_self (by assumption) (fun _ _ _ => rfl))
    | (intro h; subst_vars; exact mdelta_other (by assumption) h)
    | (subst_vars; first | rfl | assumption))
theorem project_coef' {p : MvPolynomial ℕ K} {r : Polynomial (MvPolynomial ℕ K)} {n w w' i : Int} {keys : Int → Mon} {at' : Mon → Int} (hr : r = isum n fun j => mproj w i (keys j) (mcoef p (keys j))) (h : mlisted p n keys at') (hp : mvars w p) (h0 : 0 ≤ i) (h1 : i < w)
    (hw : w' = w - 1) {d : Int} (hd : 0 ≤ d) {m : Mon} (hm : mlen w' m) : mcoef (ucoef r d) m = mcoef p (minsert w i d m) := by
  subst hw; rw [hr]; exact project_coef h hp h0 h1 hd hm
theorem project_vars' {p : MvPolynomial ℕ K} {r : Polynomial (MvPolynomial ℕ K)} {n w w' i : Int} {keys : Int → Mon} {at' : Mon → Int} (hr : r = isum n fun j => mproj w i (keys j) (mcoef p (keys j))) (h : mlisted p n keys at')
    (hw : w' = w - 1) {d : Int} (hd : 0 ≤ d) : mvars w' (ucoef r d) := by
  subst hw; rw [hr]; exact project_vars h hd
theorem mproj_of {w w' i : Int} {m : Mon} {f : Int → Int} {c : K} (hw : w' = w - 1) (h0 : 0 ≤ i) (h1 : i < w) (hf : ∀ t, 0 ≤ t → t < w' → f t = if t < i then mexp m t else mexp m (t + 1)) :
    Polynomial.C (mmon (monof w' f) c) * ipow Polynomial.X (mexp m i) = mproj w i m c := by
  have e : monof w' f = mdrop w i m := by
    unfold mdrop; subst hw
    apply monof_self (mlen_monof _ _); intro t a b
    rw [mexp_monof _ _ a b (by split_ifs <;> exact mexp_nonneg _ _), hf t a b]
  unfold mproj; rw [e]
theorem project_step {r t : Polynomial (MvPolynomial ℕ K)} {k : Int} {f : Int → Polynomial (MvPolynomial ℕ K)} (h0 : 0 ≤ k) (hr : r = isum k f) (ht : t = f k) : r + t = isum (k + 1) f := by
  rw [isum_succ _ h0, hr, ht]
theorem project_step' {r t : Polynomial (MvPolynomial ℕ K)} {k : Int} {f : Int → Polynomial (MvPolynomial ℕ K)} (h0 : 0 ≤ k) (hr : r = isum k f) (ht : t = f k) : t + r = isum (k + 1) f := by
  rw [add_comm]; exact project_step h0 hr ht
syntax "mv_project" : tactic
macro_rules
  | `(tactic| mv_project) => `(tactic| first
    | (intro d hd m hm; exact project_coef' (by assumption) ⟨by assumption, by assumption, by assumption⟩ (by assumption) (by assumption) (by assumption) (by omega) hd.1 hm)
    | (intro d hd; exact project_vars' (by assumption) ⟨by assumption, by assumption, by assumption⟩ (by omega) hd.1)
    | exact mexp_nonneg _ _
    | (intro j hj; (try split_ifs) <;> exact mexp_nonneg _ _)
    | ((first | with_reducible apply project_step | with_reducible apply project_step')
       · assumption
       · assumption
       · first
         | (with_reducible apply mproj_of
            · omega
            · assumption
            · assumption
            · intros; split_ifs <;> first | rfl | omega | (congr 1; omega))
         | (rw [mul_comm (ipow _ _) (Polynomial.C _)]; apply mproj_of
            · omega
            · assumption
            · assumption
            · intros; split_ifs <;> first | rfl | omega | (congr 1; omega))))
theorem interp_step {q d : MvPolynomial ℕ K} {v : Int → K} {k : Int} {c : K} {S : Int → K} (h0 : 0 ≤ k) (hq : mval q v = isum k S) (hS : S k = c * mval d v) : mval (q + C c * d) v = isum (k + 1) S := by
  rw [isum_succ _ h0, mval_add, mval_mul, mval_C_self, hq, hS]
theorem interp_step' {q d : MvPolynomial ℕ K} {v : Int → K} {k : Int} {c : K} {S : Int → K} (h0 : 0 ≤ k) (hq : mval q v = isum k S) (hS : S k = c * mval d v) : mval (q + d * C c) v = isum (k + 1) S := by
  rw [mul_comm d]; exact interp_step h0 hq hS
theorem interp_step'' {q d : MvPolynomial ℕ K} {v : Int → K} {k : Int} {c : K} {S : Int → K} (h0 : 0 ≤ k) (hq : mval q v = isum k S) (hS : S k = c * mval d v) : mval (C c * d + q) v = isum (k + 1) S := by
  rw [add_comm]; exact interp_step h0 hq hS
syntax "mv_interp" : tactic
macro_rules
  | `(tactic| mv_interp) => `(tactic| first
    | (refine Eq.trans (by assumption) (interp_all (by assumption) (by assumption) (by assumption) (by assumption) _ _))
    | ((first | with_reducible apply interp_step | with_reducible apply interp_step' | with_reducible apply interp_step'')
       · assumption
       · assumption
       · rfl)
    | mv_conv)
