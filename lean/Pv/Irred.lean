/- Irreducible and primitive polynomials over the prime field. -/
import Pv.PolyDiv
import Pv.Conv
import Mathlib.FieldTheory.Finite.Extension
import Mathlib.GroupTheory.OrderOfElement
open Polynomial
open Classical
variable {K : Type} [Field K]
/-- x, k times raised to the p-th power, minus x has no factor in common with f -/
def nofactor (f : K[X]) (p k : Int) : Prop := IsCoprime f (ipow X (ipow p k) - X)
theorem ipow_one' {A : Type*} [Monoid A] (x : A) : ipow x 1 = x := by unfold ipow; simp
theorem frob_init {p : Int} (f : K[X]) : f ∣ X - ipow X (ipow p 0) := by
  rw [ipow_zero, ipow_one', sub_self]; exact dvd_zero _
theorem frob_step {p k : Int} {f t r : K[X]} (hp : 0 ≤ p) (hk : 0 ≤ k) (h : f ∣ t - ipow X (ipow p k)) (hr : f ∣ r - ipow t p) : f ∣ r - ipow X (ipow p (k + 1)) := by
  have e : ipow (X : K[X]) (ipow p (k + 1)) = ipow (ipow X (ipow p k)) p := by
    unfold ipow; rw [← pow_mul]; congr 1
    have : ((p ^ k.toNat).toNat : Int) = p ^ k.toNat := Int.toNat_of_nonneg (by positivity)
    rw [show (k + 1).toNat = k.toNat + 1 by omega, pow_succ]
    zify; rw [Int.toNat_of_nonneg (by positivity), Int.toNat_of_nonneg (by positivity), Int.toNat_of_nonneg hp]
  rw [e]
  have : f ∣ ipow t p - ipow (ipow X (ipow p k)) p := h.trans (sub_dvd_pow_sub_pow _ _ _)
  have := dvd_add hr this; rwa [sub_add_sub_cancel] at this
theorem gcd_nofactor {f t d : K[X]} {p k : Int} (hf : f ≠ 0) (ht : f ∣ t - ipow X (ipow p k)) (hd : ∀ c, c ∣ d ↔ c ∣ f ∧ c ∣ t - X) : plen d = 1 ↔ nofactor f p k := by
  have e : ∀ c, c ∣ d ↔ c ∣ f ∧ c ∣ ipow X (ipow p k) - X := by
    intro c; rw [hd]; constructor
    · rintro ⟨a, b⟩; refine ⟨a, ?_⟩
      have := dvd_sub b (a.trans ht); rwa [show t - X - (t - ipow X (ipow p k)) = ipow X (ipow p k) - X by ring] at this
    · rintro ⟨a, b⟩; refine ⟨a, ?_⟩
      have := dvd_add b (a.trans ht); rwa [show ipow X (ipow p k) - X + (t - ipow X (ipow p k)) = t - X by ring] at this
  have hd0 : d ≠ 0 := by
    rintro rfl; have := ((e 0).1 dvd_rfl).1; exact hf (zero_dvd_iff.1 this)
  have hu : plen d = 1 ↔ IsUnit d := by
    unfold plen; rw [if_neg hd0, Polynomial.isUnit_iff_degree_eq_zero, Polynomial.degree_eq_natDegree hd0]
    constructor
    · intro h; have : d.natDegree = 0 := by omega
      rw [this]; rfl
    · intro h; have : d.natDegree = 0 := by exact_mod_cast h
      omega
  rw [hu]; unfold nofactor
  constructor
  · intro h
    rw [← EuclideanDomain.gcd_isUnit_iff]
    apply isUnit_of_dvd_unit _ h
    rw [e]; exact ⟨EuclideanDomain.gcd_dvd_left _ _, EuclideanDomain.gcd_dvd_right _ _⟩
  · intro h
    have := (e d).1 dvd_rfl
    exact h.isUnit_of_dvd' this.1 this.2
theorem frob_nat {p : Int} (hs : fsize (0 : K) p) {k : Int} (hk : 0 ≤ k) : (ipow X (ipow p k) : K[X]) = X ^ (Nat.card K) ^ k.toNat := by
  have h0 : 0 ≤ p := by have := hs.2; omega
  unfold ipow; congr 1
  zify; rw [Int.toNat_of_nonneg (by positivity), ← hs.1]
theorem irreducible_test {p : Int} (hs : fsize (0 : K) p) {f : K[X]} (hf : 2 ≤ plen f) {m : Int} (hm : m = (plen f - 1) / 2) : Irreducible f ↔ ∀ j, 0 ≤ j ∧ j < m → nofactor f p (j + 1) := by
  have hf0 : f ≠ 0 := by rintro rfl; simp [plen] at hf
  have hl : plen f = f.natDegree + 1 := by unfold plen; rw [if_neg hf0]
  have : Finite K := Nat.finite_of_card_ne_zero (by have := hs.1; have := hs.2; omega)
  constructor
  · intro hi j hj
    unfold nofactor; rw [frob_nat hs (by omega)]
    rw [hi.coprime_iff_not_dvd]
    intro h
    have hd := hi.natDegree_dvd_of_dvd_X_pow_card_pow_sub_X h
    have := Nat.le_of_dvd (by omega) hd
    omega
  · intro h
    by_contra hn
    have hu : ¬ IsUnit f := by
      intro hu; have := Polynomial.natDegree_eq_zero_of_isUnit hu; omega
    obtain ⟨g, hg, hgd⟩ : ∃ g, Irreducible g ∧ g ∣ f ∧ 2 * g.natDegree ≤ f.natDegree := by
      obtain ⟨g, hg, a, ha⟩ := WfDvdMonoid.exists_irreducible_factor hu hf0
      have hga : g ≠ 0 := hg.ne_zero
      have ha0 : a ≠ 0 := by rintro rfl; simp at ha; exact hf0 ha
      have hdeg : f.natDegree = g.natDegree + a.natDegree := by rw [ha, natDegree_mul hga ha0]
      by_cases c : g.natDegree ≤ a.natDegree
      · exact ⟨g, hg, ⟨a, ha⟩, by omega⟩
      · have hau : ¬ IsUnit a := by
          intro u; apply hn; rw [ha]
          exact (irreducible_mul_isUnit u).2 hg
        obtain ⟨b, hb, c', hc⟩ := WfDvdMonoid.exists_irreducible_factor hau ha0
        have hc0 : c' ≠ 0 := by rintro rfl; simp at hc; exact ha0 hc
        have : a.natDegree = b.natDegree + c'.natDegree := by rw [hc, natDegree_mul hb.ne_zero hc0]
        exact ⟨b, hb, ⟨g * c', by rw [ha, hc]; ring⟩, by omega⟩
    have hpos := hg.natDegree_pos
    have hk := h (g.natDegree - 1) ⟨by omega, by omega⟩
    unfold nofactor at hk
    rw [frob_nat hs (by omega), show ((g.natDegree : Int) - 1 + 1).toNat = g.natDegree by omega] at hk
    exact hg.not_isUnit (hk.isUnit_of_dvd' hgd.1 (hg.natDegree_dvd_iff_dvd_X_pow_card_pow_sub_X.1 dvd_rfl))
/-- f is irreducible, x is invertible modulo f, and every residue but 0 is a power of x -/
def primitive (f : K[X]) : Prop := Irreducible f ∧ ¬ f ∣ X ∧ ∀ g : K[X], ¬ f ∣ g → ∃ i : ℕ, f ∣ g - X ^ i
theorem card_adjoin {p : Int} (hs : fsize (0 : K) p) {f : K[X]} (hf : f ≠ 0) : (Nat.card (AdjoinRoot f) : Int) = ipow p (plen f - 1) := by
  have hK : Finite K := Nat.finite_of_card_ne_zero (by have := hs.1; have := hs.2; omega)
  haveI : Module.Finite K (AdjoinRoot f) := (AdjoinRoot.powerBasis hf).finite
  have e := Module.natCard_eq_pow_finrank (K := K) (V := AdjoinRoot f)
  have hl : plen f = f.natDegree + 1 := by unfold plen; rw [if_neg hf]
  rw [e, PowerBasis.finrank (AdjoinRoot.powerBasis hf), AdjoinRoot.powerBasis_dim, hl]
  unfold ipow; push_cast; rw [hs.1]; congr 1; omega
theorem primitive_test {p : Int} (hs : fsize (0 : K) p) {f : K[X]} (hi : Irreducible f) (hx : ¬ f ∣ X) {N : Int} (hN : N = ipow p (plen f - 1) - 1) :
    primitive f ↔ ∀ q : Int, Prime q → 0 < q → q ∣ N → ¬ f ∣ ipow X (N / q) - 1 := by
  have hK : Finite K := Nat.finite_of_card_ne_zero (by have := hs.1; have := hs.2; omega)
  haveI : Fact (Irreducible f) := ⟨hi⟩
  have hc := card_adjoin hs hi.ne_zero
  have hfin : Finite (AdjoinRoot f) := by
    apply Nat.finite_of_card_ne_zero; intro h0; rw [h0] at hc
    unfold ipow at hc; have : 0 < p ^ (plen f - 1).toNat := by have := hs.2; positivity
    simp only [Nat.cast_zero] at hc; omega
  have hr : AdjoinRoot.root f ≠ 0 := by
    intro h; apply hx; rw [← AdjoinRoot.mk_eq_zero, AdjoinRoot.mk_X]; exact h
  let u : (AdjoinRoot f)ˣ := Units.mk0 _ hr
  have hu : Nat.card (AdjoinRoot f)ˣ = N.toNat := by
    have := Fintype.ofFinite (AdjoinRoot f)
    have h1 := Nat.card_units (AdjoinRoot f)
    omega
  have hNpos : 0 < N.toNat := by rw [← hu]; exact Nat.card_pos
  have key : ∀ n : ℕ, f ∣ X ^ n - 1 ↔ u ^ n = 1 := by
    intro n; rw [← AdjoinRoot.mk_eq_zero, map_sub, map_pow, map_one, AdjoinRoot.mk_X, sub_eq_zero, ← Units.val_inj]; simp [u]
  have hpn : u ^ N.toNat = 1 := by rw [← hu]; exact pow_card_eq_one'
  have gen : (∀ v : (AdjoinRoot f)ˣ, v ∈ Submonoid.powers u) ↔ orderOf u = N.toNat := by
    rw [← hu]; constructor
    · intro h; apply orderOf_eq_card_of_forall_mem_zpowers; intro v; rw [← mem_powers_iff_mem_zpowers]; exact h v
    · intro h v; rw [mem_powers_iff_mem_zpowers]
      have := Subgroup.eq_top_of_card_eq (Subgroup.zpowers u) (by rw [Nat.card_zpowers, h])
      rw [this]; trivial
  have prim : primitive f ↔ ∀ v : (AdjoinRoot f)ˣ, v ∈ Submonoid.powers u := by
    constructor
    · rintro ⟨_, _, h⟩ v
      obtain ⟨g, hg⟩ := AdjoinRoot.mk_surjective (v : AdjoinRoot f)
      have : ¬ f ∣ g := by rw [← AdjoinRoot.mk_eq_zero, hg]; exact v.ne_zero
      obtain ⟨i, h⟩ := h g this
      refine ⟨i, ?_⟩
      rw [← AdjoinRoot.mk_eq_zero, map_sub, map_pow, AdjoinRoot.mk_X, hg, sub_eq_zero] at h
      apply Units.ext; simp [u, h]
    · intro h; refine ⟨hi, hx, ?_⟩
      intro g hg
      rw [← AdjoinRoot.mk_eq_zero] at hg
      obtain ⟨i, h⟩ := h (Units.mk0 _ hg)
      refine ⟨i, ?_⟩
      have h2 := congrArg Units.val h
      rw [← AdjoinRoot.mk_eq_zero, map_sub, map_pow, AdjoinRoot.mk_X, sub_eq_zero]
      simpa [u] using h2.symm
  rw [prim, gen]
  constructor
  · intro h q hq h0 hd hdiv
    unfold ipow at hdiv; rw [key] at hdiv
    have h1 := orderOf_dvd_of_pow_eq_one hdiv
    rw [h] at h1
    have h2 : 1 < q := by
      rcases lt_or_eq_of_le (show 1 ≤ q by omega) with c | c
      · exact c
      · exfalso; rw [← c] at hq; exact hq.not_isUnit isUnit_one
    have hNp : 0 < N := by omega
    obtain ⟨c, hc⟩ := hd
    have hcq : N / q = c := by rw [hc]; exact Int.mul_ediv_cancel_left _ (by omega)
    have hcp : 0 < c := by by_contra hh; nlinarith
    rw [hcq] at h1
    have := Nat.le_of_dvd (by omega) h1
    have : N ≤ c := by omega
    nlinarith
  · intro h
    apply orderOf_eq_of_pow_and_pow_div_prime hNpos hpn
    intro q hq hd hdiv
    have hd' : (q : Int) ∣ N := by
      have : ((q : ℕ) : Int) ∣ ((N.toNat : ℕ) : Int) := by exact_mod_cast hd
      rwa [Int.toNat_of_nonneg (by omega)] at this
    apply h q (Nat.prime_iff_prime_int.1 hq) (by exact_mod_cast hq.pos) hd'
    unfold ipow; rw [key]
    rw [show (N / (q : Int)).toNat = N.toNat / q by
      have : N = (N.toNat : Int) := by omega
      rw [this]; norm_cast]
    exact hdiv
theorem prem_zero_iff (a : K[X]) (f : K[X]) : prem a f = 0 ↔ f ∣ a := by unfold prem; exact EuclideanDomain.mod_eq_zero
theorem prem_one_iff (a : K[X]) {f : K[X]} (h : 2 ≤ plen f) : prem a f = 1 ↔ f ∣ a - 1 := by
  have hf : f ≠ 0 := by rintro rfl; simp [plen] at h
  have h1 : prem 1 f = 1 := by
    unfold prem; rw [Polynomial.mod_eq_self_iff hf, degree_one, Polynomial.degree_eq_natDegree hf]
    unfold plen at h; rw [if_neg hf] at h; exact_mod_cast (by omega : 0 < f.natDegree)
  rw [← prem_zero_iff]; unfold prem at *; rw [Polynomial.sub_mod, h1, sub_eq_zero]
theorem pof_xlit : pof 2 (fun i : Int => if i = 0 then (0 : K) else 1) = X := by
  unfold pof isum; rw [show (2 : Int).toNat = 2 from rfl, Finset.sum_range_succ, Finset.sum_range_one]
  simp [monomial_one_one_eq_X]
theorem plen_ne {f : K[X]} (h : 2 ≤ plen f) : f ≠ 0 := by rintro rfl; simp [plen] at h
theorem irr_no {p k : Int} {f t r d : K[X]} (hs : fsize (0 : K) p) (hf : 2 ≤ plen f) (hd : ∀ c, c ∣ d ↔ c ∣ f ∧ c ∣ r - X) (hb : plen d ≠ 1) (hr : f ∣ r - ipow t p) (ht : f ∣ t - ipow X (ipow p k))
    (h0 : 0 ≤ k) (h1 : k < (plen f - 1) / 2) : ¬ Irreducible f := by
  have := hs.2
  have h2 := frob_step (by omega) h0 ht hr
  rw [Ne, gcd_nofactor (plen_ne hf) h2 hd] at hb
  intro hi; exact hb ((irreducible_test hs hf rfl).1 hi k ⟨h0, h1⟩)
theorem all_lt_succ {P : Int → Prop} {k : Int} (h : ∀ j, 0 ≤ j ∧ j < k → P j) (hk : P k) : ∀ j, 0 ≤ j ∧ j < k + 1 → P j := by
  intro j hj; by_cases c : j < k
  · exact h j ⟨hj.1, c⟩
  · obtain rfl : j = k := by omega
    exact hk
theorem irr_step {p k : Int} {f t r d : K[X]} (hs : fsize (0 : K) p) (hf : 2 ≤ plen f) (h0 : 0 ≤ k) (ht : f ∣ t - ipow X (ipow p k)) (hr : f ∣ r - ipow t p) (hd : ∀ c, c ∣ d ↔ c ∣ f ∧ c ∣ r - X) (hb : plen d ≤ 1)
    (h : ∀ j, 0 ≤ j ∧ j < k → nofactor f p (j + 1)) : ∀ j, 0 ≤ j ∧ j < k + 1 → nofactor f p (j + 1) := by
  have := hs.2
  have hd0 : plen d ≠ 0 := by
    intro h0; have : d = 0 := by
      by_contra hn; unfold plen at h0; rw [if_neg hn] at h0; omega
    subst this; exact plen_ne hf (zero_dvd_iff.1 ((hd 0).1 dvd_rfl).1)
  have : 0 ≤ plen d := by unfold plen; split_ifs <;> omega
  exact all_lt_succ h ((gcd_nofactor (plen_ne hf) (frob_step (by omega) h0 ht hr) hd).1 (by omega))
theorem gcd_swap {f r d : K[X]} (hd : ∀ c, c ∣ d ↔ c ∣ r - X ∧ c ∣ f) : ∀ c, c ∣ d ↔ c ∣ f ∧ c ∣ r - X := fun c => (hd c).trans and_comm
theorem gcd_minus {f r d : K[X]} (hd : ∀ c, c ∣ d ↔ c ∣ f ∧ c ∣ X - r) : ∀ c, c ∣ d ↔ c ∣ f ∧ c ∣ r - X := fun c => by rw [hd c, dvd_sub_comm]
/-- no prime factor in the list shows a smaller order -/
theorem primitive_all {p : Int} (hs : fsize (0 : K) p) {f : K[X]} (hf : 2 ≤ plen f) (hi : Irreducible f) (hx : ¬ f ∣ X) {N n : Int} {keys : Int → Int} {at' : Int → Int}
    (h1 : ∀ i, 0 ≤ i ∧ i < n → Prime (keys i) ∧ 0 < keys i ∧ keys i ∣ N) (h2 : ∀ q, (Prime q ∧ 0 < q ∧ q ∣ N) → 0 ≤ at' q ∧ at' q < n ∧ keys (at' q) = q) (hN : N = ipow p (plen f - 1) - 1) :
    primitive f ↔ ∀ i, 0 ≤ i ∧ i < n → prem (ipow X (Int.fdiv N (keys i))) f ≠ 1 := by
  rw [primitive_test hs hi hx hN]
  constructor
  · intro h i hi; obtain ⟨a, b, c⟩ := h1 i hi
    rw [Ne, prem_one_iff _ hf, Int.fdiv_eq_ediv_of_nonneg _ (by omega)]; exact h _ a b c
  · intro h q a b c; obtain ⟨x, y, z⟩ := h2 q ⟨a, b, c⟩
    have := h _ ⟨x, y⟩; rwa [z, Ne, prem_one_iff _ hf, Int.fdiv_eq_ediv_of_nonneg _ (by omega)] at this
theorem order_pos {p m : Int} (hs : fsize (0 : K) p) (hm : 1 ≤ m) : 2 ≤ ipow p m := by
  unfold ipow; have := hs.2
  have h : p ^ 1 ≤ p ^ m.toNat := pow_le_pow_right₀ (by omega) (by omega)
  rw [pow_one] at h; omega
theorem monic_plen {n : Int} {f : Int → K} {m : Int} (hn : n = m + 1) (h0 : 0 ≤ m) (h : f m = 1) : plen (pof n f) = m + 1 ∧ pc (pof n f) m = 1 := by
  have hc : pc (pof n f) m = 1 := by rw [pc_pof _ _ h0, if_pos (by omega), h]
  refine ⟨?_, hc⟩
  have h1 : plen (pof n f) ≤ n := plen_pof_le (by omega) _
  have : m < plen (pof n f) := by
    by_contra hh; rw [pc_of_ge (by omega)] at hc; exact zero_ne_one hc
  omega
syntax "irr_gcd" : tactic
macro_rules
  | `(tactic| irr_gcd) => `(tactic| first | assumption | exact gcd_swap (by assumption) | exact gcd_minus (by assumption))
theorem prim_no {p : Int} (hs : fsize (0 : K) p) {f : K[X]} (hf : 2 ≤ plen f) (hi : Irreducible f) (hx : ¬ f ∣ X) {N n k : Int} {keys : Int → Int} {at' : Int → Int}
    (h1 : ∀ i, 0 ≤ i ∧ i < n → Prime (keys i) ∧ 0 < keys i ∧ keys i ∣ N) (h2 : ∀ q, (Prime q ∧ 0 < q ∧ q ∣ N) → 0 ≤ at' q ∧ at' q < n ∧ keys (at' q) = q)
    (h : prem (ipow X (Int.fdiv N (keys k))) f = 1) (h0 : 0 ≤ k) (h3 : k < n) (hN : N = ipow p (plen f - 1) - 1) : ¬ primitive f :=
  fun hp => (primitive_all hs hf hi hx h1 h2 hN).1 hp k ⟨h0, h3⟩ h
syntax "irr_auto" : tactic
macro_rules
  | `(tactic| irr_auto) => `(tactic| (
      (try simp only [pof_xlit, Polynomial.C_1] at *)
      first
      | with_reducible exact frob_init _
      | (have := (‹fsize _ _›).2; omega)
      | (with_reducible refine irr_no (by assumption) (by assumption) (by irr_gcd) ?_ (by assumption) (by assumption) (by assumption) ?_ <;> omega)
      | (with_reducible refine irr_step (by assumption) (by assumption) (by assumption) (by assumption) (by assumption) (by irr_gcd) ?_ (by assumption); omega)
      | (with_reducible refine frob_step ?_ (by assumption) (by assumption) (by assumption); omega)
      | (refine (irreducible_test (by assumption) (by assumption) ?_).2 (by assumption); omega)
      | (rw [(monic_plen (m := _) rfl (by omega) (by simp)).1]; omega)
      | exact (monic_plen rfl (by omega) (by simp)).1
      | exact (monic_plen rfl (by omega) (by simp)).2))
syntax "prim_auto" : tactic
macro_rules
  | `(tactic| prim_auto) => `(tactic| (
      (try simp only [pof_xlit, Polynomial.C_1] at *)
      first
      | (intro h; exact absurd h.1 (by assumption))
      | (intro h; exact h.2.1 ((prem_zero_iff _ _).1 (by assumption)))
      | exact absurd (by assumption) (plen_ne (by assumption))
      | (have := order_pos (by assumption) (by assumption); omega)
      | (apply Int.fdiv_nonneg <;> grind)
      | (with_reducible exact all_lt_succ (by assumption) (by assumption))
      | (refine (primitive_all (by assumption) (by assumption) (by assumption) ?_ (by assumption) (by assumption) ?_).2 (by assumption)
         · rw [← prem_zero_iff]; assumption
         · congr 2; omega)
      | (refine Iff.symm (primitive_all (by assumption) (by assumption) (by assumption) ?_ (by assumption) (by assumption) ?_)
         · rw [← prem_zero_iff]; assumption
         · congr 2; omega)
      | (refine primitive_all (by assumption) (by assumption) (by assumption) ?_ (by assumption) (by assumption) ?_
         · rw [← prem_zero_iff]; assumption
         · congr 2; omega)
      | (with_reducible refine prim_no (by assumption) (by assumption) (by assumption) ?_ (by assumption) (by assumption) (by assumption) (by assumption) (by assumption) ?_
         · rw [← prem_zero_iff]; assumption
         · congr 2; omega)
      | grind))
