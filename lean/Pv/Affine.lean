import Pv.Interp
/-! Enumeration of affine spaces. -/
open Polynomial
/-- entry k of the j-th tuple of itertools.product over d copies of n values -/
def adigit (n d j k : Int) : Int := (j / ipow n (d + -1 + -k)) % n
def enumerates {α : Type} (n : Int) (e : Int → α) : Prop := ∀ x, ∃! i, (0 ≤ i ∧ i < n) ∧ e i = x
theorem adigit_range {n d j k : Int} (hn : 0 < n) : 0 ≤ adigit n d j k ∧ adigit n d j k < n :=
  ⟨Int.emod_nonneg _ (by omega), Int.emod_lt_of_pos _ hn⟩
theorem adigit_last {n d j : Int} : adigit n (d + 1) j d = j % n := by
  unfold adigit; rw [show d + 1 + -1 + -d = 0 by ring, ipow_zero, Int.ediv_one]
theorem adigit_init {n d j k : Int} (hn : 0 < n) (hk : k < d) : adigit n (d + 1) j k = adigit n d (j / n) k := by
  unfold adigit
  rw [show d + 1 + -1 + -k = (d + -1 + -k) + 1 by ring, ipow_succ' _ (by omega), Int.ediv_ediv_of_nonneg (by omega)]
theorem digits_nat {n : Int} (hn : 0 < n) (d : ℕ) : ∀ c : Int → Int, (∀ k, 0 ≤ k ∧ k < (d : Int) → 0 ≤ c k ∧ c k < n) →
    ∃! j, (0 ≤ j ∧ j < ipow n d) ∧ ∀ k, 0 ≤ k ∧ k < (d : Int) → adigit n d j k = c k := by
  induction d with
  | zero =>
    intro c hc
    refine ⟨0, ⟨⟨le_refl _, by simp⟩, fun k hk => by exfalso; push_cast at hk; omega⟩, ?_⟩
    rintro y ⟨⟨h0, h1⟩, _⟩
    simp at h1; omega
  | succ d ih =>
    intro c hc
    push_cast at hc ⊢
    obtain ⟨j, ⟨⟨j0, j1⟩, hj⟩, hu⟩ := ih c fun k hk => hc k ⟨hk.1, by omega⟩
    obtain ⟨c0, c1⟩ := hc d ⟨by omega, by omega⟩
    have hp : ipow n ((d : Int) + 1) = n * ipow n (d : Int) := ipow_succ' _ (by omega)
    have hq : (j * n + c d) / n = j := by rw [Int.add_comm, Int.add_mul_ediv_right _ _ (by omega), Int.ediv_eq_zero_of_lt c0 c1, zero_add]
    refine ⟨j * n + c d, ⟨⟨by nlinarith, by rw [hp]; nlinarith⟩, ?_⟩, ?_⟩
    · intro k hk
      rcases lt_or_eq_of_le (show k ≤ d by omega) with e | rfl
      · rw [adigit_init hn e, hq]; exact hj k ⟨hk.1, e⟩
      · rw [adigit_last, Int.add_comm, Int.add_mul_emod_self_right, Int.emod_eq_of_lt c0 c1]
    · rintro y ⟨⟨y0, y1⟩, hy⟩
      have e1 : y / n = j := by
        apply hu
        refine ⟨⟨Int.ediv_nonneg y0 (by omega), Int.ediv_lt_of_lt_mul hn (by rw [hp] at y1; linarith)⟩, fun k hk => ?_⟩
        rw [← adigit_init hn hk.2]; exact hy k ⟨hk.1, by omega⟩
      have e2 : y % n = c d := by rw [← adigit_last (d := (d : Int))]; exact hy d ⟨by omega, by omega⟩
      have := Int.emod_add_mul_ediv y n
      rw [e1, e2] at this; linarith
theorem digits {n d : Int} (hn : 0 < n) (hd : 0 ≤ d) (c : Int → Int) (hc : ∀ k, 0 ≤ k ∧ k < d → 0 ≤ c k ∧ c k < n) :
    ∃! j, (0 ≤ j ∧ j < ipow n d) ∧ ∀ k, 0 ≤ k ∧ k < d → adigit n d j k = c k := by
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le hd
  exact digits_nat hn m c hc
/-- every choice of scalars belongs to exactly one position of the enumeration -/
theorem assignments {α : Type} {n d : Int} {e : Int → α} (hd : 0 ≤ d) (h : enumerates n e) (s : Int → α) :
    ∃! j, (0 ≤ j ∧ j < ipow n d) ∧ ∀ k, 0 ≤ k ∧ k < d → e (adigit n d j k) = s k := by
  choose c hc hu using h
  have hn : 0 < n := by have := (hc (s 0)).1; omega
  obtain ⟨j, ⟨hj, hd1⟩, huj⟩ := digits hn hd (fun k => c (s k)) fun k _ => (hc (s k)).1
  refine ⟨j, ⟨hj, fun k hk => by rw [hd1 k hk]; exact (hc _).2⟩, ?_⟩
  rintro y ⟨hy, h2⟩
  refine huj y ⟨hy, fun k hk => ?_⟩
  exact hu (s k) _ ⟨adigit_range hn, h2 k hk⟩
variable {K : Type} [Field K]
theorem vanish_iff (xs : Int → K) (n : Int) (x : K) : eval x (vanish n xs) = 0 ↔ ∃ i, (0 ≤ i ∧ i < n) ∧ xs i = x := by
  constructor
  · intro h
    unfold vanish iprod at h
    rw [eval_prod, Finset.prod_eq_zero_iff] at h
    obtain ⟨i, hi, e⟩ := h
    rw [Finset.mem_range] at hi
    refine ⟨i, ⟨by omega, by omega⟩, ?_⟩
    simp at e
    exact (sub_eq_zero.1 e).symm
  · rintro ⟨i, ⟨h0, h1⟩, rfl⟩
    exact vanish_root xs h0 h1
theorem vanish_monic (xs : Int → K) (n : Int) : (vanish n xs).Monic := by
  unfold vanish iprod
  exact monic_prod_of_monic _ _ fun i _ => monic_X_sub_C _
/-- 0, 1, ..., p-1 are all residues modulo p, each once -/
theorem enum_residues (p : ℕ) [NeZero p] : enumerates (p : Int) (fun i => (i : ZMod p)) := by
  intro x
  have hp : 0 < (p : Int) := by have := NeZero.pos p; omega
  refine ⟨x.val, ⟨⟨by positivity, by exact_mod_cast ZMod.val_lt x⟩, by simp⟩, ?_⟩
  rintro y ⟨⟨h0, h1⟩, h⟩
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le h0
  simp at h
  subst h
  rw [ZMod.val_natCast, Nat.mod_eq_of_lt (by omega)]
theorem vanish_congr {n : Int} {f g : Int → K} (h : ∀ i, 0 ≤ i ∧ i < n → f i = g i) : vanish n f = vanish n g := by
  unfold vanish iprod
  refine Finset.prod_congr rfl fun i hi => ?_
  rw [Finset.mem_range] at hi
  beta_reduce
  rw [h i ⟨by omega, by omega⟩]
