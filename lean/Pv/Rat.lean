import Pv.Prime
import Mathlib.Data.Int.ModEq
/-! Fractions modulo a prime. -/
/-- in lowest terms -/
def lowest (m n : Int) : Prop := ∀ c, c ∣ m → c ∣ n → c ∣ 1
/-- m/n and a/b are the same element of Z/p (n and b nonzero) -/
def samefrac (p m n a b : Int) : Prop := m * b % p = a * n % p
/-- dividing by the gcd -/
theorem rat_make {p num den g : Int} (h0 : 0 ≤ num) (h1 : num < p) (d0 : 0 < den) (d1 : den < p) (hg0 : 0 ≤ g)
    (hg : ∀ c, c ∣ g ↔ c ∣ num ∧ c ∣ den) :
    g ≠ 0 ∧ 0 ≤ num / g ∧ num / g < p ∧ 0 < den / g ∧ den / g < p ∧ lowest (num / g) (den / g) ∧ num / g * den = num * (den / g) := by
  have hd := (hg g).1 dvd_rfl
  obtain ⟨⟨a, ha⟩, ⟨b, hb⟩⟩ := hd
  have g0 : g ≠ 0 := by rintro rfl; omega
  have gp : 0 < g := by omega
  have e1 : num / g = a := by rw [ha, Int.mul_ediv_cancel_left _ g0]
  have e2 : den / g = b := by rw [hb, Int.mul_ediv_cancel_left _ g0]
  rw [e1, e2]
  refine ⟨g0, ?_, ?_, ?_, ?_, ?_, ?_⟩
  · by_contra h; nlinarith
  · nlinarith
  · by_contra h; nlinarith
  · nlinarith
  · intro c ca cb
    have := (hg (g * c)).2 ⟨ha ▸ mul_dvd_mul_left g ca, hb ▸ mul_dvd_mul_left g cb⟩
    obtain ⟨k, hk⟩ := this
    exact ⟨k, by have : g * 1 = g * (c * k) := by linarith [mul_assoc g c k]
                 exact mul_left_cancel₀ g0 this⟩
  · rw [ha, hb]; ring
theorem emod_pos {p a : Int} (hp : 1 < p) (h : ¬ p ∣ a) : 0 < a % p ∧ a % p < p := by
  have := Int.emod_nonneg a (show p ≠ 0 by omega)
  have := Int.emod_lt_of_pos a (show 0 < p by omega)
  have : a % p ≠ 0 := fun e => h (Int.dvd_of_emod_eq_zero e)
  omega
theorem not_dvd_range {p a : Int} (h0 : 0 < a) (h1 : a < p) : ¬ p ∣ a := fun h => by
  have := Int.le_of_dvd h0 h; omega
theorem not_dvd_mul {p a b : Int} (hp : Prime p) (ha : ¬ p ∣ a) (hb : ¬ p ∣ b) : ¬ p ∣ a * b := fun h =>
  (hp.dvd_or_dvd h).elim ha hb
theorem samefrac_iff {p m n a b : Int} : samefrac p m n a b ↔ m * b ≡ a * n [ZMOD p] := Iff.rfl
/-- building a fraction from any numerator and a denominator not divisible by p -/
theorem rat_new {p a b g : Int} (hp : 1 < p) (hb : ¬ p ∣ b) (hg0 : 0 ≤ g) (hg : ∀ c, c ∣ g ↔ c ∣ a % p ∧ c ∣ b % p) :
    g ≠ 0 ∧ 0 ≤ a % p / g ∧ a % p / g < p ∧ 0 < b % p / g ∧ b % p / g < p ∧ lowest (a % p / g) (b % p / g) ∧ samefrac p (a % p / g) (b % p / g) a b := by
  have d := emod_pos hp hb
  obtain ⟨h1, h2, h3, h4, h5, h6, h7⟩ := rat_make (Int.emod_nonneg a (by omega)) (Int.emod_lt_of_pos a (by omega)) d.1 d.2 hg0 hg
  refine ⟨h1, h2, h3, h4, h5, h6, ?_⟩
  rw [samefrac_iff]
  calc a % p / g * b ≡ a % p / g * (b % p) [ZMOD p] := (Int.mod_modEq b p).symm.mul_left _
    _ = a % p * (b % p / g) := h7
    _ ≡ a * (b % p / g) [ZMOD p] := (Int.mod_modEq a p).mul_right _
/-- equal fractions are the same element -/
theorem samefrac_trans {p m n a b c d : Int} (hp : Prime p) (hb : ¬ p ∣ b) (h : samefrac p m n a b) (h' : samefrac p a b c d) : samefrac p m n c d := by
  rw [samefrac_iff] at *
  have : p ∣ b * (m * d - c * n) := by
    have h1 := Int.ModEq.dvd (h.mul_right d)
    have h2 := Int.ModEq.dvd (h'.mul_right n)
    have := dvd_neg.2 (dvd_add h1 h2)
    rwa [show -(a * n * d - m * b * d + (c * b * n - a * d * n)) = b * (m * d - c * n) by ring] at this
  exact (Int.modEq_iff_dvd.2 ((hp.dvd_or_dvd this).resolve_left hb)).symm
theorem samefrac_symm {p m n a b : Int} (h : samefrac p m n a b) : samefrac p a b m n := Eq.symm h
theorem not_dvd_of_frac {p m n a b : Int} (hp : Prime p) (h : samefrac p m n a b) (hm : ¬ p ∣ m) (hb : ¬ p ∣ b) : ¬ p ∣ a := fun ha => by
  rw [samefrac_iff] at h
  have : p ∣ m * b := by
    have := h.dvd
    have h2 : p ∣ a * n := ha.mul_right n
    have := dvd_sub h2 this
    rwa [show a * n - (a * n - m * b) = m * b by ring] at this
  exact (hp.dvd_or_dvd this).elim hm hb

/-- what a freshly built fraction satisfies -/
def fracOK (p m n a b : Int) : Prop := (0 ≤ m ∧ m < p) ∧ (0 < n ∧ n < p) ∧ lowest m n ∧ samefrac p m n a b
theorem rat_one {p a b g : Int} (hp : 1 < p) (hg : ∀ c, c ∣ g ↔ c ∣ a % p ∧ c ∣ b % p) (hg0 : 0 ≤ a % p ∧ 0 ≤ b % p → 0 ≤ g) (hb : ¬ p ∣ b) :
    g ≠ 0 ∧ fracOK p (if g = 0 then a % p else Int.fdiv (a % p) g) (if g = 0 then b % p else Int.fdiv (b % p) g) a b := by
  have g0 : 0 ≤ g := hg0 ⟨Int.emod_nonneg _ (by omega), Int.emod_nonneg _ (by omega)⟩
  have h := rat_new hp hb g0 hg
  rw [if_neg h.1, if_neg h.1, Int.fdiv_eq_ediv_of_nonneg _ g0, Int.fdiv_eq_ediv_of_nonneg _ g0]
  exact ⟨h.1, ⟨h.2.1, h.2.2.1⟩, ⟨h.2.2.2.1, h.2.2.2.2.1⟩, h.2.2.2.2.2⟩
theorem rat_ne {p a b g : Int} (hp : 1 < p) (hg : ∀ c, c ∣ g ↔ c ∣ a % p ∧ c ∣ b % p) (hg0 : 0 ≤ a % p ∧ 0 ≤ b % p → 0 ≤ g) (hb : ¬ p ∣ b) : g ≠ 0 :=
  (rat_one hp hg hg0 hb).1
theorem frac_nd {p m n a b : Int} (h : fracOK p m n a b) : ¬ p ∣ n := not_dvd_range h.2.1.1 h.2.1.2
theorem rat_mid {p a b g : Int} (hp : 1 < p) (hg : ∀ c, c ∣ g ↔ c ∣ a % p ∧ c ∣ b % p) (hg0 : 0 ≤ a % p ∧ 0 ≤ b % p → 0 ≤ g) (hb : ¬ p ∣ b) :
    ¬ p ∣ Int.fdiv (b % p) g ∧ samefrac p (Int.fdiv (a % p) g) (Int.fdiv (b % p) g) a b := by
  have h := rat_one hp hg hg0 hb
  rw [if_neg h.1, if_neg h.1] at h
  exact ⟨frac_nd h.2, h.2.2.2.2⟩
theorem rat_one_nd {p a b g : Int} (hp : 1 < p) (hg : ∀ c, c ∣ g ↔ c ∣ a % p ∧ c ∣ b % p) (hg0 : 0 ≤ a % p ∧ 0 ≤ b % p → 0 ≤ g) (hb : ¬ p ∣ b) :
    ¬ p ∣ (if g = 0 then b % p else Int.fdiv (b % p) g) := frac_nd (rat_one hp hg hg0 hb).2
theorem rat_mid_nd {p a b g : Int} (hp : 1 < p) (hg : ∀ c, c ∣ g ↔ c ∣ a % p ∧ c ∣ b % p) (hg0 : 0 ≤ a % p ∧ 0 ≤ b % p → 0 ≤ g) (hb : ¬ p ∣ b) :
    ¬ p ∣ Int.fdiv (b % p) g := (rat_mid hp hg hg0 hb).1
theorem rat_one2 {p a b g : Int} (hp : 1 < p) (hg : ∀ c, c ∣ g ↔ c ∣ a % p ∧ c ∣ b % p) (hg0 : 0 ≤ a % p ∧ 0 ≤ b % p → 0 ≤ g) (hb : ¬ p ∣ b) :
    fracOK p (if g = 0 then a % p else Int.fdiv (a % p) g) (if g = 0 then b % p else Int.fdiv (b % p) g) a b := (rat_one hp hg hg0 hb).2
theorem rat_one_frac {p a b g : Int} (hp : 1 < p) (hg : ∀ c, c ∣ g ↔ c ∣ a % p ∧ c ∣ b % p) (hg0 : 0 ≤ a % p ∧ 0 ≤ b % p → 0 ≤ g) (hb : ¬ p ∣ b) :
    samefrac p (if g = 0 then a % p else Int.fdiv (a % p) g) (if g = 0 then b % p else Int.fdiv (b % p) g) a b := (rat_one hp hg hg0 hb).2.2.2.2
theorem rat_two {p a b g g' : Int} (hq : Prime p) (hp : 1 < p)
    (hg' : ∀ c, c ∣ g' ↔ c ∣ Int.fdiv (a % p) g % p ∧ c ∣ Int.fdiv (b % p) g % p) (hg0' : 0 ≤ Int.fdiv (a % p) g % p ∧ 0 ≤ Int.fdiv (b % p) g % p → 0 ≤ g')
    (hg : ∀ c, c ∣ g ↔ c ∣ a % p ∧ c ∣ b % p) (hg0 : 0 ≤ a % p ∧ 0 ≤ b % p → 0 ≤ g) (hb : ¬ p ∣ b) :
    fracOK p (if g' = 0 then Int.fdiv (a % p) g % p else Int.fdiv (Int.fdiv (a % p) g % p) g') (if g' = 0 then Int.fdiv (b % p) g % p else Int.fdiv (Int.fdiv (b % p) g % p) g') a b := by
  have h := rat_mid hp hg hg0 hb
  have h' := rat_one hp hg' hg0' h.1
  exact ⟨h'.2.1, h'.2.2.1, h'.2.2.2.1, samefrac_trans hq h.1 h'.2.2.2.2 h.2⟩
theorem samefrac_mul {p m n k l k' l' : Int} (h : samefrac p k' l' l k) : samefrac p (m * k') (n * l') (m * l) (n * k) := by
  rw [samefrac_iff] at *
  have := h.mul_left (m * n)
  rwa [show m * n * (k' * k) = m * k' * (n * k) by ring, show m * n * (l * l') = m * l * (n * l') by ring] at this
theorem samefrac_mul' {p m n k l k' l' : Int} (h : samefrac p k' l' l k) : samefrac p (k' * m) (l' * n) (m * l) (n * k) := by
  rw [mul_comm k', mul_comm l']; exact samefrac_mul h
theorem frac_then {p m n a b c d : Int} (hp : Prime p) (h : fracOK p m n a b) (hb : ¬ p ∣ b) (h' : samefrac p a b c d) : fracOK p m n c d :=
  ⟨h.1, h.2.1, h.2.2.1, samefrac_trans hp hb h.2.2.2 h'⟩
theorem not_dvd_one {p : Int} (hp : 1 < p) : ¬ p ∣ 1 := fun h => by
  have := Int.le_of_dvd (by norm_num) h; omega

/-- the denominator is not divisible by p -/
syntax "rat_nd" : tactic
macro_rules
  | `(tactic| rat_nd) => `(tactic| first
    | assumption
    | exact not_dvd_one (by assumption)
    | exact not_dvd_range (by first | assumption | omega) (by first | assumption | omega)
    | ((with_reducible refine not_dvd_mul ?_ ?_ ?_) <;> [assumption; rat_nd; rat_nd])
    | ((with_reducible eapply rat_one_nd) <;> [assumption; assumption; assumption; rat_nd])
    | ((with_reducible eapply rat_mid_nd) <;> [assumption; assumption; assumption; rat_nd]))
syntax "rat_frac" : tactic
macro_rules
  | `(tactic| rat_frac) => `(tactic| first
    | ((with_reducible refine rat_one2 ?_ ?_ ?_ ?_) <;> [assumption; assumption; assumption; rat_nd])
    | ((with_reducible refine rat_two ?_ ?_ ?_ ?_ ?_ ?_ ?_) <;> [assumption; assumption; assumption; assumption; assumption; assumption; rat_nd])
    | ((refine frac_then ?_ (rat_one2 ?_ ?_ ?_ ?_) ?_ (samefrac_mul (rat_one_frac ?_ ?_ ?_ ?_))) <;> first | assumption | rat_nd)
    | ((refine frac_then ?_ (rat_one2 ?_ ?_ ?_ ?_) ?_ (samefrac_mul' (rat_one_frac ?_ ?_ ?_ ?_))) <;> first | assumption | rat_nd))
syntax "rat_auto" : tactic
macro_rules
  | `(tactic| rat_auto) => `(tactic| first
    | omega
    | exact rat_ne (by assumption) (by assumption) (by assumption) (by rat_nd)
    | rat_frac
    | (simp only [Int.emod_emod] at *; rat_frac)
    | (unfold samefrac; omega)
    | (unfold samefrac; exact Iff.rfl))

/-- reducing a fraction in lowest terms changes nothing -/
theorem rat_back {p m n g : Int} (h0 : 0 ≤ m) (h1 : m < p) (d0 : 0 < n) (d1 : n < p) (hl : lowest m n) (hg : ∀ c, c ∣ g ↔ c ∣ m % p ∧ c ∣ n % p)
    (hg0 : 0 ≤ m % p ∧ 0 ≤ n % p → 0 ≤ g) : (if g = 0 then m % p else Int.fdiv (m % p) g) = m ∧ (if g = 0 then n % p else Int.fdiv (n % p) g) = n := by
  rw [Int.emod_eq_of_lt h0 h1, Int.emod_eq_of_lt d0.le d1] at *
  have gg := (hg g).1 dvd_rfl
  have : g ∣ 1 := hl g gg.1 gg.2
  have g1 : g = 1 := by
    have := Int.le_of_dvd (by norm_num) this
    have := hg0 ⟨h0, d0.le⟩
    have : g ≠ 0 := by rintro rfl; have := gg.2; rw [zero_dvd_iff] at this; omega
    omega
  subst g1
  simp
