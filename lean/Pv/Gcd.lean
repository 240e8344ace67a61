import Pv.Basic
/-! Divisibility facts for the Euclidean algorithms. -/

theorem dvd_fmod_iff {a b c : Int} (h : c ∣ b) : c ∣ Int.fmod a b ↔ c ∣ a := by
  conv_rhs => rw [← Int.mul_fdiv_add_fmod a b]
  exact ((dvd_add_right (Dvd.dvd.mul_right h _))).symm

theorem dvd_emod_iff' {a b c : Int} (h : c ∣ b) : c ∣ a % b ↔ c ∣ a := by
  conv_rhs => rw [← Int.mul_ediv_add_emod a b]
  exact ((dvd_add_right (Dvd.dvd.mul_right h _))).symm

theorem dvd_rem_iff {E : Type} [CommRing E] {a b q r c : E} (h : a = q * b + r) (hc : c ∣ b) : c ∣ r ↔ c ∣ a := by
  rw [h]; exact (dvd_add_right (Dvd.dvd.mul_left hc _)).symm

theorem iabs_fmod_lt (a : Int) {b : Int} (h : b ≠ 0) : iabs (Int.fmod a b) < iabs b := by
  simp only [iabs_eq]
  rcases lt_or_gt_of_ne h with h | h
  · have h1 : Int.fmod (-a) (-b) = - Int.fmod a b := by
      rw [Int.fmod_def, Int.fmod_def, Int.neg_fdiv_neg]; ring
    have h2 := Int.fmod_nonneg_of_pos (-a) (b := -b) (by omega)
    have h3 := Int.fmod_lt_of_pos (-a) (b := -b) (by omega)
    rw [abs_of_nonpos (by omega), abs_of_neg h]; omega
  · have h1 := Int.fmod_nonneg_of_pos a h
    have h2 := Int.fmod_lt_of_pos a h
    rw [abs_of_nonneg h1, abs_of_pos h]; exact h2

theorem fmod_nonneg_imp {a b c d : Int} (h : 0 ≤ c ∧ 0 ≤ d → 0 ≤ a ∧ 0 ≤ b) : 0 ≤ c ∧ 0 ≤ d → 0 ≤ b ∧ 0 ≤ Int.fmod a b :=
  fun hc => ⟨(h hc).2, Int.fmod_nonneg (h hc).1 (h hc).2⟩
theorem iabs_pos_iff {b : Int} : 0 < iabs b ↔ b ≠ 0 := by simp
theorem iabs_nonpos_iff {b : Int} : iabs b ≤ 0 ↔ b = 0 := by simp
theorem iabs_zero_iff {b : Int} : iabs b = 0 ↔ b = 0 := by simp
theorem fdiv_fmod (a b : Int) : a = Int.fdiv a b * b + Int.fmod a b := by
  have := Int.mul_fdiv_add_fmod a b; linarith [mul_comm b (Int.fdiv a b)]
theorem fmod_eq (a b : Int) : Int.fmod a b = a - Int.fdiv a b * b := by
  have := fdiv_fmod a b; linarith
theorem dvd_zero_iff {E : Type} [CommRing E] {c : E} : (c ∣ (0 : E)) ↔ True := by simp

theorem cd_step {E : Type} [CommRing E] {P : E → Prop} {a b q r : E} (h : ∀ c, c ∣ a ∧ c ∣ b ↔ P c) (hd : a = q * b + r) :
    ∀ c, c ∣ b ∧ c ∣ r ↔ P c := by
  intro c; rw [← h c]
  constructor
  · rintro ⟨h1, h2⟩; exact ⟨(dvd_rem_iff hd h1).1 h2, h1⟩
  · rintro ⟨h1, h2⟩; exact ⟨h2, (dvd_rem_iff hd h2).2 h1⟩
theorem cd_stepZ {P : Int → Prop} {a b : Int} (h : ∀ c, c ∣ a ∧ c ∣ b ↔ P c) : ∀ c, c ∣ b ∧ c ∣ Int.fmod a b ↔ P c :=
  cd_step h (fdiv_fmod a b)
theorem cd_done {E : Type} [CommRing E] {P : E → Prop} {a b : E} (h : ∀ c, c ∣ a ∧ c ∣ b ↔ P c) (hb : b = 0) : ∀ c, c ∣ a ↔ P c := by
  intro c; rw [← h c, hb]; simp

theorem cd_left {E : Type} [CommRing E] {a b x y : E} (h : ∀ c, c ∣ a ∧ c ∣ b ↔ c ∣ x ∧ c ∣ y) (hb : b = 0) : a ∣ x :=
  ((h a).1 ⟨dvd_rfl, by simp [hb]⟩).1
theorem cd_right {E : Type} [CommRing E] {a b x y : E} (h : ∀ c, c ∣ a ∧ c ∣ b ↔ c ∣ x ∧ c ∣ y) (hb : b = 0) : a ∣ y :=
  ((h a).1 ⟨dvd_rfl, by simp [hb]⟩).2

/-- common divisors of a pair -/
syntax "gcd_auto" : tactic
macro_rules
  | `(tactic| gcd_auto) => `(tactic| first
    | exact cd_step (by assumption) (by assumption)
    | exact cd_stepZ (by assumption)
    | exact fmod_nonneg_imp (by assumption)
    | (apply iabs_fmod_lt; first | assumption | (simp_all; done))
    | (refine cd_done (P := fun c => _) (by assumption) ?_; first | assumption | (apply_assumption; omega) | (simp_all; omega) | (simp_all; done))
    | (refine cd_left (by assumption) ?_; first | assumption | (apply_assumption; omega) | (simp_all; omega) | (simp_all; done))
    | (refine cd_right (by assumption) ?_; first | assumption | (apply_assumption; omega) | (simp_all; omega) | (simp_all; done))
    | (rw [fmod_eq]; grind)
    | exact iabs_nonneg _
    | omega
    | (intro c
       have h0 : ∀ x : Int, iabs x ≤ 0 → x = 0 := fun x => iabs_nonpos_iff.1
       grind [dvd_fmod_iff, dvd_rem_iff, dvd_zero])
    | grind [dvd_fmod_iff, dvd_rem_iff, dvd_zero, fmod_eq, dvd_refl, iabs_nonpos_iff])
