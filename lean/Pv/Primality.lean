import Pv.Pow
import Mathlib.FieldTheory.Finite.Basic
import Mathlib.RingTheory.Int.Basic
/-! Miller-Rabin. -/
theorem two_pow_pos (e : Int) : 0 < ipow (2 : Int) e := ipow_pos (by norm_num)
theorem decomp_step {n n0 e : Int} (h0 : 0 ≤ e) (h : n0 = ipow 2 e * n) (h2 : n % 2 = 0) : n0 = ipow 2 (e + 1) * (n / 2) := by
  rw [ipow_succ _ h0, h]
  have : n = 2 * (n / 2) := by omega
  conv_lhs => rw [this]
  ring
/-- a is a Miller-Rabin witness for p - 1 = 2^e d -/
def mrw (a p e d : Int) : Prop := ipow a d % p ≠ 1 ∧ ∀ i, 0 ≤ i → i < e → ipow a (ipow 2 i * d) % p ≠ p - 1
theorem int_prime_fermat {p a : Int} (hp : Prime p) (h1 : 1 < p) (ha : 1 ≤ a) (hl : a < p) : ipow a (p - 1) % p = 1 := by
  obtain ⟨q, rfl⟩ : ∃ q : ℕ, p = q := ⟨p.toNat, by omega⟩
  have hq : Nat.Prime q := by rwa [Nat.prime_iff_prime_int]
  have : Fact q.Prime := ⟨hq⟩
  obtain ⟨b, rfl⟩ : ∃ b : ℕ, a = b := ⟨a.toNat, by omega⟩
  have hb : ((b : ℕ) : ZMod q) ≠ 0 := by
    intro h
    have := (ZMod.natCast_eq_zero_iff b q).mp h
    have := Nat.le_of_dvd (by omega) this
    omega
  have := ZMod.pow_card_sub_one_eq_one hb
  have e : ipow (b : Int) ((q : Int) - 1) = ((b ^ (q - 1) : ℕ) : Int) := by
    unfold ipow; push_cast; congr 1; omega
  rw [e]
  have h3 : ((b ^ (q - 1) : ℕ) : ZMod q) = ((1 : ℕ) : ZMod q) := by push_cast; exact this
  have := (ZMod.natCast_eq_natCast_iff _ _ _).mp h3
  have h4 : b ^ (q - 1) % q = 1 % q := this
  rw [Nat.mod_eq_of_lt (by omega : 1 < q)] at h4
  exact_mod_cast h4
theorem sqrt_one {p x : Int} (hp : Prime p) (h1 : 2 < p) (h : (x * x) % p = 1) : x % p = 1 ∨ x % p = p - 1 := by
  have hd : p ∣ (x - 1) * (x + 1) := by
    have : (x - 1) * (x + 1) = x * x - 1 := by ring
    rw [this]
    have h2 : (x * x) % p = 1 % p := by rw [h, Int.emod_eq_of_lt (by omega) (by omega)]
    exact Int.ModEq.dvd (show (1 : Int) ≡ x * x [ZMOD p] from h2.symm)
  rcases hp.dvd_or_dvd hd with h' | h'
  · left
    have h3 : x % p = 1 % p := Int.ModEq.symm (Int.modEq_iff_dvd.mpr h')
    rw [h3, Int.emod_eq_of_lt (by omega) (by omega)]
  · right
    have h3 : x % p = (-1) % p := by
      apply Int.ModEq.symm
      rw [Int.modEq_iff_dvd]
      have : x - -1 = x + 1 := by ring
      rwa [this]
    rw [h3]
    have : (-1 : Int) % p = (p - 1) % p := by
      have : p - 1 = -1 + p * 1 := by ring
      rw [this, Int.add_mul_emod_self_left]
    rw [this, Int.emod_eq_of_lt (by omega) (by omega)]
theorem prime_not_mrw {p a e d : Int} (hp : Prime p) (h1 : 2 < p) (ha : 1 ≤ a) (hl : a < p) (he : 0 ≤ e) (hd : 0 < d)
    (h : p - 1 = ipow 2 e * d) : ¬ mrw a p e d := by
  rintro ⟨hw1, hw2⟩
  have key : ∀ n : ℕ, (n : Int) ≤ e → ipow a (ipow 2 (n : Int) * d) % p ≠ 1 := by
    intro n
    induction n with
    | zero => intro _; simpa [ipow] using hw1
    | succ n ih =>
      intro hn h2
      push_cast at hn h2
      have hsq : ipow a (ipow 2 ((n : Int) + 1) * d) = ipow a (ipow 2 (n : Int) * d) * ipow a (ipow 2 (n : Int) * d) := by
        rw [ipow_succ _ (by omega), ← ipow_add]
        · congr 1; ring
        · exact mul_nonneg (two_pow_pos _).le hd.le
        · exact mul_nonneg (two_pow_pos _).le hd.le
      rw [hsq] at h2
      rcases sqrt_one hp h1 h2 with h3 | h3
      · exact ih (by omega) h3
      · exact hw2 n (by omega) (by omega) h3
  have := key e.toNat (by omega)
  rw [Int.toNat_of_nonneg he, ← h] at this
  exact this (int_prime_fermat hp (by omega) ha hl)
theorem prime_odd {p : Int} (hp : Prime p) (h1 : 2 < p) : p % 2 ≠ 0 := by
  intro h
  have h2 : (2 : Int) ∣ p := Int.dvd_of_emod_eq_zero h
  have := (Int.prime_two.dvd_prime_iff_associated hp).mp h2
  rcases Int.associated_iff.mp this with h | h <;> omega
theorem mr_prime {p a e d : Int} (hp : Prime p) (h2 : 3 ≤ p) (hl : 2 ≤ a) (hu : a ≤ p - 2) (he : 0 ≤ e) (hd : 0 < d)
    (h : p - 1 = ipow 2 e * d) : ¬ mrw a p e d := prime_not_mrw hp (by omega) (by omega) (by omega) he hd h
theorem decomp_unique {e d e' d' : Int} (he : 0 ≤ e) (he' : 0 ≤ e') (hd : d % 2 ≠ 0) (hd' : d' % 2 ≠ 0)
    (h : ipow 2 e * d = ipow 2 e' * d') : e = e' ∧ d = d' := by
  have key : ∀ n : ℕ, ∀ m : ℕ, ∀ d d' : Int, d % 2 ≠ 0 → d' % 2 ≠ 0 → 2 ^ n * d = 2 ^ m * d' → n = m ∧ d = d' := by
    intro n
    induction n with
    | zero =>
      intro m d d' h1 h2 h
      rcases m with _ | m
      · simpa using h
      · exfalso; apply h1; rw [pow_succ] at h; simp at h; rw [h]
        rw [show (2:Int)^m * 2 * d' = 2 * (2^m * d') by ring]; simp
    | succ n ih =>
      intro m d d' h1 h2 h
      rcases m with _ | m
      · exfalso; apply h2; rw [pow_succ] at h; simp at h; rw [← h]
        rw [show (2:Int)^n * 2 * d = 2 * (2^n * d) by ring]; simp
      · have := ih m d d' h1 h2 (by
          have h3 : (2:Int) * (2 ^ n * d) = 2 * (2 ^ m * d') := by rw [pow_succ, pow_succ] at h; linarith
          linarith)
        exact ⟨by omega, this.2⟩
  have := key e.toNat e'.toNat d d' hd hd' h
  exact ⟨by omega, this.2⟩
syntax "mr_auto" : tactic
macro_rules
  | `(tactic| mr_auto) => `(tactic| first
    | omega
    | exact decomp_step (by assumption) (by assumption) (by assumption)
    | (simp [ipow]; done)
    | (unfold mrw; grind)
    | (unfold mrw; push_neg; grind)
    | exact mul_nonneg (two_pow_pos _).le (by omega)
    | (exfalso; have := prime_odd (by assumption) (by omega); omega)
    | exact absurd (Iff.mp (‹_ ↔ mrw _ _ _ _›) (by assumption)) (mr_prime (by assumption) (by omega) (by omega) (by omega) (by assumption) (by assumption) (by rw [sub_eq_add_neg]; assumption))
    | (have hh := decomp_unique (‹(0:Int) ≤ _›) (‹(0:Int) ≤ _›) (by assumption) (by assumption) (Eq.trans (Eq.symm (by assumption)) (by assumption)); grind)
    | (obtain ⟨he, hd⟩ := decomp_unique (by assumption) (by assumption) (by assumption) (by assumption) (Eq.trans (Eq.symm h_req_2) h_post); grind)
    | pv_auto)
