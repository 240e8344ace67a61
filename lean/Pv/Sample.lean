import Pv.Bytes
/-! Index sampling. -/
def gstep (H : Bytes → Bytes) (d : Bytes) : Bytes :=
  bcat d (H (bslice d (if 0 ≤ blen d + -32 then blen d + -32 else 0) (blen d)))
def gfuel (H : Bytes → Bytes) (c : Int) : ℕ → Bytes → Bytes
  | 0, d => d
  | n + 1, d => if blen d < 4 * c then gfuel H c n (gstep H d) else d
def grown (H : Bytes → Bytes) (c : Int) (d : Bytes) : Bytes := gfuel H c (4 * c - blen d).toNat d
theorem gstep_len {H : Bytes → Bytes} (hH : ∀ x, blen (H x) = 32) (d : Bytes) : blen (gstep H d) = blen d + 32 := by
  unfold gstep; rw [blen_bcat, hH]
theorem gfuel_enough {H : Bytes → Bytes} (hH : ∀ x, blen (H x) = 32) (c : Int) (n : ℕ) : ∀ (m : ℕ) (d : Bytes), 4 * c - blen d ≤ n → 4 * c - blen d ≤ m →
    gfuel H c n d = gfuel H c m d := by
  induction n with
  | zero =>
    intro m d h1 h2
    cases m with
    | zero => rfl
    | succ m => simp only [gfuel]; rw [if_neg (by push_cast at h1; omega)]
  | succ n ih =>
    intro m d h1 h2
    cases m with
    | zero => simp only [gfuel]; rw [if_neg (by push_cast at h2; omega)]
    | succ m =>
      simp only [gfuel]
      split_ifs with h
      · have := gstep_len hH d
        exact ih m _ (by push_cast at h1; omega) (by push_cast at h2; omega)
      · rfl
theorem grown_step {H : Bytes → Bytes} (hH : ∀ x, blen (H x) = 32) {c : Int} {d : Bytes} (h : blen d < 4 * c) : grown H c (gstep H d) = grown H c d := by
  have hl := gstep_len hH d
  conv_rhs => unfold grown
  obtain ⟨n, hn⟩ : ∃ n, (4 * c - blen d).toNat = n + 1 := ⟨(4 * c - blen d).toNat - 1, by omega⟩
  rw [hn]; simp only [gfuel]; rw [if_pos h]
  exact gfuel_enough hH c _ _ _ (by omega) (by omega)
theorem grown_done {H : Bytes → Bytes} {c : Int} {d : Bytes} (h : 4 * c ≤ blen d) : grown H c d = d := by
  unfold grown; rw [show (4 * c - blen d).toNat = 0 by omega]; rfl
theorem bslice_all (b : Bytes) : bslice b 0 (blen b) = b := by simp [bslice, blen]
theorem real_mod {m e : Int} (h2 : 2 ≤ e) (h : m % e = 0) : m * (e + -1) / e = m / e * (e - 1) := by
  have h1 : m = e * (m / e) := by have := Int.mul_ediv_add_emod m e; omega
  conv_lhs => rw [h1, mul_assoc]
  rw [Int.mul_ediv_cancel_left _ (by omega)]; ring
theorem real_pos {m e : Int} (h0 : 0 < m) (h2 : 2 ≤ e) (h : m % e = 0) : 0 < m / e * (e - 1) := by
  have h1 : m = e * (m / e) := by have := Int.mul_ediv_add_emod m e; omega
  have : 0 < m / e := by by_contra hc; nlinarith
  exact mul_pos this (by omega)
theorem ex_mod {e x : Int} (h2 : 2 ≤ e) : (x + x / (e + -1) + 1) % e ≠ 0 := by
  have h1 := Int.mul_ediv_add_emod x (e + -1)
  have h3 := Int.emod_lt_of_pos x (show 0 < e + -1 by omega)
  have h4 := Int.emod_nonneg x (show e + -1 ≠ 0 by omega)
  have : x + x / (e + -1) + 1 = (x % (e + -1) + 1) + e * (x / (e + -1)) := by
    have : e * (x / (e + -1)) = (e + -1) * (x / (e + -1)) + x / (e + -1) := by ring
    omega
  rw [this, Int.add_mul_emod_self_left, Int.emod_eq_of_lt (by omega) (by omega)]
  omega
theorem ex_lt {m e x : Int} (h0 : 0 < m) (h2 : 2 ≤ e) (h : m % e = 0) (hx : x < m * (e + -1) / e) : x + x / (e + -1) + 1 < m := by
  rw [real_mod h2 h] at hx
  have h1 : m = e * (m / e) := by have := Int.mul_ediv_add_emod m e; omega
  have h5 : x / (e + -1) < m / e := Int.ediv_lt_of_lt_mul (by omega) (by rw [show e + -1 = e - 1 by ring]; exact hx)
  have h6 := Int.mul_ediv_add_emod x (e + -1)
  have h3 := Int.emod_lt_of_pos x (show 0 < e + -1 by omega)
  have h7 : e * (x / (e + -1)) = (e + -1) * (x / (e + -1)) + x / (e + -1) := by ring
  have h8 : e * (x / (e + -1)) ≤ e * (m / e - 1) := mul_le_mul_of_nonneg_left (by omega) (by omega)
  have h9 : e * (m / e - 1) = e * (m / e) - e := by ring
  omega
theorem ex_nn {e x : Int} (h2 : 2 ≤ e) (hx : 0 ≤ x) : 0 ≤ x + x / (e + -1) + 1 := by
  have := Int.ediv_nonneg hx (show 0 ≤ e + -1 by omega); omega
theorem ex_onto {m e y : Int} (h2 : 2 ≤ e) (hm : m % e = 0) (h0 : 0 ≤ y) (hy : y < m) (hn : y % e ≠ 0) :
    0 ≤ y - 1 - y / e ∧ y - 1 - y / e < m * (e + -1) / e ∧ (y - 1 - y / e) + (y - 1 - y / e) / (e + -1) + 1 = y := by
  have h1 := Int.mul_ediv_add_emod y e
  have h3 := Int.emod_lt_of_pos y (show 0 < e by omega)
  have h4 := Int.emod_nonneg y (show e ≠ 0 by omega)
  have hq : 0 ≤ y / e := Int.ediv_nonneg h0 (by omega)
  have e1 : y - 1 - y / e = (y % e - 1) + (e + -1) * (y / e) := by
    have : e * (y / e) = (e + -1) * (y / e) + y / e := by ring
    omega
  have e2 : (y - 1 - y / e) / (e + -1) = y / e := by
    rw [e1, Int.add_mul_ediv_left _ _ (by omega), Int.ediv_eq_zero_of_lt (by omega) (by omega)]; ring
  refine ⟨?_, ?_, by rw [e2]; ring⟩
  · rw [e1]; have := mul_nonneg (show 0 ≤ e + -1 by omega) hq; omega
  · rw [real_mod h2 hm, e1]
    have h6 : m = e * (m / e) := by have := Int.mul_ediv_add_emod m e; omega
    have h7 : y / e < m / e := by
      apply Int.ediv_lt_of_lt_mul (by omega); rw [mul_comm, ← h6]; exact hy
    have h8 : (e + -1) * (y / e) ≤ (e + -1) * (m / e - 1) := mul_le_mul_of_nonneg_left (by omega) (by omega)
    have h9 : (e + -1) * (m / e - 1) = m / e * (e - 1) - (e - 1) := by ring
    omega
theorem real_ne {m e : Int} (h0 : 0 < m) (h2 : 2 ≤ e) (h : m % e = 0) : m * (e + -1) / e ≠ 0 := by
  rw [real_mod h2 h]; exact (real_pos h0 h2 h).ne'
theorem real_pos' {m e : Int} (h0 : 0 < m) (h2 : 2 ≤ e) (h : m % e = 0) : 0 < m * (e + -1) / e := by
  rw [real_mod h2 h]; exact real_pos h0 h2 h
theorem s_low {m e z : Int} (h0 : 0 < m) (h2 : 2 ≤ e) (h : m % e = 0) :
    0 ≤ z % (m * (e + -1) / e) + z % (m * (e + -1) / e) / (e + -1) + 1 :=
  ex_nn h2 (Int.emod_nonneg _ (real_ne h0 h2 h))
theorem s_high {m e z : Int} (h0 : 0 < m) (h2 : 2 ≤ e) (h : m % e = 0) :
    z % (m * (e + -1) / e) + z % (m * (e + -1) / e) / (e + -1) + 1 < m :=
  ex_lt h0 h2 h (Int.emod_lt_of_pos _ (real_pos' h0 h2 h))
theorem s_prefix {d a : Bytes} {y : Int} (h : bslice d 0 (blen (toBytesBE y 4)) = toBytesBE y 4) (h0 : 0 ≤ y) (h1 : y < 16777216) :
    fromBytesBE (bslice d 0 4) = y := by
  rw [blen_toBytesBE y (by norm_num)] at h
  rw [h]; exact from_toBytesBE h0 (by rw [show ipow (256 : Int) 4 = 4294967296 by rw [ipow]; rfl]; omega)
theorem s_onto {d a : Bytes} {y m : Int} (h : bslice d 0 (blen (toBytesBE y 4)) = toBytesBE y 4) (h0 : 0 ≤ y) (h1 : y < m) (h2 : m < 16777216) :
    fromBytesBE (bslice d 0 4) % m = y := by
  rw [s_prefix (a := a) h h0 (by omega)]; exact Int.emod_eq_of_lt h0 h1
theorem s_onto_ex {d : Bytes} {y e m : Int} (h : bslice d 0 (blen (toBytesBE (y + -(y / e) + -1) 4)) = toBytesBE (y + -(y / e) + -1) 4)
    (h0 : 0 ≤ y) (h1 : y < m) (h2 : m < 16777216) (he : 2 ≤ e) (hm : m % e = 0) (hy : y % e ≠ 0) :
    fromBytesBE (bslice d 0 4) % (m * (e + -1) / e) + fromBytesBE (bslice d 0 4) % (m * (e + -1) / e) / (e + -1) + 1 = y := by
  obtain ⟨a1, a2, a3⟩ := ex_onto he hm h0 h1 hy
  rw [show y + -(y / e) + -1 = y - 1 - y / e by ring] at h
  have : 0 ≤ y / e := Int.ediv_nonneg h0 (by omega)
  rw [s_prefix (a := d) h a1 (by omega), Int.emod_eq_of_lt a1 a2]; exact a3
theorem grown_same {H : Bytes → Bytes} {c : Int} {d d' e : Bytes} (h : grown H c d = grown H c e) (h' : grown H c d' = grown H c e)
    (l : 4 * c ≤ blen d) (l' : 4 * c ≤ blen d') : d' = d := by
  rw [grown_done l] at h; rw [grown_done l'] at h'; rw [h, h']
syntax "samp_auto" : tactic
macro_rules
  | `(tactic| samp_auto) => `(tactic| first
    | exact bslice_all _
    | exact (grown_step (by assumption) (by assumption)).trans (by assumption)
    | (rw [bslice_append_left _ _ (by assumption)]; assumption)
    | (rw [blen_bcat]; have := ‹∀ x, blen _ = 32›; omega)
    | exact real_ne (by assumption) (by assumption) (by assumption)
    | exact fun _ => real_ne (by assumption) (by assumption) (by assumption)
    | (intro i hi; first
        | exact Int.emod_nonneg _ (by omega)
        | exact Int.emod_lt_of_pos _ (by omega)
        | exact s_low (by assumption) (by assumption) (by assumption)
        | exact s_high (by assumption) (by assumption) (by assumption)
        | exact real_ne (by assumption) (by assumption) (by assumption)
        | exact ex_mod (by assumption)
        | (cases grown_same (by assumption) (by assumption) (by assumption) (by assumption); rfl))
    | exact s_onto (a := []) (by assumption) (by assumption) (by assumption) (by assumption)
    | exact s_onto_ex (by assumption) (by assumption) (by assumption) (by assumption) (by assumption) (by assumption) (by assumption)
    | pv_auto)
