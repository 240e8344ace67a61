import Pv.Bytes
import Pv.Pow
/-! Merkle trees. -/
/-- position of index x after the quarter permutation of n entries -/
def pidx (n x : Int) : Int := x / (n / 4) + 4 * (x % (n / 4))
/-- index held at position i after the quarter permutation of n entries -/
def pinv (n i : Int) : Int := i / 4 + i % 4 * (n / 4)
theorem pidx_range {n x : Int} (h4 : n % 4 = 0) (h0 : 0 ≤ x) (h1 : x < n) : 0 ≤ pidx n x ∧ pidx n x < n := by
  have hm : 0 < n / 4 := by omega
  have a := Int.emod_nonneg x (show n / 4 ≠ 0 by omega)
  have b := Int.emod_lt_of_pos x hm
  have c : 0 ≤ x / (n / 4) := Int.ediv_nonneg h0 hm.le
  have d : x / (n / 4) < 4 := Int.ediv_lt_of_lt_mul hm (by omega)
  unfold pidx; constructor <;> omega
theorem pinv_range {n i : Int} (h4 : n % 4 = 0) (h0 : 0 ≤ i) (h1 : i < n) : 0 ≤ pinv n i ∧ pinv n i < n := by
  have hm : 0 < n / 4 := by omega
  have a : 0 ≤ i % 4 := by omega
  have b : i % 4 < 4 := by omega
  unfold pinv
  have e : i % 4 = 0 ∨ i % 4 = 1 ∨ i % 4 = 2 ∨ i % 4 = 3 := by omega
  rcases e with e | e | e | e <;> rw [e] <;> constructor <;> omega
theorem pinv_pidx {n x : Int} (h4 : n % 4 = 0) (h0 : 0 ≤ x) (h1 : x < n) : pinv n (pidx n x) = x := by
  have hm : 0 < n / 4 := by omega
  have c : 0 ≤ x / (n / 4) := Int.ediv_nonneg h0 hm.le
  have d : x / (n / 4) < 4 := Int.ediv_lt_of_lt_mul hm (by omega)
  have e := Int.emod_add_mul_ediv x (n / 4)
  have f1 : pidx n x / 4 = x % (n / 4) := by unfold pidx; omega
  have f2 : pidx n x % 4 = x / (n / 4) := by unfold pidx; omega
  unfold pinv; rw [f1, f2]; linarith [mul_comm (n / 4) (x / (n / 4))]
theorem pidx_pinv {n i : Int} (h4 : n % 4 = 0) (h0 : 0 ≤ i) (h1 : i < n) : pidx n (pinv n i) = i := by
  have hm : 0 < n / 4 := by omega
  have q : i / 4 < n / 4 := by omega
  have q0 : 0 ≤ i / 4 := by omega
  have a : pinv n i / (n / 4) = i % 4 := by
    unfold pinv; rw [Int.add_mul_ediv_right _ _ (by omega), Int.ediv_eq_zero_of_lt q0 q]; omega
  have b : pinv n i % (n / 4) = i / 4 := by
    unfold pinv; rw [Int.add_mul_emod_self_right, Int.emod_eq_of_lt q0 q]
  unfold pidx; rw [a, b]; omega
/-- value recomputed from k siblings p_1 .. p_k starting at p_0, bit j of idx telling the side at level j -/
def mstep (H : Bytes → Bytes) (p : Int → Bytes) (idx : Int) : ℕ → Bytes
  | 0 => p 0
  | k + 1 => if (idx / 2 ^ k) % 2 = 0 then H (bcat (mstep H p idx k) (p (k + 1))) else H (bcat (p (k + 1)) (mstep H p idx k))
def mfold (H : Bytes → Bytes) (p : Int → Bytes) (idx k : Int) : Bytes := mstep H p idx k.toNat
theorem mfold_zero (H : Bytes → Bytes) (p : Int → Bytes) (idx : Int) : mfold H p idx 0 = p 0 := rfl
theorem mfold_succ (H : Bytes → Bytes) (p : Int → Bytes) (idx : Int) {k : Int} (h : 0 ≤ k) :
    mfold H p idx (k + 1) = if (idx / ipow 2 k) % 2 = 0 then H (bcat (mfold H p idx k) (p (k + 1))) else H (bcat (p (k + 1)) (mfold H p idx k)) := by
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le h
  unfold mfold ipow
  rw [show ((m : Int) + 1).toNat = m + 1 by omega, Int.toNat_natCast]
  rfl
theorem ipow2_succ {k : Int} (h : 0 ≤ k) : ipow (2 : Int) (k + 1) = 2 * ipow 2 k := by
  unfold ipow; rw [show (k + 1).toNat = k.toNat + 1 by omega, pow_succ, mul_comm]
theorem ipow2_pos (k : Int) : 0 < ipow (2 : Int) k := by unfold ipow; positivity
theorem div_ipow2_succ (x : Int) {k : Int} (h : 0 ≤ k) : x / ipow 2 (k + 1) = x / ipow 2 k / 2 := by
  rw [ipow2_succ h, mul_comm, Int.ediv_ediv_of_nonneg (ipow2_pos k).le]
/-- the tree over n leaves -/
def mtree (H : Bytes → Bytes) (n : Int) (f : Int → Bytes) : Prop := ∀ i, 0 < i → i < n → f i = H (bcat (f (2 * i)) (f (2 * i + 1)))
/-- the sibling -/
def sib (i : Int) : Int := if i % 2 = 0 then i + 1 else i - 1
/-- the honest branch recomputes every ancestor -/
theorem mfold_honest {H : Bytes → Bytes} {n : Int} {f p : Int → Bytes} {idx m : Int} (ht : mtree H n f) (h0 : 0 < idx) (h1 : idx < 2 * n) (hp0 : p 0 = f idx)
    (hp : ∀ j, 0 ≤ j → j < m → p (j + 1) = f (sib (idx / ipow 2 j))) (hpos : ∀ j, 0 ≤ j → j < m → 1 < idx / ipow 2 j) :
    ∀ k : ℕ, (k : Int) ≤ m → mfold H p idx k = f (idx / ipow 2 k) := by
  intro k
  induction k with
  | zero => intro _; rw [Int.natCast_zero, mfold_zero, hp0]; simp [ipow]
  | succ k ih =>
    intro hk
    push_cast at hk ⊢
    rw [mfold_succ _ _ _ (by omega), ih (by omega), hp k (by omega) (by omega), div_ipow2_succ _ (by omega)]
    have hb := hpos k (by omega) (by omega)
    have hlt : idx / ipow 2 (k : Int) ≤ idx := Int.ediv_le_self _ h0.le
    generalize idx / ipow 2 (k : Int) = a at *
    rw [ht (a / 2) (by omega) (by omega)]
    unfold sib
    split_ifs with h
    · rw [show 2 * (a / 2) = a by omega]
    · rw [show 2 * (a / 2) + 1 = a by omega, show 2 * (a / 2) = a - 1 by omega]
/-- a collision of H -/
def collides (H : Bytes → Bytes) : Prop := ∃ x y, x ≠ y ∧ H x = H y
theorem bcat_inj_left {a b c d : Bytes} (h : bcat a b = bcat c d) (hl : blen a = blen c) : a = c ∧ b = d := by
  unfold bcat blen at *; exact List.append_inj h (by omega)
theorem bcat_inj_right {a b c d : Bytes} (h : bcat a b = bcat c d) (hl : blen b = blen d) : a = c ∧ b = d := by
  unfold bcat blen at *; exact List.append_inj' h (by omega)
/-- an accepted branch of the right number of entries holds the committed leaf or shows a collision -/
theorem mfold_binding {H : Bytes → Bytes} {n : Int} {f p : Int → Bytes} {idx : Int} (ht : mtree H n f) (h0 : 0 < idx) (h1 : idx < 2 * n)
    (hH : ∀ x, blen (H x) = 32) (hleaf : blen (p 0) = blen (f idx)) (hc : ¬ collides H) :
    ∀ k : ℕ, (∀ j : Int, 0 ≤ j → j < k → 1 < idx / ipow 2 j) → mfold H p idx k = f (idx / ipow 2 k) → p 0 = f idx := by
  intro k
  induction k with
  | zero => intro _ h; rw [Int.natCast_zero, mfold_zero] at h; rw [h]; simp [ipow]
  | succ k ih =>
    intro hpos h
    push_cast at h hpos
    have hb := hpos k (by omega) (by omega)
    apply ih (fun j a b => hpos j a (by omega))
    rw [mfold_succ _ _ _ (by omega), div_ipow2_succ _ (by omega)] at h
    have hlt : idx / ipow 2 (k : Int) ≤ idx := Int.ediv_le_self _ h0.le
    have hl : blen (mfold H p idx k) = blen (f (idx / ipow 2 (k : Int))) := by
      rcases k with _ | k
      · rw [Int.natCast_zero, mfold_zero, hleaf]; simp [ipow]
      · have e1 : blen (mfold H p idx ((k + 1 : ℕ) : Int)) = 32 := by
          push_cast; rw [mfold_succ _ _ _ (by omega)]; split_ifs <;> exact hH _
        have a1 := hpos (k + 1 : ℕ) (by omega) (by omega)
        have e2 : idx / ipow 2 ((k + 1 : ℕ) : Int) < n := by
          push_cast; rw [div_ipow2_succ _ (by omega)]
          have : idx / ipow 2 (k : Int) ≤ idx := Int.ediv_le_self _ h0.le
          omega
        rw [e1, ht _ (by omega) e2, hH]
    generalize idx / ipow 2 (k : Int) = a at *
    rw [ht (a / 2) (by omega) (by omega)] at h
    have inj : ∀ x y, H x = H y → x = y := fun x y e => by
      by_contra hne; exact hc ⟨x, y, hne, e⟩
    split_ifs at h with hs
    · have e := inj _ _ h
      rw [show 2 * (a / 2) = a by omega] at e
      exact (bcat_inj_left e hl).1
    · have e := inj _ _ h
      rw [show 2 * (a / 2) + 1 = a by omega] at e
      exact (bcat_inj_right e hl).2
/-- the path from a leaf of a tree with n = 2^t leaves reaches the root after t steps -/
theorem path_pos {n i k : Int} (hn : ipow 2 k = n) (h0 : n ≤ i) {j : Int} (j0 : 0 ≤ j) (j1 : j < k) : 1 < i / ipow 2 j := by
  have : ipow (2 : Int) k = ipow 2 j * ipow 2 (k - j - 1) * 2 := by
    unfold ipow; rw [mul_assoc, ← pow_succ, ← pow_add]; congr 1; omega
  have p := ipow2_pos (k - j - 1)
  have q := ipow2_pos j
  have : 2 ≤ i / ipow 2 j := by
    rw [Int.le_ediv_iff_mul_le q]; nlinarith
  omega
theorem path_end {n i k : Int} (hn : ipow 2 k = n) (h0 : n ≤ i) (h1 : i < 2 * n) : i / ipow 2 k = 1 := by
  rw [hn]; have : 0 < n := hn ▸ ipow2_pos k
  rw [Int.ediv_eq_iff_of_pos this]; omega
/-- tree position of the leaf at index i, and its ancestor j levels up -/
def mstart (n i : Int) : Int := n + pidx n i
def mlevel (n i j : Int) : Int := mstart n i / ipow 2 j
theorem mlevel_zero (n i : Int) : mlevel n i 0 = mstart n i := by simp [mlevel, ipow]
theorem mlevel_succ (n i : Int) {j : Int} (h : 0 ≤ j) : mlevel n i (j + 1) = mlevel n i j / 2 := div_ipow2_succ _ h
theorem ispow2_mod4 {n : Int} (h : ispow2 n) (h4 : 4 ≤ n) : n % 4 = 0 := by
  obtain ⟨k, rfl⟩ := h
  rcases k with _ | _ | k
  · norm_num at h4
  · norm_num at h4
  · rw [pow_succ, pow_succ]; omega
theorem mstart_range {n i : Int} (h4 : n % 4 = 0) (h0 : 0 ≤ i) (h1 : i < n) : n ≤ mstart n i ∧ mstart n i < 2 * n := by
  have := pidx_range h4 h0 h1; unfold mstart; omega
theorem mlevel_lt {n i j : Int} (h4 : n % 4 = 0) (h0 : 0 ≤ i) (h1 : i < n) : mlevel n i j < 2 * n := by
  have := mstart_range h4 h0 h1
  have : mlevel n i j ≤ mstart n i := Int.ediv_le_self _ (by omega)
  omega
theorem mlevel_root {n i k : Int} (hn : ispow2 n) (h4 : 4 ≤ n) (h0 : 0 ≤ i) (h1 : i < n) (hk : 0 ≤ k) (h : mlevel n i k = 1) : ipow 2 k = n := by
  have hm := mstart_range (ispow2_mod4 hn h4) h0 h1
  have hp := ipow2_pos k
  unfold mlevel at h
  rw [Int.ediv_eq_iff_of_pos hp] at h
  obtain ⟨t, rfl⟩ := hn
  unfold ipow at *
  have a : (2 : Int) ^ t < 2 ^ (k.toNat + 1) := by rw [pow_succ]; omega
  have b : (2 : Int) ^ k.toNat < 2 ^ (t + 1) := by rw [pow_succ]; omega
  have a' := (pow_lt_pow_iff_right₀ (by norm_num : (1 : Int) < 2)).1 a
  have b' := (pow_lt_pow_iff_right₀ (by norm_num : (1 : Int) < 2)).1 b
  congr 1; omega
theorem half_ipow {n : Int} (h : 0 < n) : ipow (2 : Int) n / 2 = ipow 2 (n + -1) := by
  have := ipow2_succ (show 0 ≤ n + -1 by omega)
  rw [show n + -1 + 1 = n by omega] at this; omega
theorem four_le {n : Int} (h : 3 ≤ n) : 4 ≤ ipow (2 : Int) (n + -1) := by
  unfold ipow
  calc (4 : Int) = 2 ^ 2 := by norm_num
    _ ≤ _ := pow_le_pow_right₀ (by norm_num) (by omega)
theorem three_le {k : Int} (h : 4 ≤ ipow (2 : Int) (k + -1)) : 3 ≤ k := by
  by_contra hk
  have : (k + -1).toNat ≤ 1 := by omega
  have : ipow (2 : Int) (k + -1) ≤ 2 ^ 1 := by unfold ipow; exact pow_le_pow_right₀ (by norm_num) this
  omega
/-- the honest branch recomputes the root -/
theorem merkle_root {H : Bytes → Bytes} {n : Int} {f p : Int → Bytes} {i m : Int} (hn : ispow2 n) (h4 : 4 ≤ n) (h0 : 0 ≤ i) (h1 : i < n) (ht : mtree H n f)
    (hm : ipow 2 m = n) (m0 : 0 ≤ m) (hp0 : p 0 = f (mstart n i)) (hp : ∀ j, 0 ≤ j ∧ j < m → p (j + 1) = f (sib (mlevel n i j))) :
    mfold H p (mstart n i) m = f 1 := by
  have hr := mstart_range (ispow2_mod4 hn h4) h0 h1
  have := mfold_honest ht (idx := mstart n i) (m := m) (by omega) hr.2 hp0 (fun j a b => hp j ⟨a, b⟩) (fun j a b => path_pos hm hr.1 a b) m.toNat (by omega)
  rw [Int.toNat_of_nonneg m0, path_end hm hr.1 hr.2] at this
  exact this
/-- a branch that recomputes the root holds the committed leaf or shows a collision -/
theorem merkle_binding {H : Bytes → Bytes} {n : Int} {f p : Int → Bytes} {i m : Int} (hH : ∀ x, blen (H x) = 32) (hn : ispow2 n) (h4 : 4 ≤ n) (h0 : 0 ≤ i) (h1 : i < n) (ht : mtree H n f)
    (hm : ipow 2 m = n) (m0 : 0 ≤ m) (hl : blen (p 0) = blen (f (mstart n i))) (h : mfold H p (mstart n i) m = f 1) :
    p 0 = f (mstart n i) ∨ collides H := by
  by_cases hc : collides H
  · exact Or.inr hc
  left
  have hr := mstart_range (ispow2_mod4 hn h4) h0 h1
  refine mfold_binding ht (by omega) hr.2 hH hl hc m.toNat ?_ ?_ <;> rw [Int.toNat_of_nonneg m0]
  · exact fun j a b => path_pos hm hr.1 a b
  · rw [path_end hm hr.1 hr.2]; exact h
/-- changing one entry of a branch changes the recomputed root or shows a collision -/
theorem mfold_alter {H : Bytes → Bytes} {p q : Int → Bytes} (hc : ¬ collides H) {idx j : Int} (j0 : 0 ≤ j) (hj : p j ≠ q j) (heq : ∀ i, i ≠ j → p i = q i) :
    ∀ k : ℕ, (if (k : Int) < j then mfold H p idx k = mfold H q idx k else mfold H p idx k ≠ mfold H q idx k) := by
  have inj : ∀ x y, H x = H y → x = y := fun x y e => by
    by_contra hne; exact hc ⟨x, y, hne, e⟩
  intro k
  induction k with
  | zero =>
    simp only [Int.natCast_zero, mfold_zero]
    split_ifs with h
    · exact heq 0 (by omega)
    · rwa [show (0 : Int) = j by omega]
  | succ k ih =>
    push_cast
    rw [mfold_succ _ _ _ (by omega), mfold_succ _ _ _ (by omega)]
    by_cases h1 : (k : Int) + 1 < j
    · rw [if_pos h1]; rw [if_pos (by omega)] at ih; rw [ih, heq _ (by omega)]
    rw [if_neg h1]
    by_cases h2 : (k : Int) + 1 = j
    · rw [if_pos (by omega)] at ih; rw [ih, h2]
      split_ifs
      · intro e; exact hj (bcat_inj_left (inj _ _ e) rfl).2
      · intro e; exact hj (bcat_inj_right (inj _ _ e) rfl).1
    · rw [if_neg (by omega)] at ih; rw [heq ((k : Int) + 1) (by omega)]
      split_ifs
      · intro e; exact ih (bcat_inj_right (inj _ _ e) rfl).1
      · intro e; exact ih (bcat_inj_left (inj _ _ e) rfl).2
theorem merkle_alter {H : Bytes → Bytes} {p q : Int → Bytes} {idx j m : Int} (j0 : 0 ≤ j) (jm : j ≤ m) (hj : p j ≠ q j) (heq : ∀ i, i ≠ j → p i = q i)
    (h : mfold H p idx m = mfold H q idx m) : collides H := by
  by_contra hc
  have := mfold_alter hc (idx := idx) j0 hj heq m.toNat
  rw [Int.toNat_of_nonneg (by omega), if_neg (by omega)] at this
  exact this h
syntax "merkle_auto" : tactic
macro_rules
  | `(tactic| merkle_auto) => `(tactic| first
    | omega
    | pv_auto)
