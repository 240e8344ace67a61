import Pv.PolyDiv
/-! Interpolation. -/
open Polynomial
variable {K : Type} [Field K]
/-- the monic polynomial with roots x_0 .. x_{n-1} -/
noncomputable def vanish (n : Int) (xs : Int → K) : K[X] := iprod n fun i => X - C (xs i)
open Classical in
/-- product of the nonzero ones among v_0 .. v_{n-1} -/
noncomputable def nzprod (n : Int) (v : Int → K) : K := iprod n fun i => if v i = 0 then 1 else v i
def distinct (n : Int) (xs : Int → K) : Prop := ∀ i j, 0 ≤ i → i < n → 0 ≤ j → j < n → xs i = xs j → i = j

theorem nzprod_zero (v : Int → K) : nzprod 0 v = 1 := by simp [nzprod, iprod]
open Classical in
theorem nzprod_succ (v : Int → K) {n : Int} (h : 0 ≤ n) : nzprod (n + 1) v = nzprod n v * (if v n = 0 then 1 else v n) := by
  unfold nzprod; rw [iprod_succ _ h]
theorem nzprod_ne (v : Int → K) (n : Int) : nzprod n v ≠ 0 := by
  classical
  unfold nzprod; apply iprod_ne_zero; intro i _ _; split_ifs with h <;> simp [h]
theorem nzprod_pred (v : Int → K) {n : Int} (h : 0 < n) (h2 : v (n + -1) ≠ 0) : nzprod n v = nzprod (n + -1) v * v (n + -1) := by
  have := nzprod_succ v (show 0 ≤ n + -1 by omega)
  rw [show n + -1 + 1 = n by ring, if_neg h2] at this; exact this
theorem nzprod_pred0 (v : Int → K) {n : Int} (h : 0 < n) (h2 : v (n + -1) = 0) : nzprod n v = nzprod (n + -1) v := by
  have := nzprod_succ v (show 0 ≤ n + -1 by omega)
  rw [show n + -1 + 1 = n by ring, if_pos h2, mul_one] at this; exact this

theorem vanish_zero (xs : Int → K) : vanish 0 xs = 1 := by simp [vanish, iprod]
theorem vanish_succ (xs : Int → K) {n : Int} (h : 0 ≤ n) : vanish (n + 1) xs = vanish n xs * (X - C (xs n)) := by
  unfold vanish; rw [iprod_succ _ h]
theorem vanish_ne (xs : Int → K) (n : Int) : vanish n xs ≠ 0 := by
  unfold vanish; apply iprod_ne_zero; intro i _ _; exact X_sub_C_ne_zero _
theorem vanish_len (xs : Int → K) : ∀ n : Int, 0 ≤ n → plen (vanish n xs) = n + 1 := by
  apply int_induction
  · rw [vanish_zero, plen_one]; norm_num
  · intro n hn ih
    rw [vanish_succ _ hn, plen_mul (vanish_ne _ _) (X_sub_C_ne_zero _), ih]
    have : plen (X - C (xs n)) = 2 := by
      rw [plen, if_neg (X_sub_C_ne_zero _), natDegree_X_sub_C]; norm_num
    rw [this]; ring
theorem eval_vanish (xs : Int → K) (n : Int) (x : K) : eval x (vanish n xs) = iprod n fun i => x - xs i := by
  unfold vanish iprod; rw [eval_prod]; simp
theorem vanish_root (xs : Int → K) {n i : Int} (h0 : 0 ≤ i) (h1 : i < n) : eval (xs i) (vanish n xs) = 0 := by
  rw [eval_vanish]; unfold iprod
  apply Finset.prod_eq_zero (i := i.toNat) (by simp; omega)
  simp [Int.toNat_of_nonneg h0]
theorem lin_C (a : K) : pof 2 (fun i => if i = 0 then -a else 1) = X - C a := by
  apply pext; intro i hi
  rw [pc_pof _ _ hi, pc_sub, pc_X, pc_C]
  rcases lt_trichotomy i 1 with h | h | h
  · have : i = 0 := by omega
    subst this; simp
  · subst h; simp
  · simp [show ¬ i < 2 by omega, show i ≠ 1 by omega, show i ≠ 0 by omega]
/-- one step of the coefficient recurrence of zpoly -/
theorem zpoly_step (n : Int) (r xs : Int → K) (k : Int) (hn : 0 < n) (hk : 0 ≤ k) (h : pof n r = vanish k xs) (g : Int → K)
    (hg : ∀ i, 0 ≤ i → i < n + 1 → g i = (if i = 0 then 0 else r (i - 1)) - (if i < n then r i else 0) * xs k) :
    pof (n + 1) g = vanish (k + 1) xs := by
  rw [vanish_succ _ hk, ← h]
  apply pext; intro i hi
  rw [mul_sub, pc_sub, pc_pof _ _ hi, mul_comm _ (C _), pc_C_mul]
  have hX : pc (pof n r * X) i = if i = 0 then 0 else pc (pof n r) (i - 1) := by
    by_cases h0 : i = 0
    · subst h0; simp [pc]
    · rw [if_neg h0]; unfold pc; rw [if_pos hi, if_pos (by omega)]
      obtain ⟨m, rfl⟩ : ∃ m : ℕ, i = m + 1 := ⟨(i - 1).toNat, by omega⟩
      rw [show ((m : Int) + 1).toNat = m + 1 by omega, coeff_mul_X]; simp
  rw [hX, pc_pof _ _ hi]
  by_cases h0 : i = 0
  · subst h0; rw [if_pos (by omega), hg 0 le_rfl (by omega)]; simp; ring
  · rw [if_neg h0, pc_pof _ _ (show 0 ≤ i - 1 by omega)]
    by_cases h1 : i < n + 1
    · rw [if_pos h1, hg i hi h1, if_neg h0, if_pos (show i - 1 < n by omega)]; ring
    · rw [if_neg h1, if_neg (show ¬ i - 1 < n by omega), if_neg (show ¬ i < n by omega)]; ring
/-- the interpolant of points (x_i, y_i): sum of y_i prod_{j≠i} (X - x_j) / prod_{j≠i} (x_i - x_j) -/
noncomputable def basis (n : Int) (xs : Int → K) (i : Int) : K[X] := pquo (vanish n xs) (X - C (xs i))
noncomputable def lagn (n : Int) (xs ys : Int → K) : K[X] := isum n fun i => C (ys i * (eval (xs i) (basis n xs i))⁻¹) * basis n xs i
/-- the first k summands -/
noncomputable def lagp (n : Int) (xs ys : Int → K) (k : Int) : K[X] := isum k fun i => C (ys i * (eval (xs i) (basis n xs i))⁻¹) * basis n xs i
theorem lagp_zero (n : Int) (xs ys : Int → K) : lagp n xs ys 0 = 0 := by simp [lagp, isum]
theorem lagp_succ (n : Int) (xs ys : Int → K) {k : Int} (h : 0 ≤ k) : lagp n xs ys (k + 1) = lagp n xs ys k + C (ys k * (eval (xs k) (basis n xs k))⁻¹) * basis n xs k := by
  unfold lagp; rw [isum_succ _ h]
theorem pc_lagp_succ (n : Int) (xs ys : Int → K) {k : Int} (h : 0 ≤ k) (j : Int) : pc (lagp n xs ys (k + 1)) j = pc (lagp n xs ys k) j + ys k * (eval (xs k) (basis n xs k))⁻¹ * pc (basis n xs k) j := by
  rw [lagp_succ _ _ _ h, pc_add, pc_C_mul]
noncomputable def lag2 (x0 x1 y0 y1 : K) : K[X] := C (y0 * (x0 - x1)⁻¹) * (X - C x1) + C (y1 * (x1 - x0)⁻¹) * (X - C x0)
noncomputable def lagb (p q r : K) : K[X] := (X - C p) * (X - C q) * (X - C r)
noncomputable def lag4 (x0 x1 x2 x3 y0 y1 y2 y3 : K) : K[X] :=
  C (y0 * ((x0 - x1) * (x0 - x2) * (x0 - x3))⁻¹) * lagb x1 x2 x3 + C (y1 * ((x1 - x0) * (x1 - x2) * (x1 - x3))⁻¹) * lagb x0 x2 x3
  + C (y2 * ((x2 - x0) * (x2 - x1) * (x2 - x3))⁻¹) * lagb x0 x1 x3 + C (y3 * ((x3 - x0) * (x3 - x1) * (x3 - x2))⁻¹) * lagb x0 x1 x2
theorem isum2 {α : Type} [AddCommMonoid α] (f : Int → α) : isum 2 f = f 0 + f 1 := by
  simp [isum, Finset.sum_range_succ]
theorem isum4 {α : Type} [AddCommMonoid α] (f : Int → α) : isum 4 f = f 0 + f 1 + f 2 + f 3 := by
  simp [isum, Finset.sum_range_succ]
theorem eval_pof2 (f : Int → K) (x : K) : eval x (pof 2 f) = f 0 + f 1 * x := by
  rw [eval_pof, isum2]; simp [ipow]
theorem eval_pof4 (f : Int → K) (x : K) : eval x (pof 4 f) = f 0 + f 1 * x + f 2 * x ^ 2 + f 3 * x ^ 3 := by
  rw [eval_pof, isum4]; simp [ipow]
theorem eval_lin (x p : K) (f : Int → K) (h0 : f 0 = -p) (h1 : f 1 = 1) : eval x (pof 2 f) = x - p := by
  rw [eval_pof2, h0, h1]; ring
theorem eval_q (x p q r : K) (f : Int → K) (h0 : f 0 = -(p * q * r)) (h1 : f 1 = p * q + p * r + q * r) (h2 : f 2 = -(p + q + r)) (h3 : f 3 = 1) :
    eval x (pof 4 f) = (x - p) * (x - q) * (x - r) := by
  rw [eval_pof4, h0, h1, h2, h3]; ring
theorem lagb_pof (p q r : K) : lagb p q r = pof 4 (fun i => if i = 0 then -(p * q * r) else if i = 1 then p * q + p * r + q * r else if i = 2 then -(p + q + r) else 1) := by
  have e : lagb p q r = C (-(p * q * r)) + C (p * q + p * r + q * r) * X + C (-(p + q + r)) * X ^ 2 + X ^ 3 := by
    unfold lagb; simp only [C_neg, C_mul, C_add]; ring
  rw [e, pof, isum4]
  simp [← C_mul_X_pow_eq_monomial]
theorem lin_pof (p : K) : (X - C p : K[X]) = pof 2 (fun i => if i = 0 then -p else 1) := (lin_C p).symm
theorem pof2_eq {f g : Int → K} (h0 : f 0 = g 0) (h1 : f 1 = g 1) : pof 2 f = pof 2 g := by
  simp only [pof, isum2, h0, h1]
theorem pof4_eq {f g : Int → K} (h0 : f 0 = g 0) (h1 : f 1 = g 1) (h2 : f 2 = g 2) (h3 : f 3 = g 3) : pof 4 f = pof 4 g := by
  simp only [pof, isum4, h0, h1, h2, h3]
theorem lag2_pof (x0 x1 y0 y1 : K) : lag2 x0 x1 y0 y1 = pof 2 (fun i => if i = 0 then -x1 * (y0 * (x0 - x1)⁻¹) + -x0 * (y1 * (x1 - x0)⁻¹) else y0 * (x0 - x1)⁻¹ + y1 * (x1 - x0)⁻¹) := by
  unfold lag2; simp only [pof, isum2]
  simp [← C_mul_X_pow_eq_monomial]; ring
theorem lag4_pof (x0 x1 x2 x3 y0 y1 y2 y3 a b c d : K) (ha : a = y0 * ((x0 - x1) * (x0 - x2) * (x0 - x3))⁻¹) (hb : b = y1 * ((x1 - x0) * (x1 - x2) * (x1 - x3))⁻¹)
    (hc : c = y2 * ((x2 - x0) * (x2 - x1) * (x2 - x3))⁻¹) (hd : d = y3 * ((x3 - x0) * (x3 - x1) * (x3 - x2))⁻¹) :
    lag4 x0 x1 x2 x3 y0 y1 y2 y3 = pof 4 (fun i =>
      if i = 0 then -(x1 * x2 * x3) * a + -(x0 * x2 * x3) * b + -(x0 * x1 * x3) * c + -(x0 * x1 * x2) * d
      else if i = 1 then (x1 * x2 + x1 * x3 + x2 * x3) * a + (x0 * x2 + x0 * x3 + x2 * x3) * b + (x0 * x1 + x0 * x3 + x1 * x3) * c + (x0 * x1 + x0 * x2 + x1 * x2) * d
      else if i = 2 then -(x1 + x2 + x3) * a + -(x0 + x2 + x3) * b + -(x0 + x1 + x3) * c + -(x0 + x1 + x2) * d
      else a + b + c + d) := by
  unfold lag4; rw [← ha, ← hb, ← hc, ← hd]; simp only [pof, isum4, lagb]
  simp only [← C_mul_X_pow_eq_monomial]
  simp
  ring
theorem pc2_0 (f : Int → K) : pc (pof 2 f) 0 = f 0 := by rw [pc_pof _ _ le_rfl]; simp
theorem pc2_1 (f : Int → K) : pc (pof 2 f) 1 = f 1 := by rw [pc_pof _ _ (by norm_num)]; simp
theorem pc4_0 (f : Int → K) : pc (pof 4 f) 0 = f 0 := by rw [pc_pof _ _ le_rfl]; simp
theorem pc4_1 (f : Int → K) : pc (pof 4 f) 1 = f 1 := by rw [pc_pof _ _ (by norm_num)]; simp
theorem pc4_2 (f : Int → K) : pc (pof 4 f) 2 = f 2 := by rw [pc_pof _ _ (by norm_num)]; simp
theorem pc4_3 (f : Int → K) : pc (pof 4 f) 3 = f 3 := by rw [pc_pof _ _ (by norm_num)]; simp
theorem plen2 {f : Int → K} (h : f 1 ≠ 0) : plen (pof 2 f) = 2 := plen_pof ⟨by norm_num, Or.inr (by simpa using h)⟩
theorem plen4 {f : Int → K} (h : f 3 ≠ 0) : plen (pof 4 f) = 4 := plen_pof ⟨by norm_num, Or.inr (by simpa using h)⟩
/-- the specification's interpolants have the values asked for and the right degree -/
theorem lag2_spec {x0 x1 : K} (y0 y1 : K) (h : x1 ≠ x0) :
    plen (lag2 x0 x1 y0 y1) ≤ 2 ∧ eval x0 (lag2 x0 x1 y0 y1) = y0 ∧ eval x1 (lag2 x0 x1 y0 y1) = y1 := by
  refine ⟨by rw [lag2_pof]; exact plen_pof_le (by norm_num) _, ?_, ?_⟩ <;> unfold lag2 <;> simp
  · have := sub_ne_zero.2 h.symm; field_simp
  · have := sub_ne_zero.2 h; field_simp
theorem lag4_spec {x0 x1 x2 x3 : K} (y0 y1 y2 y3 : K) (h10 : x1 ≠ x0) (h20 : x2 ≠ x0) (h21 : x2 ≠ x1) (h30 : x3 ≠ x0) (h31 : x3 ≠ x1) (h32 : x3 ≠ x2) :
    plen (lag4 x0 x1 x2 x3 y0 y1 y2 y3) ≤ 4 ∧ eval x0 (lag4 x0 x1 x2 x3 y0 y1 y2 y3) = y0 ∧ eval x1 (lag4 x0 x1 x2 x3 y0 y1 y2 y3) = y1
      ∧ eval x2 (lag4 x0 x1 x2 x3 y0 y1 y2 y3) = y2 ∧ eval x3 (lag4 x0 x1 x2 x3 y0 y1 y2 y3) = y3 := by
  have a10 := sub_ne_zero.2 h10; have a20 := sub_ne_zero.2 h20; have a21 := sub_ne_zero.2 h21
  have a30 := sub_ne_zero.2 h30; have a31 := sub_ne_zero.2 h31; have a32 := sub_ne_zero.2 h32
  have b10 := sub_ne_zero.2 h10.symm; have b20 := sub_ne_zero.2 h20.symm; have b21 := sub_ne_zero.2 h21.symm
  have b30 := sub_ne_zero.2 h30.symm; have b31 := sub_ne_zero.2 h31.symm; have b32 := sub_ne_zero.2 h32.symm
  refine ⟨by rw [lag4_pof _ _ _ _ _ _ _ _ _ _ _ _ rfl rfl rfl rfl]; exact plen_pof_le (by norm_num) _, ?_, ?_, ?_, ?_⟩ <;> unfold lag4 lagb <;> simp <;> field_simp
theorem basis_mul (xs : Int → K) {n i : Int} (h0 : 0 ≤ i) (h1 : i < n) : basis n xs i * (X - C (xs i)) = vanish n xs := by
  have hd := mul_div_eq_iff_isRoot.2 (show IsRoot (vanish n xs) (xs i) from vanish_root xs h0 h1)
  unfold basis pquo; rw [mul_comm]; exact hd
theorem basis_eval (xs : Int → K) {n i : Int} (h0 : 0 ≤ i) (h1 : i < n) (x : K) : eval x (basis n xs i) * (x - xs i) = eval x (vanish n xs) := by
  rw [← basis_mul xs h0 h1]; simp
theorem basis_other (xs : Int → K) {n i j : Int} (h0 : 0 ≤ i) (h1 : i < n) (j0 : 0 ≤ j) (j1 : j < n) (hd : distinct n xs) (hij : i ≠ j) : eval (xs j) (basis n xs i) = 0 := by
  have := basis_eval xs h0 h1 (xs j)
  rw [vanish_root xs j0 j1] at this
  rcases mul_eq_zero.1 this with h | h
  · exact h
  · exact absurd (hd j i j0 j1 h0 h1 (sub_eq_zero.1 h)).symm hij
theorem basis_ne (xs : Int → K) {n i : Int} (h0 : 0 ≤ i) (h1 : i < n) (hd : distinct n xs) : eval (xs i) (basis n xs i) ≠ 0 := by
  intro h
  have h2 : IsRoot (basis n xs i) (xs i) := h
  obtain ⟨q, hq⟩ := dvd_iff_isRoot.2 h2
  have hv : vanish n xs = (X - C (xs i)) ^ 2 * q := by rw [← basis_mul xs h0 h1, hq]; ring
  have hn : (n.toNat : Int) = n := Int.toNat_of_nonneg (by omega)
  have hrest : vanish n xs = (X - C (xs i)) * ∏ k ∈ (Finset.range n.toNat).erase i.toNat, (X - C (xs k)) := by
    unfold vanish iprod
    rw [← Finset.mul_prod_erase (Finset.range n.toNat) _ (show i.toNat ∈ Finset.range n.toNat by simp; omega), Int.toNat_of_nonneg h0]
  have h3 : ∏ k ∈ (Finset.range n.toNat).erase i.toNat, (X - C (xs k)) = (X - C (xs i)) * q := by
    apply mul_left_cancel₀ (X_sub_C_ne_zero (xs i)); rw [← hrest, hv]; ring
  have h4 := congrArg (eval (xs i)) h3
  rw [eval_prod] at h4; simp at h4
  rw [Finset.prod_eq_zero_iff] at h4
  obtain ⟨k, hk, hk2⟩ := h4
  simp at hk
  have := hd i k h0 h1 (by omega) (by omega) (sub_eq_zero.1 hk2)
  omega
theorem basis_len (xs : Int → K) {n i : Int} (h0 : 0 ≤ i) (h1 : i < n) : plen (basis n xs i) = n := by
  have hb : basis n xs i ≠ 0 := by intro h; have := basis_mul xs h0 h1; rw [h, zero_mul] at this; exact vanish_ne xs n this.symm
  have h := plen_mul hb (X_sub_C_ne_zero (xs i))
  rw [basis_mul xs h0 h1, vanish_len xs n (by omega)] at h
  have : plen (X - C (xs i)) = 2 := by rw [plen, if_neg (X_sub_C_ne_zero _), natDegree_X_sub_C]; norm_num
  omega
theorem plen_isum {n m : Int} (f : Int → K[X]) (hm : 0 ≤ m) (h : ∀ i, 0 ≤ i → i < n → plen (f i) ≤ m) : plen (isum n f) ≤ m := by
  apply plen_le hm; intro j hj
  have : pc (isum n f) j = isum n fun i => pc (f i) j := by
    have hj0 : 0 ≤ j := by omega
    simp [pc, isum, hj0, finsetSum_coeff]
  rw [this]; apply isum_eq_zero; intro i h0 h1
  exact pc_of_ge ((h i h0 h1).trans hj)
theorem lagn_spec {n : Int} (xs ys : Int → K) (hn : 0 ≤ n) (hd : distinct n xs) :
    plen (lagn n xs ys) ≤ n ∧ ∀ i, 0 ≤ i → i < n → eval (xs i) (lagn n xs ys) = ys i := by
  constructor
  · apply plen_isum _ hn; intro i h0 h1
    by_cases hc : C (ys i * (eval (xs i) (basis n xs i))⁻¹) = 0
    · rw [hc, zero_mul, plen_zero]; exact hn
    · have hb : basis n xs i ≠ 0 := by rw [← plen_pos, basis_len xs h0 h1]; omega
      rw [plen_mul hc hb, basis_len xs h0 h1, plen_C (by intro h; apply hc; rw [h, C_0])]; omega
  · intro i h0 h1
    have e : eval (xs i) (lagn n xs ys) = isum n fun j => ys j * (eval (xs j) (basis n xs j))⁻¹ * eval (xs i) (basis n xs j) := by
      unfold lagn isum; rw [eval_finsetSum]; simp
    rw [e, isum_single _ h0 h1]
    · have := basis_ne xs h0 h1 hd; field_simp
    · intro j j0 j1 hij; rw [basis_other xs j0 j1 h0 h1 hd hij, mul_zero]
theorem basis_def (n : Int) (xs : Int → K) (k : Int) : pquo (vanish n xs) (pof 2 fun i => if i = 0 then -xs k else 1) = basis n xs k := by unfold basis; rw [lin_C]
theorem lagp_eq (n : Int) (xs ys : Int → K) : lagp n xs ys n = lagn n xs ys := rfl
theorem lagp_len (n : Int) (xs ys : Int → K) (hn : 0 ≤ n) : plen (lagn n xs ys) ≤ n := by
  apply plen_isum _ hn; intro i h0 h1
  by_cases hc : C (ys i * (eval (xs i) (basis n xs i))⁻¹) = 0
  · rw [hc, zero_mul, plen_zero]; exact hn
  · have hb : basis n xs i ≠ 0 := by rw [← plen_pos, basis_len xs h0 h1]; omega
    rw [plen_mul hc hb, basis_len xs h0 h1, plen_C (by intro h; apply hc; rw [h, C_0])]; omega
theorem lagn_of_coefs {n : Int} (xs ys : Int → K) (hn : 0 ≤ n) (f : Int → K) (h : ∀ i, 0 ≤ i ∧ i < n → f i = pc (lagp n xs ys n) i) : pof n f = lagn n xs ys := by
  apply pext; intro i hi
  rw [pc_pof _ _ hi]
  by_cases h1 : i < n
  · rw [if_pos h1, h i ⟨hi, h1⟩]; rfl
  · rw [if_neg h1, pc_of_ge]; exact (lagp_len n xs ys hn).trans (by omega)
theorem lagb_len (p q r : K) : plen (lagb p q r) = 4 := by rw [lagb_pof]; exact plen4 (by norm_num)
theorem lagb_c0 (p q r : K) : pc (lagb p q r) 0 = -(p * q * r) := by rw [lagb_pof, pc4_0]; norm_num
theorem lagb_c1 (p q r : K) : pc (lagb p q r) 1 = p * q + p * r + q * r := by rw [lagb_pof, pc4_1]; norm_num
theorem lagb_c2 (p q r : K) : pc (lagb p q r) 2 = -(p + q + r) := by rw [lagb_pof, pc4_2]; norm_num
theorem lagb_c3 (p q r : K) : pc (lagb p q r) 3 = 1 := by rw [lagb_pof, pc4_3]; norm_num
syntax "interp_auto" : tactic
macro_rules
  | `(tactic| interp_auto) => `(tactic| first
    | omega
    | (intro i hi; rw [show i = 0 by omega, nzprod_zero]; done)
    | exact nzprod_ne _ _
    | (rw [lin_C]; done)
    | (rw [lin_C]; exact Polynomial.X_sub_C_ne_zero _)
    | (rw [vanish_zero, show (1 : Polynomial _) = Polynomial.C 1 from Polynomial.C_1.symm]; simp [pof, isum]; done)
    | pv_auto)
