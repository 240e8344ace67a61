import Pv.Interp
import Pv.Cycle
import Mathlib.FieldTheory.Finite.Basic
import Mathlib.LinearAlgebra.Lagrange
/-! Discrete Fourier transform. -/
open Polynomial
variable {K : Type} [Field K]
/-- entry i of the transform of v_0 .. v_{n-1} at w -/
noncomputable def dft (n : Int) (w : K) (v : Int → K) (i : Int) : K := isum n fun j => v j * ipow w (i * j)
theorem dft_eval (n : Int) (w : K) (v : Int → K) {i : Int} (hi : 0 ≤ i) : dft n w v i = eval (ipow w i) (pof n v) := by
  rw [eval_pof]; unfold dft
  apply isum_congr; intro j hj _
  congr 1
  unfold ipow; rw [← pow_mul]; congr 1
  rw [Int.toNat_mul hi hj]
/-- f lists the powers 0 .. n-1 of an element whose n/2-th power is -1 -/
def fftroots (n : Int) (f : Int → K) : Prop :=
  ispow2 n ∧ (∀ i, 0 ≤ i → i < n → f i = ipow (f (1 % n)) i) ∧ ipow (f (1 % n)) n = 1 ∧ (1 < n → ipow (f (1 % n)) (n / 2) = -1)
/-- the element whose powers are listed -/
def froot (n : Int) (f : Int → K) : K := f (1 % n)
theorem ipow_mul' (x : K) {a b : Int} (ha : 0 ≤ a) (hb : 0 ≤ b) : ipow (ipow x a) b = ipow x (a * b) := by
  unfold ipow; rw [← pow_mul, Int.toNat_mul ha hb]
theorem ipow_mod (x : K) {n a : Int} (hn : 0 < n) (h1 : ipow x n = 1) (ha : 0 ≤ a) : ipow x (a % n) = ipow x a := by
  have e := Int.emod_add_mul_ediv a n
  have hm := Int.emod_nonneg a (show n ≠ 0 by omega)
  have hq : 0 ≤ a / n := Int.ediv_nonneg ha hn.le
  conv_rhs => rw [← e]
  rw [ipow_add _ hm (mul_nonneg hn.le hq), ← ipow_mul' x hn.le hq, h1]
  unfold ipow; rw [one_pow, mul_one]
theorem simple_dft {n : Int} (f v : Int → K) (h : fftroots n f) {i : Int} (hi : 0 ≤ i) :
    isum n (fun j => v j * f (i * j % n)) = dft n (froot n f) v i := by
  obtain ⟨h2, hf, h1, _⟩ := h
  have hn := ispow2_pos h2
  unfold dft froot
  apply isum_congr; intro j hj _
  rw [hf _ (Int.emod_nonneg _ (by omega)) (Int.emod_lt_of_pos _ hn), ipow_mod _ hn h1 (mul_nonneg hi hj)]
theorem ispow2_div {n : Int} (h : ispow2 n) (h2 : 2 ≤ n) : ispow2 (n / 2) := (ispow2_even (by have := ispow2_half h h2; omega)).2 h
theorem fftroots_half {n m : Int} (f g : Int → K) (h : fftroots n f) (h4 : 4 ≤ n) (hm : 2 * m = n) (hg : ∀ i, 0 ≤ i → i < m → g i = f (2 * i)) : fftroots m g ∧ froot m g = froot n f * froot n f := by
  obtain ⟨h2, hf, h1, hh⟩ := h
  have hm' : m = n / 2 := by omega
  have e1 : (1:Int) % m = 1 := Int.emod_eq_of_lt (by omega) (by omega)
  have e2 : (1:Int) % n = 1 := Int.emod_eq_of_lt (by omega) (by omega)
  have hw : froot m g = froot n f * froot n f := by
    unfold froot; rw [e1, e2, hg 1 (by omega) (by omega), hf (2 * 1) (by omega) (by omega), e2]
    simp [ipow, pow_two]
  have hsq : ∀ a : Int, 0 ≤ a → ipow (froot m g) a = ipow (froot n f) (2 * a) := by
    intro a ha
    rw [hw, ← ipow_mul' _ (by omega) ha]; congr 1; simp [ipow, pow_two]
  refine ⟨⟨hm' ▸ ispow2_div h2 (by omega), ?_, ?_, ?_⟩, hw⟩
  · intro i h0 hi
    have := hsq i h0
    unfold froot at this
    rw [hg i h0 hi, hf _ (by omega) (by omega), this]
  · have := hsq m (by omega)
    unfold froot at this
    rw [this, hm]; exact h1
  · intro hm1
    have := hsq (m / 2) (by omega)
    unfold froot at this
    have h4' : 2 * (m / 2) = m := ispow2_half (hm' ▸ ispow2_div h2 (by omega)) (by omega)
    rw [this, h4', hm']; exact hh (by omega)
/-- the radix-2 step -/
theorem dft_step {n m : Int} (w : K) (v ve vo : Int → K) (hm0 : 0 ≤ m) (hm : 2 * m = n) (he : ∀ j, 0 ≤ j → j < m → ve j = v (2 * j)) (ho : ∀ j, 0 ≤ j → j < m → vo j = v (2 * j + 1)) {i : Int} (hi : 0 ≤ i) :
    dft n w v i = dft m (w * w) ve i + dft m (w * w) vo i * ipow w i := by
  unfold dft
  rw [← hm, isum_parity _ hm0, ← isum_mul_right]
  congr 1
  · apply isum_congr; intro j h0 h1
    rw [he j h0 h1]; congr 1
    rw [show w * w = ipow w 2 by simp [ipow, pow_two], ipow_mul' _ (by omega) (mul_nonneg hi h0)]; congr 1; ring
  · apply isum_congr; intro j h0 h1
    rw [ho j h0 h1, mul_assoc]; congr 1
    rw [show w * w = ipow w 2 by simp [ipow, pow_two], ipow_mul' _ (by omega) (mul_nonneg hi h0), ← ipow_add _ (by positivity) hi]; congr 1; ring
theorem dft_period {m : Int} (w : K) (v : Int → K) (hm : 0 ≤ m) (h1 : ipow w m = 1) {i : Int} (hi : 0 ≤ i) : dft m w v (i + m) = dft m w v i := by
  unfold dft; apply isum_congr; intro j h0 _; congr 1
  rw [add_mul, ipow_add _ (mul_nonneg hi h0) (mul_nonneg hm h0), ← ipow_mul' w hm h0, h1]
  unfold ipow; rw [one_pow, mul_one]
theorem fft_low {n m : Int} (f v ve vo : Int → K) (h : fftroots n f) (h4 : 4 ≤ n) (hm : 2 * m = n) (he : ∀ j, 0 ≤ j → j < m → ve j = v (2 * j)) (ho : ∀ j, 0 ≤ j → j < m → vo j = v (2 * j + 1))
    {w' : K} (hw : w' = froot n f * froot n f) {i : Int} (hi : 0 ≤ i) (hi2 : i < m) : dft m w' ve i + dft m w' vo i * f i = dft n (froot n f) v i := by
  obtain ⟨_, hf, _, _⟩ := h
  rw [dft_step (froot n f) v ve vo (by omega) hm he ho hi, hw, hf i hi (by omega)]; rfl
theorem fft_high {n m : Int} (f v ve vo : Int → K) (h : fftroots n f) (h4 : 4 ≤ n) (hm : 2 * m = n) (he : ∀ j, 0 ≤ j → j < m → ve j = v (2 * j)) (ho : ∀ j, 0 ≤ j → j < m → vo j = v (2 * j + 1))
    {w' : K} (hw : w' = froot n f * froot n f) {i : Int} (hi : 0 ≤ i) (hi2 : i < m) : dft m w' ve i - dft m w' vo i * f i = dft n (froot n f) v (i + m) := by
  obtain ⟨_, hf, h1, hh⟩ := h
  have hw1 : ipow (froot n f * froot n f) m = 1 := by
    have e : ipow (froot n f * froot n f) m = ipow (ipow (froot n f) 2) m := by congr 1; simp [ipow, pow_two]
    rw [e, ipow_mul' _ (by omega) (by omega), hm]; exact h1
  rw [dft_step (froot n f) v ve vo (by omega) hm he ho (show 0 ≤ i + m by omega), dft_period _ _ (by omega) hw1 hi, dft_period _ _ (by omega) hw1 hi, ipow_add _ hi (by omega)]
  have : ipow (froot n f) m = -1 := by rw [show m = n / 2 by omega]; exact hh (by omega)
  rw [this, hw, hf i hi (by omega)]; unfold froot; ring
/-- w has order exactly n -/
def primroot (n : Int) (w : K) : Prop := ispow2 n ∧ ipow w n = 1 ∧ ∀ i, 0 < i → i < n → ipow w i ≠ 1
theorem primroot_half {n : Int} {w : K} (h : primroot n w) (h1 : 1 < n) : ipow w (n / 2) = -1 ∧ (2 : K) ≠ 0 := by
  obtain ⟨h2, hn, ho⟩ := h
  have e := ispow2_half h2 (by omega)
  have hne := ho (n / 2) (by omega) (by omega)
  have hsq : ipow w (n / 2) * ipow w (n / 2) = 1 := by
    rw [← ipow_add _ (by omega) (by omega), show n / 2 + n / 2 = n by omega, hn]
  rcases mul_self_eq_one_iff.1 hsq with h | h
  · exact absurd h hne
  · refine ⟨h, ?_⟩; intro h2z; apply hne; rw [h]
    linear_combination (-1 : K) * h2z
theorem primroot_ne {n : Int} {w : K} (h : primroot n w) : ((n : Int) : K) ≠ 0 := by
  obtain ⟨k, hk⟩ := h.1
  rcases k with _ | k
  · rw [hk]; simp
  · have h1 : 1 < n := by
      rw [hk]; exact_mod_cast Nat.one_lt_pow (by omega) (by omega)
    rw [hk]; push_cast; exact pow_ne_zero _ (primroot_half h h1).2
theorem primroot_w {n : Int} {w : K} (h : primroot n w) : w ≠ 0 := by
  rintro rfl
  have := h.2.1; unfold ipow at this
  rw [zero_pow (by have := ispow2_pos h.1; omega)] at this; exact zero_ne_one this
theorem primroot_fft {n : Int} {w : K} (f : Int → K) (h : primroot n w) (hf : ∀ i, 0 ≤ i → i < n → f i = ipow w i) : fftroots n f ∧ froot n f = (if n = 1 then 1 else w) := by
  have hp := ispow2_pos h.1
  have e : froot n f = if n = 1 then 1 else w := by
    unfold froot
    by_cases h1 : n = 1
    · subst h1; simp [hf, ipow]
    · rw [if_neg h1, Int.emod_eq_of_lt (by omega) (by omega), hf 1 (by omega) (by omega)]; simp [ipow]
  refine ⟨⟨h.1, ?_, ?_, ?_⟩, e⟩
  · intro i h0 hi; change f i = ipow (froot n f) i; rw [e, hf i h0 hi]
    split_ifs with h1
    · have : i = 0 := by omega
      subst this; simp [ipow]
    · rfl
  · change ipow (froot n f) n = 1; rw [e]; split_ifs with h1
    · subst h1; simp [ipow]
    · exact h.2.1
  · intro h1; change ipow (froot n f) (n / 2) = -1; rw [e, if_neg (by omega)]; exact (primroot_half h h1).1
theorem primroot_inv {n : Int} {w : K} (h : primroot n w) : primroot n w⁻¹ := by
  have e : ∀ i, ipow w⁻¹ i = (ipow w i)⁻¹ := by intro i; simp [ipow]
  refine ⟨h.1, ?_, ?_⟩
  · rw [e, h.2.1, inv_one]
  · intro i h0 h1; rw [e]; intro h2; exact h.2.2 i h0 h1 (by rw [← inv_inv (ipow w i), h2, inv_one])
theorem primroot_rev {n : Int} {w : K} (h : primroot n w) {i : Int} (h0 : 0 ≤ i) (h1 : i ≤ n) : ipow w (n - i) = ipow w⁻¹ i := by
  have e : ipow w⁻¹ i = (ipow w i)⁻¹ := by simp [ipow]
  rw [e]; apply eq_inv_of_mul_eq_one_left
  rw [← ipow_add _ (by omega) h0, show n - i + i = n by ring, h.2.1]
/-- orthogonality -/
theorem geom_zero {n : Int} {w : K} (h : primroot n w) {d : Int} (hd : 0 < d) (hd2 : d < n) : isum n (fun j => ipow w (d * j)) = 0 := by
  have hn := ispow2_pos h.1
  have h1 := h.2.2 d hd hd2
  have e : isum n (fun j => ipow w (d * j)) = ∑ j ∈ Finset.range n.toNat, (ipow w d) ^ j := by
    unfold isum; apply Finset.sum_congr rfl; intro j _
    show w ^ (d * (j:Int)).toNat = (w ^ d.toNat) ^ j
    rw [← pow_mul, Int.toNat_mul hd.le (by omega), Int.toNat_natCast]
  have g := geom_sum_mul (ipow w d) n.toNat
  have h2 : (ipow w d) ^ n.toNat = 1 := by
    have : ipow (ipow w d) n = 1 := by
      rw [ipow_mul' _ hd.le hn.le, mul_comm, ← ipow_mul' _ hn.le hd.le, h.2.1]; simp [ipow]
    exact this
  rw [h2, sub_self] at g
  rw [e]
  rcases mul_eq_zero.1 g with h3 | h3
  · exact h3
  · exact absurd (sub_eq_zero.1 h3) h1
theorem dft_inv {n : Int} {w : K} (h : primroot n w) (v : Int → K) {i : Int} (h0 : 0 ≤ i) (h1 : i < n) :
    dft n w (fun k => dft n w⁻¹ v k) i = ((n : Int) : K) * v i := by
  have hn := ispow2_pos h.1
  have hw := primroot_w h
  unfold dft
  have : ∀ k, isum n (fun j => v j * ipow w⁻¹ (k * j)) * ipow w (i * k) = isum n (fun j => v j * ipow w⁻¹ (k * j) * ipow w (i * k)) := by
    intro k; rw [isum_mul_right]
  simp only [this]
  rw [isum_comm, isum_single _ h0 h1]
  · rw [isum_congr (g := fun _ => v i)]
    · rw [isum_const' hn.le]
    · intro k hk _
      rw [mul_assoc, mul_comm k i, show ipow w⁻¹ (i * k) = (ipow w (i * k))⁻¹ by simp [ipow], inv_mul_cancel₀ (by unfold ipow; exact pow_ne_zero _ hw), mul_one]
  · intro j j0 j1 hij
    have hpow : ∀ a : Int, ipow w a ≠ 0 := fun a => by unfold ipow; exact pow_ne_zero _ hw
    rcases lt_or_gt_of_ne hij with hlt | hlt
    · rw [isum_congr (g := fun k => v j * ipow w ((i - j) * k)), isum_mul_left, geom_zero h (by omega) (by omega), mul_zero]
      intro k hk _
      rw [mul_assoc]; congr 1
      rw [show i * k = (i - j) * k + k * j by ring, ipow_add _ (mul_nonneg (by omega) hk) (mul_nonneg hk j0), show ipow w⁻¹ (k * j) = (ipow w (k * j))⁻¹ by simp [ipow]]
      field_simp [hpow (k * j)]
    · rw [isum_congr (g := fun k => v j * ipow w⁻¹ ((j - i) * k)), isum_mul_left, geom_zero (primroot_inv h) (by omega) (by omega), mul_zero]
      intro k hk _
      rw [mul_assoc]; congr 1
      rw [show k * j = (j - i) * k + i * k by ring, ipow_add _ (mul_nonneg (by omega) hk) (mul_nonneg h0 hk), show ipow w⁻¹ (i * k) = (ipow w (i * k))⁻¹ by simp [ipow]]
      rw [mul_assoc, inv_mul_cancel₀ (hpow _), mul_one]

theorem froot_prim {n : Int} {w : K} (f : Int → K) (h : primroot n w) (hf : ∀ i, 0 ≤ i → i < n → f i = ipow w i) : froot n f = w := by
  rw [(primroot_fft f h hf).2]; split_ifs with h1
  · subst h1; have := h.2.1; simpa [ipow] using this.symm
  · rfl
theorem primroot_inj {n : Int} {w : K} (h : primroot n w) {i j : Int} (i0 : 0 ≤ i) (i1 : i < n) (j0 : 0 ≤ j) (j1 : j < n) (e : ipow w i = ipow w j) : i = j := by
  have hn := ispow2_pos h.1
  rcases lt_trichotomy i j with hl | hl | hl
  · exact absurd e (pow_inj hn h.2.1 (fun i hi => h.2.2 i hi.1 hi.2) i0 hl j1)
  · exact hl
  · exact absurd e.symm (pow_inj hn h.2.1 (fun i hi => h.2.2 i hi.1 hi.2) j0 hl i1)
/-- division by the length -/
theorem fermat_inv {p n : Int} (hp : Prime p) (h1 : 1 < p) (h0 : 0 ≤ n) (hpK : ((p : Int) : K) = 0) (hn : ((n : Int) : K) ≠ 0) :
    ((ipow n (p + -2) % p : Int) : K) = ((n : Int) : K)⁻¹ := by
  have hcop : IsCoprime n p := by
    refine ((Prime.coprime_iff_not_dvd hp).2 ?_).symm
    rintro ⟨c, rfl⟩; apply hn; push_cast; rw [hpK, zero_mul]
  have hpn : Nat.Prime p.natAbs := Int.prime_iff_natAbs_prime.1 hp
  have hcop' : IsCoprime n (p.natAbs : Int) := by rwa [Int.natAbs_of_nonneg (by omega)]
  have f := Int.ModEq.pow_card_sub_one_eq_one hpn hcop'
  rw [Int.natAbs_of_nonneg (show (0:Int) ≤ p by omega)] at f
  apply eq_inv_of_mul_eq_one_left
  have e : (ipow n (p + -2) % p : Int) * n ≡ 1 [ZMOD p] := by
    refine ((Int.mod_modEq _ _).mul_right n).trans ?_
    have : ipow n (p + -2) * n = n ^ (p.natAbs - 1) := by
      unfold ipow; rw [← pow_succ]; congr 1; omega
    rw [this]; exact f
  obtain ⟨c, hc⟩ := e.symm.dvd
  have : (ipow n (p + -2) % p : Int) * n = 1 + p * c := by linear_combination hc
  have e2 := congrArg (Int.cast : Int → K) this
  push_cast at e2
  rw [hpK, zero_mul, add_zero] at e2
  exact_mod_cast e2
theorem dft_congr {n : Int} {w : K} {u v : Int → K} (h : ∀ j, 0 ≤ j → j < n → u j = v j) (i : Int) : dft n w u i = dft n w v i := by
  unfold dft; apply isum_congr; intro j h0 h1; rw [h j h0 h1]
theorem pof_pad {n m : Int} (u v : Int → K) (hm : m ≤ n) (h : ∀ i, 0 ≤ i → i < m → u i = v i) (hz : ∀ i, 0 ≤ i → m ≤ i → i < n → u i = 0) : pof n u = pof m v := by
  apply Polynomial.ext; intro k
  have a := pc_pof n u (show (0:Int) ≤ k by omega)
  have b := pc_pof m v (show (0:Int) ≤ k by omega)
  have c : ∀ p : K[X], pc p (k : Int) = p.coeff k := by intro p; unfold pc; simp
  rw [c] at a b; rw [a, b]
  split_ifs with h1 h2 h2
  · exact h _ (by omega) h2
  · exact hz _ (by omega) (by omega) h1
  · omega
  · rfl
/-- the transform evaluates at the powers of the root -/
theorem fft_forward {n m : Int} {w : K} (f u v : Int → K) (h : primroot n w) (hf : ∀ i, 0 ≤ i → i < n → f i = ipow w i) (hm : m ≤ n) (hu : ∀ i, 0 ≤ i → i < m → u i = v i) (hz : ∀ i, 0 ≤ i → m ≤ i → i < n → u i = 0)
    {i : Int} (hi : 0 ≤ i) : dft n (froot n f) u i = eval (ipow w i) (pof m v) := by
  rw [froot_prim f h hf, dft_eval _ _ _ hi, pof_pad u v hm hu hz]
/-- the inverse transform interpolates -/
theorem fft_backward {n : Int} {w : K} (f u v r : Int → K) (h : primroot n w) (hf : ∀ i, 0 ≤ i → i < n → f i = ipow w (n - i)) (hu : ∀ i, 0 ≤ i → i < n → u i = v i)
    (hr : ∀ i, 0 ≤ i → i < n → r i = dft n (froot n f) u i * ((n : Int) : K)⁻¹) {i : Int} (h0 : 0 ≤ i) (h1 : i < n) : eval (ipow w i) (pof n r) = v i := by
  have e : froot n f = w⁻¹ := froot_prim f (primroot_inv h) (fun i a b => by rw [hf i a b, primroot_rev h a b.le])
  rw [← dft_eval _ _ _ h0]
  have hn := primroot_ne h
  have e2 : dft n w r i = dft n w (fun k => dft n w⁻¹ v k) i * ((n : Int) : K)⁻¹ := by
    unfold dft; rw [← isum_mul_right]; apply isum_congr; intro j a b
    rw [hr j a b, e, dft_congr hu]; unfold dft; ring
  rw [e2, dft_inv h v h0 h1]; field_simp
/-- a polynomial of degree below n is determined by its values at the powers of a primitive root -/
theorem fft_unique {n : Int} {w : K} (h : primroot n w) (p q : K[X]) (hp : plen p ≤ n) (hq : plen q ≤ n) (he : ∀ i, 0 ≤ i → i < n → eval (ipow w i) p = eval (ipow w i) q) : p = q := by
  have hn := ispow2_pos h.1
  have deg : ∀ p : K[X], plen p ≤ n → p.degree < ((Finset.range n.toNat).card : WithBot ℕ) := by
    intro p hp
    rw [Finset.card_range, degree_lt_iff_coeff_zero]
    intro k hk
    by_contra hc
    have := le_natDegree_of_ne_zero hc
    have h0 : p ≠ 0 := by rintro rfl; simp at hc
    unfold plen at hp; rw [if_neg h0] at hp; omega
  refine eq_of_degrees_lt_of_eval_index_eq (Finset.range n.toNat) (v := fun j : ℕ => ipow w (j : Int)) ?_ (deg p hp) (deg q hq) ?_
  · intro i hi j hj e
    have := Finset.mem_coe.1 hi; have := Finset.mem_coe.1 hj
    rw [Finset.mem_range] at *
    exact_mod_cast primroot_inj h (by omega) (by omega) (by omega) (by omega) e
  · intro i hi; rw [Finset.mem_range] at hi
    exact he _ (by omega) (by omega)
/-- agreement at the powers of a primitive root is congruence modulo x^n - 1 -/
theorem fft_congr {n : Int} {w : K} (h : primroot n w) (p q : K[X]) (he : ∀ i, 0 ≤ i → i < n → eval (ipow w i) p = eval (ipow w i) q) : (X ^ n.toNat - 1 : K[X]) ∣ p - q := by
  have hn := ispow2_pos h.1
  have hm : (X ^ n.toNat - 1 : K[X]).Monic := monic_X_pow_sub_C (1 : K) (by omega)
  rw [← (modByMonic_eq_zero_iff_dvd hm)]
  apply fft_unique h
  · have hl := degree_modByMonic_lt (p - q) hm
    have : (X ^ n.toNat - 1 : K[X]).degree = n.toNat := degree_X_pow_sub_C (by omega) (1 : K)
    rw [this] at hl
    have hl := (degree_lt_iff_coeff_zero _ _).1 hl
    exact plen_le hn.le (fun i hi => by
      unfold pc; split_ifs <;> first | rfl | exact hl _ (by omega))
  · simp [plen]; omega
  · intro i a b
    have root : eval (ipow w i) (X ^ n.toNat - 1 : K[X]) = 0 := by
      have e : ipow (ipow w i) n = 1 := by rw [ipow_mul' _ a hn.le, mul_comm, ← ipow_mul' _ hn.le a, h.2.1]; simp [ipow]
      simp only [eval_sub, eval_pow, eval_X, eval_one]
      unfold ipow at e ⊢; rw [e, sub_self]
    have := modByMonic_add_div (p - q) (X ^ n.toNat - 1 : K[X])
    have := congrArg (eval (ipow w i)) this
    rw [eval_add, eval_mul, root, zero_mul, add_zero, eval_sub, he i a b, sub_self] at this
    rw [this]; simp
theorem rootz_init (w : K) : ∀ i : Int, 0 ≤ i ∧ i < 2 → (if i = 0 then 1 else w) = ipow w i := cycle_init w
theorem rootz_step {m : Int} {f : Int → K} (w : K) (h2 : 2 ≤ m) (h : ∀ i, 0 ≤ i ∧ i < m → f i = ipow w i) : ∀ i, 0 ≤ i ∧ i < m + 1 → (if i < m then f i else f (m + -1) * w) = ipow w i := by
  intro i hi
  split_ifs with h1
  · exact h i ⟨hi.1, h1⟩
  · have e : i = m := by omega
    subst e; rw [h (i + -1) (by omega), ← ipow_last _ (by omega)]
theorem rootz_len {n m : Int} {f : Int → K} {w : K} (hp : primroot n w) (h2 : 2 ≤ m) (h : m ≤ n + 1) (hf : ∀ i, 0 ≤ i ∧ i < m → f i = ipow w i) (hc : f (m + -1) ≠ 1) : 2 ≤ m + 1 ∧ m + 1 ≤ n + 1 := by
  refine ⟨by omega, ?_⟩
  by_contra hb
  apply hc; rw [hf _ (by omega), show m + -1 = n by omega]; exact hp.2.1
theorem rootz_end {n m : Int} {f : Int → K} {w : K} (hp : primroot n w) (h2 : 2 ≤ m) (h : m ≤ n + 1) (hf : ∀ i, 0 ≤ i ∧ i < m → f i = ipow w i) (hc : f (m + -1) = 1) : m = n + 1 := by
  by_contra hb
  rw [hf _ (by omega)] at hc
  exact hp.2.2 _ (by omega) (by omega) hc
theorem fft_split {n : Int} {f : Int → K} (h : fftroots n f) (h4 : 2 ≤ n) : 2 * ((n + 1) / 2) = n := by
  have := ispow2_half h.1 h4; omega
theorem fftroots_rev {n : Int} {w : K} {f : Int → K} (h : primroot n w) (hf : ∀ i, 0 ≤ i → i < n → f i = ipow w (n - i)) : fftroots n f :=
  (primroot_fft f (primroot_inv h) (fun i a b => by rw [hf i a b, primroot_rev h a b.le])).1
syntax "fft_auto" : tactic
macro_rules
  | `(tactic| fft_auto) => `(tactic| first
    | omega
    | (intro i hi; exact simple_dft _ _ (by assumption) hi.1)
    | pv_auto)
