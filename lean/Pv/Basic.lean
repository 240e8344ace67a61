import Mathlib.Tactic
import Mathlib.Algebra.BigOperators.Ring.Finset
import Mathlib.Algebra.BigOperators.Intervals
/-! Vocabulary of the verification conditions. -/
open Finset

/-- x ^ n for an integer exponent (n ≥ 0). -/
def ipow {α : Type*} [Monoid α] (x : α) (n : Int) : α := x ^ n.toNat
/-- Σ_{0 ≤ i < n} f i -/
def isum {α : Type*} [AddCommMonoid α] (n : Int) (f : Int → α) : α := ∑ i ∈ range n.toNat, f i
/-- Π_{0 ≤ i < n} f i -/
def iprod {α : Type*} [CommMonoid α] (n : Int) (f : Int → α) : α := ∏ i ∈ range n.toNat, f i
/-- n-fold iteration of f from v. -/
def irec {α : Type*} (n : Int) (f : Int → α → α) (v : α) : α := Nat.rec v (fun j w => f j w) n.toNat
def iabs (x : Int) : Int := |x|

section
variable {α : Type*}

theorem toNat_succ {n : Int} (h : 0 ≤ n) : (n + 1).toNat = n.toNat + 1 := by omega

@[simp] theorem ipow_zero [Monoid α] (x : α) : ipow x 0 = 1 := by simp [ipow]
@[simp] theorem ipow_one [Monoid α] (x : α) : ipow x 1 = x := by simp [ipow]
theorem ipow_succ [Monoid α] (x : α) {n : Int} (h : 0 ≤ n) : ipow x (n + 1) = ipow x n * x := by
  simp [ipow, toNat_succ h, pow_succ]
theorem ipow_succ' [Monoid α] (x : α) {n : Int} (h : 0 ≤ n) : ipow x (n + 1) = x * ipow x n := by
  simp [ipow, toNat_succ h, pow_succ']
theorem ipow_add [Monoid α] (x : α) {m n : Int} (h : 0 ≤ m) (h' : 0 ≤ n) : ipow x (m + n) = ipow x m * ipow x n := by
  simp [ipow, Int.toNat_add h h', pow_add]
theorem ipow_mul [Monoid α] (x : α) {m n : Int} (h : 0 ≤ m) (h' : 0 ≤ n) : ipow x (m * n) = ipow (ipow x m) n := by
  simp [ipow, Int.toNat_mul h h', pow_mul]
theorem ipow_nonneg {x n : Int} (h : 0 ≤ x) : 0 ≤ ipow x n := pow_nonneg h _
theorem ipow_pos {x n : Int} (h : 0 < x) : 0 < ipow x n := pow_pos h _
theorem ipow_nat [Monoid α] (x : α) (n : ℕ) : ipow x (n : Int) = x ^ n := by simp [ipow]
theorem ipow_cast [Ring α] (x n : Int) : ((ipow x n : Int) : α) = ipow (x : α) n := by simp [ipow]
@[simp] theorem one_ipow [Monoid α] (n : Int) : ipow (1 : α) n = 1 := by simp [ipow]
theorem ipow_two [Monoid α] (x : α) : ipow x 2 = x * x := by simp [ipow, pow_two]
theorem ipow_even [Monoid α] (x : α) {n : Int} (h : 0 ≤ n) (h2 : n % 2 = 0) : ipow x n = ipow (x * x) (n / 2) := by
  rw [← ipow_two, ← ipow_mul x (by norm_num) (by omega)]; congr 1; omega
theorem ipow_odd [Monoid α] (x : α) {n : Int} (h : 0 ≤ n) (h2 : n % 2 ≠ 0) : ipow x n = x * ipow (x * x) (n / 2) := by
  rw [← ipow_two, ← ipow_mul x (by norm_num) (by omega), ← ipow_succ' x (by omega)]; congr 1; omega

theorem isum_of_nonpos [AddCommMonoid α] {n : Int} (f : Int → α) (h : n ≤ 0) : isum n f = 0 := by
  simp [isum, Int.toNat_of_nonpos h]
@[simp] theorem isum_zero [AddCommMonoid α] (f : Int → α) : isum 0 f = 0 := isum_of_nonpos f le_rfl
theorem isum_succ [AddCommMonoid α] {n : Int} (f : Int → α) (h : 0 ≤ n) : isum (n + 1) f = isum n f + f n := by
  simp [isum, toNat_succ h, sum_range_succ, Int.toNat_of_nonneg h]
theorem isum_succ' [AddCommMonoid α] {n : Int} (f : Int → α) (h : 0 < n) : isum n f = isum (n - 1) f + f (n - 1) := by
  have := isum_succ f (n := n - 1) (by omega); simpa using this
theorem isum_congr [AddCommMonoid α] {n : Int} {f g : Int → α} (h : ∀ i, 0 ≤ i → i < n → f i = g i) : isum n f = isum n g := by
  refine sum_congr rfl fun i hi => h i (by positivity) ?_
  have := mem_range.1 hi; omega
theorem isum_add [AddCommMonoid α] (n : Int) (f g : Int → α) : isum n (fun i => f i + g i) = isum n f + isum n g := by
  simp [isum, sum_add_distrib]
theorem isum_mul_left [NonUnitalNonAssocSemiring α] (n : Int) (f : Int → α) (c : α) : isum n (fun i => c * f i) = c * isum n f := by
  simp [isum, mul_sum]
theorem isum_mul_right [NonUnitalNonAssocSemiring α] (n : Int) (f : Int → α) (c : α) : isum n (fun i => f i * c) = isum n f * c := by
  simp [isum, sum_mul]
theorem isum_comm [AddCommMonoid α] (n m : Int) (f : Int → Int → α) :
    isum n (fun i => isum m (fun j => f i j)) = isum m (fun j => isum n (fun i => f i j)) := by
  simp only [isum]; exact sum_comm
theorem isum_zero_fn [AddCommMonoid α] (n : Int) : isum n (fun _ => (0 : α)) = 0 := by simp [isum]
theorem isum_eq_zero [AddCommMonoid α] {n : Int} {f : Int → α} (h : ∀ i, 0 ≤ i → i < n → f i = 0) : isum n f = 0 := by
  rw [isum_congr h, isum_zero_fn]
theorem isum_single [AddCommMonoid α] {n j : Int} (f : Int → α) (h0 : 0 ≤ j) (h1 : j < n) (h : ∀ i, 0 ≤ i → i < n → i ≠ j → f i = 0) : isum n f = f j := by
  unfold isum
  rw [Finset.sum_eq_single_of_mem j.toNat (by rw [mem_range]; omega)]
  · rw [Int.toNat_of_nonneg h0]
  · intro b hb hne
    apply h
    · positivity
    · have := mem_range.1 hb; omega
    · omega
theorem isum_ite_eq [AddCommMonoid α] {n j : Int} (f : Int → α) (h0 : 0 ≤ j) (h1 : j < n) : isum n (fun i => if i = j then f i else 0) = f j := by
  rw [isum_single _ h0 h1]; · simp
  · intro i _ _ hne; simp [hne]
theorem isum_split [AddCommMonoid α] {n m : Int} (f : Int → α) (h0 : 0 ≤ m) (h1 : m ≤ n) :
    isum n f = isum m f + isum (n - m) (fun i => f (m + i)) := by
  obtain ⟨a, rfl⟩ := Int.eq_ofNat_of_zero_le h0
  obtain ⟨b, hb⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ n - a by omega)
  obtain rfl : n = (a : Int) + b := by omega
  have h2 : ((a : Int) + b).toNat = a + b := by omega
  simp [isum, h2, sum_range_add]
theorem isum_parity [AddCommMonoid α] {n : Int} (f : Int → α) (h : 0 ≤ n) :
    isum (2 * n) f = isum n (fun i => f (2 * i)) + isum n (fun i => f (2 * i + 1)) := by
  obtain ⟨a, rfl⟩ := Int.eq_ofNat_of_zero_le h
  have h2 : (2 * (a : Int)).toNat = 2 * a := by omega
  simp only [isum, h2, Int.toNat_natCast]
  clear h h2
  induction a with
  | zero => simp
  | succ a ih =>
    rw [show 2 * (a + 1) = 2 * a + 1 + 1 from by ring, sum_range_succ, sum_range_succ, ih, sum_range_succ, sum_range_succ]
    push_cast
    abel
theorem isum_const [AddCommMonoid α] (n : Int) (c : α) : isum n (fun _ => c) = n.toNat • c := by simp [isum]
theorem isum_const' [Ring α] {n : Int} (h : 0 ≤ n) (c : α) : isum n (fun _ => c) = (n : α) * c := by
  obtain ⟨a, rfl⟩ := Int.eq_ofNat_of_zero_le h
  simp [isum]
theorem isum_eq_sum [AddCommMonoid α] (n : ℕ) (f : Int → α) : isum (n : Int) f = ∑ i ∈ range n, f i := by simp [isum]
theorem map_isum {β F : Type*} [AddCommMonoid α] [AddCommMonoid β] [FunLike F α β] [AddMonoidHomClass F α β] (g : F) (n : Int) (f : Int → α) :
    g (isum n f) = isum n (fun i => g (f i)) := by simp [isum, map_sum]

theorem iprod_of_nonpos [CommMonoid α] {n : Int} (f : Int → α) (h : n ≤ 0) : iprod n f = 1 := by
  simp [iprod, Int.toNat_of_nonpos h]
@[simp] theorem iprod_zero [CommMonoid α] (f : Int → α) : iprod 0 f = 1 := iprod_of_nonpos f le_rfl
theorem iprod_succ [CommMonoid α] {n : Int} (f : Int → α) (h : 0 ≤ n) : iprod (n + 1) f = iprod n f * f n := by
  simp [iprod, toNat_succ h, prod_range_succ, Int.toNat_of_nonneg h]
theorem iprod_congr [CommMonoid α] {n : Int} {f g : Int → α} (h : ∀ i, 0 ≤ i → i < n → f i = g i) : iprod n f = iprod n g := by
  refine prod_congr rfl fun i hi => h i (by positivity) ?_
  have := mem_range.1 hi; omega
theorem iprod_ne_zero [CommMonoidWithZero α] [Nontrivial α] [NoZeroDivisors α] {n : Int} {f : Int → α}
    (h : ∀ i, 0 ≤ i → i < n → f i ≠ 0) : iprod n f ≠ 0 := by
  refine prod_ne_zero_iff.2 fun i hi => h i (by positivity) ?_
  have := mem_range.1 hi; omega

@[simp] theorem irec_zero (f : Int → α → α) (v : α) : irec 0 f v = v := rfl
theorem irec_of_nonpos {n : Int} (f : Int → α → α) (v : α) (h : n ≤ 0) : irec n f v = v := by
  simp [irec, Int.toNat_of_nonpos h]
theorem irec_succ {n : Int} (f : Int → α → α) (v : α) (h : 0 ≤ n) : irec (n + 1) f v = f n (irec n f v) := by
  simp [irec, toNat_succ h, Int.toNat_of_nonneg h]

/-- Induction on a non-negative integer. -/
theorem int_induction {P : Int → Prop} (h0 : P 0) (hs : ∀ n, 0 ≤ n → P n → P (n + 1)) : ∀ n, 0 ≤ n → P n := by
  intro n hn
  obtain ⟨a, rfl⟩ := Int.eq_ofNat_of_zero_le hn
  clear hn
  induction a with
  | zero => simpa using h0
  | succ a ih => have := hs a (by positivity) ih; push_cast; simpa using this
end

@[simp] theorem iabs_eq (x : Int) : iabs x = |x| := rfl
theorem iabs_nonneg (x : Int) : 0 ≤ iabs x := abs_nonneg x

/-- Immediate goals. -/
syntax "pv_cheap" : tactic
macro_rules
  | `(tactic| pv_cheap) => `(tactic| first | assumption | trivial | rfl | omega)
/-- Default automation for verification conditions. -/
syntax "pv_auto" : tactic
macro_rules
  | `(tactic| pv_auto) => `(tactic| first
    | assumption
    | trivial
    | omega
    | (intros; first | assumption | omega | grind)
    | (simp_all; done)
    | (constructor <;> first | assumption | omega | grind | (simp_all; done)))
