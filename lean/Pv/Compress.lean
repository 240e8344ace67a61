import Pv.Bytes
import Mathlib.Algebra.BigOperators.Intervals
/-! Concatenation of blocks, and back-references. -/
open Finset

/-- start of block b when block i has length L i -/
def offs (L : Int → Int) (n : Int) : Int := ∑ i ∈ range n.toNat, L (i : ℕ)
theorem offs_zero (L : Int → Int) : offs L 0 = 0 := by simp [offs]
theorem offs_succ (L : Int → Int) {n : Int} (h : 0 ≤ n) : offs L (n + 1) = offs L n + L n := by
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le h
  have : ((m : Int) + 1).toNat = m + 1 := by omega
  simp [offs, this, sum_range_succ]
theorem offs_mono {L : Int → Int} (hL : ∀ b, 0 ≤ b → 0 ≤ L b) {m n : Int} (h0 : 0 ≤ m) (h : m ≤ n) : offs L m ≤ offs L n := by
  have : ∀ k : ℕ, offs L m ≤ offs L (m + k) := by
    intro k
    induction k with
    | zero => simp
    | succ k ih =>
      have := hL (m + k) (by omega)
      rw [show m + ((k + 1 : ℕ) : Int) = (m + k) + 1 by push_cast; ring, offs_succ L (by omega)]
      omega
  have := this (n - m).toNat
  rwa [show m + ((n - m).toNat : Int) = n by omega] at this
theorem offs_nonneg {L : Int → Int} (hL : ∀ b, 0 ≤ b → 0 ≤ L b) {n : Int} (h : 0 ≤ n) : 0 ≤ offs L n := by
  have := offs_mono hL le_rfl h; rwa [offs_zero] at this

/-- the blocks C 0, C 1, .. one after the other -/
noncomputable def cat (L : Int → Int) (C : Int → Int → Bytes) (i : Int) : Bytes :=
  open Classical in
  if h : ∃ b : Int, 0 ≤ b ∧ offs L b ≤ i ∧ i < offs L (b + 1) then C h.choose (i - offs L h.choose) else []
theorem cat_at {L : Int → Int} (C : Int → Int → Bytes) (hL : ∀ b, 0 ≤ b → 0 ≤ L b) {b p : Int} (hb : 0 ≤ b) (h0 : 0 ≤ p) (h1 : p < L b) :
    cat L C (offs L b + p) = C b p := by
  have h : ∃ b' : Int, 0 ≤ b' ∧ offs L b' ≤ offs L b + p ∧ offs L b + p < offs L (b' + 1) :=
    ⟨b, hb, by omega, by rw [offs_succ L hb]; omega⟩
  unfold cat
  rw [dif_pos h]
  have e : h.choose = b := by
    obtain ⟨c0, c1, c2⟩ := h.choose_spec
    generalize h.choose = c at *
    rcases lt_trichotomy c b with hc | hc | hc
    · have := offs_mono hL (by omega : 0 ≤ c + 1) (by omega : c + 1 ≤ b)
      omega
    · exact hc
    · have := offs_mono hL (by omega : 0 ≤ b + 1) (by omega : b + 1 ≤ c)
      rw [offs_succ L hb] at this
      omega
  rw [e]
  congr 1; ring

/-- what entry i stands for -/
def getobj (o : Int → Bytes) (i : Int) : Bytes := if blen (o i) = 2 then o (fromBytesBE (o i)) else o i
/-- o compresses the sequence F: every entry stands for F's, first occurrences are stored,
repetitions are two-byte references to earlier entries -/
def coded (m : Int) (o F : Int → Bytes) : Prop := ∀ i, 0 ≤ i → i < m →
  getobj o i = F i ∧ (blen (o i) = 2 → 0 ≤ fromBytesBE (o i) ∧ fromBytesBE (o i) < i) ∧
  ((∃ j, 0 ≤ j ∧ j < i ∧ F j = F i) → blen (o i) = 2) ∧ ((¬ ∃ j, 0 ≤ j ∧ j < i ∧ F j = F i) → o i = F i)
/-- the index of first occurrences -/
def indexed (m : Int) (dom : Bytes → Prop) (val : Bytes → Int) (o F : Int → Bytes) : Prop :=
  (∀ x, dom x ↔ ∃ i, 0 ≤ i ∧ i < m ∧ F i = x) ∧ ∀ x, dom x → 0 ≤ val x ∧ val x < m ∧ o (val x) = x

theorem coded_zero (o F : Int → Bytes) : coded 0 o F := fun i h0 h1 => by omega
theorem indexed_zero {dom : Bytes → Prop} (h : ∀ x, ¬ dom x) (val : Bytes → Int) (o F : Int → Bytes) : indexed 0 dom val o F :=
  ⟨fun x => ⟨fun hx => absurd hx (h x), fun ⟨i, h0, h1, _⟩ => by omega⟩, fun x hx => absurd hx (h x)⟩
theorem coded_ext {m : Int} {o o' F F' : Int → Bytes} (h : coded m o F) (ho : ∀ i, 0 ≤ i → i < m → o' i = o i) (hF : ∀ i, 0 ≤ i → i < m → F' i = F i) : coded m o' F' := by
  intro i h0 h1
  obtain ⟨a, b, c, d⟩ := h i h0 h1
  have e := ho i h0 h1
  have eF := hF i h0 h1
  have ex : (∃ j, 0 ≤ j ∧ j < i ∧ F' j = F' i) ↔ ∃ j, 0 ≤ j ∧ j < i ∧ F j = F i := by
    constructor
    · rintro ⟨j, j0, j1, hj⟩; exact ⟨j, j0, j1, by rwa [hF j j0 (by omega), eF] at hj⟩
    · rintro ⟨j, j0, j1, hj⟩; exact ⟨j, j0, j1, by rwa [hF j j0 (by omega), eF]⟩
  rw [ex, eF, e]
  refine ⟨?_, b, c, d⟩
  unfold getobj at a ⊢
  rw [e]
  split_ifs at a ⊢ with h2
  · rw [ho _ (b h2).1 (by have := (b h2).2; omega)]; exact a
  · exact a
theorem coded_succ {m : Int} {o F : Int → Bytes} (hm : 0 ≤ m) (h : coded m o F)
    (hl : getobj o m = F m ∧ (blen (o m) = 2 → 0 ≤ fromBytesBE (o m) ∧ fromBytesBE (o m) < m) ∧
      ((∃ j, 0 ≤ j ∧ j < m ∧ F j = F m) → blen (o m) = 2) ∧ ((¬ ∃ j, 0 ≤ j ∧ j < m ∧ F j = F m) → o m = F m)) : coded (m + 1) o F := by
  intro i h0 h1
  rcases lt_or_ge i m with h2 | h2
  · exact h i h0 h2
  · obtain rfl : i = m := by omega
    exact hl

/-- appending a value not seen before -/
theorem add_new {m : Int} {dom : Bytes → Prop} {val : Bytes → Int} {o o' F : Int → Bytes} {x : Bytes} (hm : 0 ≤ m) (h : coded m o F) (hi : indexed m dom val o F)
    (hx : ¬ dom x) (hF : F m = x) (h2 : blen x ≠ 2) (ho : ∀ i, 0 ≤ i → i < m → o' i = o i) (hn : o' m = x) : coded (m + 1) o' F := by
  refine coded_succ hm (coded_ext h ho fun _ _ _ => rfl) ⟨?_, ?_, ?_, ?_⟩
  · unfold getobj; rw [hn, if_neg h2, hF]
  · intro h; rw [hn] at h; exact absurd h h2
  · rintro ⟨j, j0, j1, hj⟩; exact absurd ((hi.1 x).2 ⟨j, j0, j1, hj.trans hF⟩) hx
  · intro _; rw [hn, hF]
theorem index_new {m : Int} {dom dom' : Bytes → Prop} {val val' : Bytes → Int} {o o' F : Int → Bytes} {x : Bytes} (hm : 0 ≤ m) (hi : indexed m dom val o F)
    (hF : F m = x) (ho : ∀ i, 0 ≤ i → i < m → o' i = o i) (hn : o' m = x) (hx : ¬ dom x)
    (hd : ∀ y, dom' y ↔ y = x ∨ dom y) (hv : val' x = m) (hv' : ∀ y, y ≠ x → val' y = val y) : indexed (m + 1) dom' val' o' F := by
  refine ⟨fun y => ?_, fun y hy => ?_⟩
  · rw [hd, hi.1]
    constructor
    · rintro (rfl | ⟨i, h0, h1, h⟩)
      · exact ⟨m, hm, by omega, hF⟩
      · exact ⟨i, h0, by omega, h⟩
    · rintro ⟨i, h0, h1, h⟩
      rcases lt_or_ge i m with h2 | h2
      · exact .inr ⟨i, h0, h2, h⟩
      · obtain rfl : i = m := by omega
        exact .inl (h.symm.trans hF)
  · by_cases e : y = x
    · subst e; rw [hv]; exact ⟨hm, by omega, hn⟩
    · obtain ⟨a, b, c⟩ := hi.2 y (((hd y).1 hy).resolve_left e)
      rw [hv' y e]
      exact ⟨a, by omega, (ho _ a b).trans c⟩
/-- appending a reference to a value seen before -/
theorem add_old {m : Int} {dom : Bytes → Prop} {val : Bytes → Int} {o o' F : Int → Bytes} {x : Bytes} (hm : 0 ≤ m) (hm' : m ≤ 65536) (h : coded m o F) (hi : indexed m dom val o F)
    (hx : dom x) (hF : F m = x) (ho : ∀ i, 0 ≤ i → i < m → o' i = o i) (hn : o' m = toBytesBE (val x) 2) : coded (m + 1) o' F := by
  obtain ⟨a, b, c⟩ := hi.2 x hx
  have e : fromBytesBE (toBytesBE (val x) 2) = val x := from_toBytesBE a (by
    show _ < (256 : Int) ^ (2 : ℕ); norm_num; omega)
  have e2 : blen (toBytesBE (val x) 2) = 2 := blen_toBytesBE _ (by norm_num)
  refine coded_succ hm (coded_ext h ho fun _ _ _ => rfl) ⟨?_, ?_, ?_, ?_⟩
  · unfold getobj; rw [hn, if_pos e2, e, ho _ a b, c, hF]
  · intro _; rw [hn, e]; exact ⟨a, b⟩
  · intro _; rw [hn, e2]
  · intro hne
    obtain ⟨j, j0, j1, hj⟩ := (hi.1 x).1 hx
    exact absurd ⟨j, j0, j1, hj.trans hF.symm⟩ hne
theorem index_old {m : Int} {dom : Bytes → Prop} {val : Bytes → Int} {o o' F : Int → Bytes} {x : Bytes} (hm : 0 ≤ m) (hi : indexed m dom val o F)
    (hx : dom x) (hF : F m = x) (ho : ∀ i, 0 ≤ i → i < m → o' i = o i) : indexed (m + 1) dom val o' F := by
  refine ⟨fun y => ?_, fun y hy => ?_⟩
  · rw [hi.1]
    constructor
    · rintro ⟨i, h0, h1, h⟩; exact ⟨i, h0, by omega, h⟩
    · rintro ⟨i, h0, h1, h⟩
      rcases lt_or_ge i m with h2 | h2
      · exact ⟨i, h0, h2, h⟩
      · obtain rfl : i = m := by omega
        have := (hi.1 x).1 hx
        rwa [← h, hF]
  · obtain ⟨a, b, c⟩ := hi.2 y hy
    exact ⟨a, by omega, (ho _ a b).trans c⟩

/-- a branch followed by a separator -/
def seg (n : Int) (f : Int → Bytes) (sep : Bytes) (p : Int) : Bytes := if p < n then f p else sep
theorem seg_lt {n p : Int} (f : Int → Bytes) (sep : Bytes) (h : p < n) : seg n f sep p = f p := if_pos h
theorem seg_end (n : Int) (f : Int → Bytes) (sep : Bytes) : seg n f sep n = sep := if_neg (lt_irrefl n)

section
variable {n : Int → Int} {N : Int} {br : Int → Int → Bytes} {sep : Bytes}
local notation "LEN" => fun i : Int => n i + (1 : Int)
local notation "FLAT" => cat (fun i : Int => n i + (1 : Int)) (fun b => seg (n b) (fun p => br b p) sep)
theorem flat_at (hn : ∀ i, 0 ≤ n i) {b p : Int} (hb : 0 ≤ b) (h0 : 0 ≤ p) (h1 : p ≤ n b) :
    FLAT (p + offs (LEN) b) = seg (n b) (fun p => br b p) sep p := by
  rw [add_comm]; exact cat_at _ (fun i _ => by have := hn i; show 0 ≤ n i + 1; omega) hb h0 (by show p < n b + 1; omega)
theorem flat_lt (hn : ∀ i, 0 ≤ n i) {b p : Int} (hb : 0 ≤ b) (hN : b < N) (h0 : 0 ≤ p) (h1 : p ≤ n b) :
    0 ≤ p + offs (LEN) b ∧ p + offs (LEN) b < offs (LEN) N := by
  have hL : ∀ i, 0 ≤ i → 0 ≤ (LEN) i := fun i _ => by have := hn i; show 0 ≤ n i + 1; omega
  have a := offs_nonneg hL hb
  have c := offs_mono hL (by omega : 0 ≤ b + 1) (by omega : b + 1 ≤ N)
  rw [offs_succ _ hb] at c
  exact ⟨by omega, by omega⟩
theorem dec_at {m : Int} {o : Int → Bytes} (hn : ∀ i, 0 ≤ n i) (hm : m = offs (LEN) N)
    (hc : coded m (fun i => o i) (FLAT)) {b p : Int} (hb : 0 ≤ b) (hN : b < N) (h0 : 0 ≤ p) (h1 : p ≤ n b) :
    0 ≤ p + offs (LEN) b ∧ p + offs (LEN) b < m ∧
    (if blen (o (p + offs (LEN) b)) = 2 then o (fromBytesBE (o (p + offs (LEN) b))) else o (p + offs (LEN) b)) = seg (n b) (fun p => br b p) sep p ∧
    (blen (o (p + offs (LEN) b)) = 2 → 0 ≤ fromBytesBE (o (p + offs (LEN) b)) ∧ fromBytesBE (o (p + offs (LEN) b)) < m) := by
  have l := flat_lt (N := N) hn hb hN h0 h1
  rw [← hm] at l
  have c := hc _ l.1 l.2
  refine ⟨l.1, l.2, ?_, fun h => ⟨(c.2.1 h).1, (c.2.1 h).2.trans l.2⟩⟩
  rw [← flat_at (br := br) (sep := sep) hn hb h0 h1]
  exact c.1
end
/-- references fit two bytes -/
theorem index_fits {m : Int} {dom : Bytes → Prop} {val : Bytes → Int} {o F : Int → Bytes} (hi : indexed m dom val o F) (hm : m ≤ 65536) {x : Bytes} (hx : dom x) :
    0 ≤ val x ∧ val x < 65536 := by
  obtain ⟨a, b, _⟩ := hi.2 x hx
  exact ⟨a, by omega⟩
