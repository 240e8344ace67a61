import Pv.Basic
import Mathlib.Data.Finset.Card
import Mathlib.Order.Interval.Finset.Nat
/-! Permutations of 0 .. n-1, graphs as edge lists. -/

def isperm (n : Int) (P : Int → Int) : Prop :=
  (∀ i, 0 ≤ i → i < n → 0 ≤ P i ∧ P i < n) ∧ (∀ i j, 0 ≤ i → i < n → 0 ≤ j → j < n → P i = P j → i = j) ∧ ∀ v, 0 ≤ v → v < n → ∃ i, 0 ≤ i ∧ i < n ∧ P i = v

/-- number of different values among s 0 .. s (m-1) -/
def distinct (m : Int) (s : Int → Int) : Int := ((Finset.range m.toNat).image (fun i : ℕ => s i)).card
theorem distinct_congr {m : Int} {s t : Int → Int} (h : ∀ i, 0 ≤ i → i < m → s i = t i) : distinct m s = distinct m t := by
  unfold distinct
  congr 2
  refine Finset.image_congr fun i hi => h _ (by omega) ?_
  have := Finset.mem_range.1 hi
  omega
/-- an image with as many values comes from a one-to-one map -/
theorem distinct_comp {m : Int} {s : Int → Int} {f : Int → Int} :
    distinct m s = distinct m (fun i => f (s i)) ↔ ∀ i j, 0 ≤ i → i < m → 0 ≤ j → j < m → f (s i) = f (s j) → s i = s j := by
  have e : distinct m (fun i => f (s i)) = ((((Finset.range m.toNat).image (fun i : ℕ => s i)).image f).card : ℕ) := by
    unfold distinct; rw [Finset.image_image]; rfl
  rw [e, distinct]
  constructor
  · intro h i j i0 i1 j0 j1 hij
    have inj := Finset.card_image_iff.1 (by exact_mod_cast h.symm)
    have m1 : s i ∈ (Finset.range m.toNat).image (fun i : ℕ => s i) := Finset.mem_image.2 ⟨i.toNat, Finset.mem_range.2 (by omega), by rw [Int.toNat_of_nonneg i0]⟩
    have m2 : s j ∈ (Finset.range m.toNat).image (fun i : ℕ => s i) := Finset.mem_image.2 ⟨j.toNat, Finset.mem_range.2 (by omega), by rw [Int.toNat_of_nonneg j0]⟩
    exact inj (Finset.mem_coe.2 m1) (Finset.mem_coe.2 m2) hij
  · intro h
    have : Set.InjOn f ((Finset.range m.toNat).image (fun i : ℕ => s i) : Finset Int) := by
      intro a ha b hb hab
      obtain ⟨i, hi, rfl⟩ := Finset.mem_image.1 (Finset.mem_coe.1 ha)
      obtain ⟨j, hj, rfl⟩ := Finset.mem_image.1 (Finset.mem_coe.1 hb)
      have := Finset.mem_range.1 hi
      have := Finset.mem_range.1 hj
      exact h i j (by omega) (by omega) (by omega) (by omega) hab
    exact_mod_cast (Finset.card_image_of_injOn this).symm

/-- both ends of every edge, one after the other -/
def ends (a b : Int → Int) (i : Int) : Int := if i % 2 = 0 then a (i / 2) else b (i / 2)
def isvertex (n : Int) (a b : Int → Int) (v : Int) : Prop := ∃ i, 0 ≤ i ∧ i < n ∧ (a i = v ∨ b i = v)
theorem isvertex_ends {n : Int} {a b : Int → Int} {v : Int} : isvertex n a b v ↔ ∃ i, 0 ≤ i ∧ i < 2 * n ∧ ends a b i = v := by
  constructor
  · rintro ⟨i, h0, h1, h | h⟩
    · exact ⟨2 * i, by omega, by omega, by unfold ends; rw [if_pos (by omega), show 2 * i / 2 = i by omega, h]⟩
    · exact ⟨2 * i + 1, by omega, by omega, by unfold ends; rw [if_neg (by omega), show (2 * i + 1) / 2 = i by omega, h]⟩
  · rintro ⟨i, h0, h1, h⟩
    refine ⟨i / 2, by omega, by omega, ?_⟩
    unfold ends at h
    split_ifs at h
    · exact .inl h
    · exact .inr h
/-- the map is one-to-one on the vertices -/
def onetoone (n : Int) (a b : Int → Int) (f : Int → Int) : Prop := ∀ u v, isvertex n a b u → isvertex n a b v → f u = f v → u = v
/-- relabelling edge by edge -/
def maps (n : Int) (a b : Int → Int) (n' : Int) (a' b' : Int → Int) (f : Int → Int) : Prop := n' = n ∧ ∀ i, 0 ≤ i → i < n → a' i = f (a i) ∧ b' i = f (b i)
def isomorphic (n : Int) (a b : Int → Int) (n' : Int) (a' b' : Int → Int) : Prop := ∃ f, maps n a b n' a' b' f ∧ onetoone n a b f

theorem distinct_vertices {n : Int} {a b a' b' : Int → Int} {f : Int → Int} (h : ∀ i, 0 ≤ i → i < n → a' i = f (a i) ∧ b' i = f (b i)) :
    distinct (2 * n) (ends a b) = distinct (2 * n) (ends a' b') ↔ onetoone n a b f := by
  have e : distinct (2 * n) (ends a' b') = distinct (2 * n) (fun i => f (ends a b i)) := by
    refine distinct_congr fun i h0 h1 => ?_
    have := h (i / 2) (by omega) (by omega)
    unfold ends
    split_ifs
    · exact this.1
    · exact this.2
  rw [e, distinct_comp]
  constructor
  · intro h u v hu hv
    obtain ⟨i, i0, i1, rfl⟩ := isvertex_ends.1 hu
    obtain ⟨j, j0, j1, rfl⟩ := isvertex_ends.1 hv
    exact h i j i0 i1 j0 j1
  · intro h i j i0 i1 j0 j1
    exact h _ _ (isvertex_ends.2 ⟨i, i0, i1, rfl⟩) (isvertex_ends.2 ⟨j, j0, j1, rfl⟩)

/-- two answers for one presented graph give an isomorphism -/
theorem both_answers {n : Int} {a b : Int → Int} {n1 n2 : Int} {a1 b1 a2 b2 : Int → Int} {f g : Int → Int}
    (h1 : maps n a b n1 a1 b1 f) (h2 : maps n a b n2 a2 b2 g) (o1 : onetoone n a b f) (o2 : onetoone n a b g) : isomorphic n1 a1 b1 n2 a2 b2 := by
  obtain ⟨rfl, h1⟩ := h1
  obtain ⟨rfl, h2⟩ := h2
  classical
  let φ : Int → Int := fun x => if h : ∃ u, isvertex n2 a b u ∧ f u = x then g h.choose else 0
  have key : ∀ u, isvertex n2 a b u → φ (f u) = g u := by
    intro u hu
    have hx : ∃ w, isvertex n2 a b w ∧ f w = f u := ⟨u, hu, rfl⟩
    show (if h : ∃ w, isvertex n2 a b w ∧ f w = f u then g h.choose else 0) = _
    rw [dif_pos hx]
    have s := hx.choose_spec
    rw [o1 _ _ s.1 hu s.2]
  have va : ∀ i, 0 ≤ i → i < n2 → isvertex n2 a b (a i) := fun i h0 h1 => ⟨i, h0, h1, .inl rfl⟩
  have vb : ∀ i, 0 ≤ i → i < n2 → isvertex n2 a b (b i) := fun i h0 h1 => ⟨i, h0, h1, .inr rfl⟩
  have up : ∀ x, isvertex n2 a1 b1 x → ∃ u, isvertex n2 a b u ∧ f u = x := by
    rintro x ⟨i, h0, h1', h | h⟩
    · exact ⟨a i, va i h0 h1', by rw [← (h1 i h0 h1').1, h]⟩
    · exact ⟨b i, vb i h0 h1', by rw [← (h1 i h0 h1').2, h]⟩
  refine ⟨φ, ⟨rfl, fun i h0 h1' => ?_⟩, fun x y hx hy hxy => ?_⟩
  · rw [(h1 i h0 h1').1, (h1 i h0 h1').2, key _ (va i h0 h1'), key _ (vb i h0 h1')]
    exact h2 i h0 h1'
  · obtain ⟨u, hu, rfl⟩ := up x hx
    obtain ⟨v, hv, rfl⟩ := up y hy
    rw [key u hu, key v hv] at hxy
    rw [o2 u v hu hv hxy]

/-- the largest label -/
def islargest (n : Int) (a b : Int → Int) (m : Int) : Prop := (∀ i, 0 ≤ i → i < n → a i ≤ m ∧ b i ≤ m) ∧ isvertex n a b m
open Classical in
noncomputable def maxlabel (n : Int) (a b : Int → Int) : Int := if h : ∃ m, islargest n a b m then h.choose else 0
theorem maxlabel_eq {n : Int} {a b : Int → Int} {m : Int} (h1 : ∀ i, 0 ≤ i → i < n → a i ≤ m ∧ b i ≤ m) (h2 : isvertex n a b m) : maxlabel n a b = m := by
  have hx : ∃ m, islargest n a b m := ⟨m, h1, h2⟩
  unfold maxlabel
  rw [dif_pos hx]
  obtain ⟨u, i, i0, i1, hi⟩ := hx.choose_spec
  obtain ⟨j, j0, j1, hj⟩ := h2
  have := h1 i i0 i1
  have := u j j0 j1
  omega
theorem largest_exists {a b : Int → Int} (k : ℕ) : ∃ m, (∀ i : Int, 0 ≤ i → i < k + 1 → a i ≤ m ∧ b i ≤ m) ∧ isvertex (k + 1) a b m := by
  induction k with
  | zero =>
    refine ⟨max (a 0) (b 0), fun i h0 h1 => ?_, 0, le_rfl, by omega, ?_⟩
    · obtain rfl : i = 0 := by omega
      exact ⟨le_max_left _ _, le_max_right _ _⟩
    · rcases le_total (a 0) (b 0) with h | h
      · right; rw [max_eq_right h]
      · left; rw [max_eq_left h]
  | succ k ih =>
    obtain ⟨m, h, i, i0, i1, hi⟩ := ih
    rcases le_or_gt (max (a (k + 1)) (b (k + 1))) m with g | g
    · refine ⟨m, fun j h0 h1 => ?_, i, i0, by push_cast; omega, hi⟩
      by_cases e : j = k + 1
      · rw [e]; exact ⟨le_trans (le_max_left _ _) g, le_trans (le_max_right _ _) g⟩
      · exact h j h0 (by push_cast at h1; omega)
    · refine ⟨max (a (k + 1)) (b (k + 1)), fun j h0 h1 => ?_, k + 1, by omega, by push_cast; omega, ?_⟩
      · by_cases e : j = k + 1
        · rw [e]; exact ⟨le_max_left _ _, le_max_right _ _⟩
        · have := h j h0 (by push_cast at h1; omega)
          omega
      · rcases le_total (a (k + 1)) (b (k + 1)) with h | h
        · right; rw [max_eq_right h]
        · left; rw [max_eq_left h]
theorem maxlabel_ge {n : Int} {a b : Int → Int} (i : Int) (hi : 0 ≤ i ∧ i < n) : a i ≤ maxlabel n a b ∧ b i ≤ maxlabel n a b := by
  obtain ⟨m, h, hv⟩ := largest_exists (a := a) (b := b) (n - 1).toNat
  rw [show (((n - 1).toNat : ℕ) : Int) + 1 = n by omega] at h hv
  rw [maxlabel_eq h hv]
  exact h i hi.1 hi.2
theorem maxlabel_perm {n m : Int} {a b P : Int → Int} (hn : 1 ≤ n) (hl : ∀ i, 0 ≤ i ∧ i < m → 1 ≤ a i ∧ 1 ≤ b i) (hh : ∀ i, 0 ≤ i ∧ i < m → a i ≤ n ∧ b i ≤ n)
    (ha : ∀ v, 1 ≤ v ∧ v < n + 1 → isvertex m a b v) (hp : isperm n P) :
    maxlabel m (fun i => P (a i + -1) + 1) (fun i => P (b i + -1) + 1) = n := by
  refine maxlabel_eq (fun i h0 h1 => ?_) ?_
  · have l := hl i ⟨h0, h1⟩
    have h := hh i ⟨h0, h1⟩
    have p := hp.1 (a i + -1) (by omega) (by omega)
    have q := hp.1 (b i + -1) (by omega) (by omega)
    omega
  · obtain ⟨v, v0, v1, hv⟩ := hp.2.2 (n - 1) (by omega) (by omega)
    obtain ⟨i, h0, h1, h⟩ := ha (v + 1) ⟨by omega, by omega⟩
    refine ⟨i, h0, h1, ?_⟩
    rcases h with h | h
    · left; beta_reduce; rw [h, show v + 1 + -1 = v by omega, hv]; omega
    · right; beta_reduce; rw [h, show v + 1 + -1 = v by omega, hv]; omega
theorem distinct_perm {n m : Int} {a b P : Int → Int} (hp : isperm n P) (hl : ∀ i, 0 ≤ i ∧ i < m → 1 ≤ a i ∧ 1 ≤ b i) (hh : ∀ i, 0 ≤ i ∧ i < m → a i ≤ n ∧ b i ≤ n) :
    distinct (2 * m) (fun i => if i % 2 = 0 then P (a (i / 2) + -1) + 1 else P (b (i / 2) + -1) + 1) = distinct (2 * m) (fun i => if i % 2 = 0 then a (i / 2) else b (i / 2)) := by
  have bound : ∀ u, isvertex m a b u → 1 ≤ u ∧ u ≤ n := by
    rintro u ⟨i, h0, h1, h⟩
    have := hl i ⟨h0, h1⟩
    have := hh i ⟨h0, h1⟩
    omega
  refine ((distinct_vertices (n := m) (a := a) (b := b) (a' := fun i => P (a i + -1) + 1) (b' := fun i => P (b i + -1) + 1) (f := fun x => P (x + -1) + 1) (fun i _ _ => ⟨rfl, rfl⟩)).2 ?_).symm
  intro u v hu hv h
  have := bound u hu
  have := bound v hv
  have := hp.2.1 (u + -1) (v + -1) (by omega) (by omega) (by omega) (by omega) (by beta_reduce at h; omega)
  omega
theorem perm_range {n m : Int} {a b P : Int → Int} (hp : isperm n P) (hl : ∀ i, 0 ≤ i ∧ i < m → 1 ≤ a i ∧ 1 ≤ b i) (hh : ∀ i, 0 ≤ i ∧ i < m → a i ≤ n ∧ b i ≤ n)
    (i : Int) (hi : 0 ≤ i ∧ i < m) : (1 ≤ P (a i + -1) + 1 ∧ 1 ≤ P (b i + -1) + 1) ∧ P (a i + -1) + 1 ≤ n ∧ P (b i + -1) + 1 ≤ n := by
  have l := hl i hi
  have h := hh i hi
  have p := hp.1 (a i + -1) (by omega) (by omega)
  have q := hp.1 (b i + -1) (by omega) (by omega)
  omega
/-- acceptance, spelled out, is being an isomorphism -/
theorem accepted_iff {n m : Int} {a b a' b' f : Int → Int} :
    (n = m ∧ (∀ i, 0 ≤ i ∧ i < n → a' i = f (a i) ∧ b' i = f (b i)) ∧
      distinct (2 * m) (fun i => if i % 2 = 0 then a (i / 2) else b (i / 2)) = distinct (2 * n) (fun i => if i % 2 = 0 then a' (i / 2) else b' (i / 2)))
    ↔ maps m a b n a' b' f ∧ onetoone m a b f := by
  unfold maps
  constructor
  · rintro ⟨rfl, h, hd⟩
    have h' : ∀ i, 0 ≤ i → i < n → a' i = f (a i) ∧ b' i = f (b i) := fun i h0 h1 => h i ⟨h0, h1⟩
    exact ⟨⟨rfl, h'⟩, (distinct_vertices h').1 hd⟩
  · rintro ⟨⟨rfl, h⟩, ho⟩
    exact ⟨rfl, fun i hi => h i hi.1 hi.2, (distinct_vertices h).2 ho⟩
theorem distinct_perm' {n m : Int} {a b P : Int → Int} (hp : isperm n P) (hl : ∀ i, 0 ≤ i ∧ i < m → 1 ≤ a i + 1 ∧ 1 ≤ b i + 1) (hh : ∀ i, 0 ≤ i ∧ i < m → a i + 1 ≤ n ∧ b i + 1 ≤ n) :
    distinct (2 * m) (fun i => if i % 2 = 0 then P (a (i / 2)) + 1 else P (b (i / 2)) + 1) = distinct (2 * m) (fun i => if i % 2 = 0 then a (i / 2) + 1 else b (i / 2) + 1) := by
  have := distinct_perm (a := fun i => a i + 1) (b := fun i => b i + 1) hp hl hh
  simpa only [Int.add_neg_cancel_right] using this
