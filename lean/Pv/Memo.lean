import Pv.Basic
import Mathlib.Data.List.Sort
/-! Memoization: call shapes, cache keys. -/
abbrev Kw (V : Type) := List (String × V)
inductive PyKey (V : Type) where
  | args (a : List V) | items (k : Kw V) | names (l : List String) | vals (l : List V)
  | pair (x y : PyKey V) | none
def kwSorted {V : Type} (k : Kw V) : Kw V := k.mergeSort (fun x y => decide (x.1 ≤ y.1))
def kwNames {V : Type} (k : Kw V) : List String := k.map Prod.fst
def kwVals {V : Type} (k : Kw V) : List V := k.map Prod.snd
def kwItems {V : Type} (k : Kw V) : Kw V := k
/-- every stored value is the function's value for the arguments whose key stores it -/
def memoInv {V R : Type} (K : List V → Kw V → PyKey V) (F : List V → Kw V → R) (dom : PyKey V → Prop) (val : PyKey V → R) : Prop :=
  ∀ a k, dom (K a k) → val (K a k) = F a k
theorem kwSorted_perm {V : Type} {k k' : Kw V} (h : kwSorted k = kwSorted k') : k.Perm k' :=
  ((List.mergeSort_perm k _).symm.trans (List.Perm.of_eq h)).trans (List.mergeSort_perm k' _)
theorem kwSorted_eq {V : Type} {k k' : Kw V} (h : k.Perm k') (hn : (kwNames k).Nodup) : kwSorted k' = kwSorted k := by
  have hp : (kwSorted k').Perm (kwSorted k) := (List.mergeSort_perm k' _).trans (h.symm.trans (List.mergeSort_perm k _).symm)
  have s : ∀ l : Kw V, (kwSorted l).Pairwise (fun x y => x.1 ≤ y.1) := by
    intro l
    have := List.pairwise_mergeSort (le := fun x y : String × V => decide (x.1 ≤ y.1)) (by intro a b c; simp only [decide_eq_true_eq]; exact String.le_trans) (by intro a b; simp only [Bool.or_eq_true, decide_eq_true_eq]; exact String.le_total _ _) l
    exact this.imp (by intro a b; simp)
  refine List.Perm.eq_of_pairwise ?_ (s k') (s k) hp
  intro x y hx hy h1 h2
  have e : x.1 = y.1 := String.le_antisymm h1 h2
  have hx' : x ∈ k := (List.mergeSort_perm k _).subset (hp.subset hx)
  have hy' : y ∈ k := (List.mergeSort_perm k _).subset hy
  exact List.inj_on_of_nodup_map hn hx' hy' e
theorem memo_step {V R : Type} {F : List V → Kw V → R} (Fp : ∀ a k k', k.Perm k' → F a k = F a k') {dom : PyKey V → Prop} {val : PyKey V → R}
    {K : List V → Kw V → PyKey V} (inj : ∀ a k a' k', K a k = K a' k' → a = a' ∧ k.Perm k') (h : memoInv K F dom val) (a : List V) (k : Kw V) :
    memoInv K F (fun q => q = K a k ∨ dom q) (open Classical in fun q => if q = K a k then F a k else val q) := by
  classical
  intro a' k' hd
  by_cases e : K a' k' = K a k
  · obtain ⟨e1, e2⟩ := inj _ _ _ _ e
    simp only [e, if_true]; rw [e1]; exact Fp _ _ _ e2.symm
  · simp only [e, if_false]
    rcases hd with hd | hd
    · exact absurd hd e
    · exact h _ _ hd
theorem key_inj {V : Type} (a : List V) (k : Kw V) (a' : List V) (k' : Kw V)
    (h : PyKey.pair (.args a) (.items (kwSorted k)) = PyKey.pair (.args a') (.items (kwSorted k'))) : a = a' ∧ k.Perm k' := by
  injection h with h1 h2; injection h1 with h1; injection h2 with h2
  exact ⟨h1, kwSorted_perm h2⟩
theorem memo_use {V R : Type} {K : List V → Kw V → PyKey V} {F : List V → Kw V → R} {dom : PyKey V → Prop} {val : PyKey V → R}
    (h : memoInv K F dom val) (a : List V) (k : Kw V) (hd : dom (K a k)) : val (K a k) = F a k := h a k hd
syntax "memo_auto" : tactic
macro_rules
  | `(tactic| memo_auto) => `(tactic| first
    | assumption
    | rfl
    | (intro a k h; exact h.elim)
    | exact memo_use (by assumption) _ _ (by assumption)
    | pv_auto)
syntax "memo_auto2 " term : tactic
macro_rules
  | `(tactic| memo_auto2 $fp) => `(tactic| first
    | memo_auto
    | (have hp := ‹List.Perm _ _›; have hs := kwSorted_eq ‹List.Perm _ _› ‹List.Nodup _›; clear hp
       first
        | exact ($fp _ _ _ ‹List.Perm _ _›).symm
        | (simp only [kwItems, hs]; done)
        | (unfold kwItems at *; grind)
        | (exfalso; simp [kwItems, hs] at *; simp_all; done)
        | (rw [if_pos (by simp only [kwItems, hs])])
        | (simp [kwItems, hs] at *; simp_all; done)
        | (exact ($fp _ _ _ ‹List.Perm _ _›).symm.trans (memo_use (by assumption) _ _ (by assumption)).symm)))
