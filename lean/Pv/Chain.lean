import Pv.Bytes
/-! Strings as code points, for hashed messages. -/
abbrev Txt := List Int
def tnil : Txt := []
def tcons (c : Int) (t : Txt) : Txt := c :: t
def tcat (a b : Txt) : Txt := a ++ b
def ttake (t : Txt) (n : Int) : Txt := t.take n.toNat
def shown (n : Int) : Txt := (ToString.toString n).toList.map fun c => (c.toNat : Int)
theorem all_step {P : Int → Prop} {a n : Int} (h : ∀ i, a ≤ i ∧ i < n → P i) (hn : P n) : ∀ i, a ≤ i ∧ i < n + 1 → P i := by
  intro i hi
  rcases lt_or_eq_of_le (show i ≤ n by omega) with e | rfl
  · exact h i ⟨hi.1, e⟩
  · exact hn
