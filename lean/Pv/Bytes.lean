import Pv.Basic
/-! Byte strings: lists of numbers below 256. -/

abbrev Bytes := List (Fin 256)

def blen (b : Bytes) : Int := b.length
def bcat (a b : Bytes) : Bytes := a ++ b
def bslice (b : Bytes) (i j : Int) : Bytes := (b.take j.toNat).drop i.toNat
def bget (b : Bytes) (i : Int) : Int := ((b.getD i.toNat 0 : Fin 256) : ℕ)
/-- concatenation of f 0 .. f (n-1) -/
def bjoin (n : Int) (f : Int → Bytes) : Bytes := ((List.range n.toNat).map (fun i : ℕ => f i)).flatten
def toBE : ℕ → Int → Bytes
  | 0, _ => []
  | k + 1, n => toBE k (n / 256) ++ [⟨(n % 256).toNat, by omega⟩]
/-- n.to_bytes(len, 'big') for 0 ≤ n < 256^len -/
def toBytesBE (n len : Int) : Bytes := toBE len.toNat n
def toBytesLE (n len : Int) : Bytes := (toBE len.toNat n).reverse
def fromBytesBE (b : Bytes) : Int := b.foldl (fun a (d : Fin 256) => a * 256 + ((d : ℕ) : Int)) 0
def fromBytesLE (b : Bytes) : Int := fromBytesBE b.reverse

@[simp] theorem blen_nil : blen [] = 0 := rfl
theorem blen_nonneg (b : Bytes) : 0 ≤ blen b := by simp [blen]
@[simp] theorem blen_bcat (a b : Bytes) : blen (bcat a b) = blen a + blen b := by simp [blen, bcat]
theorem toBE_length (k : ℕ) (n : Int) : (toBE k n).length = k := by
  induction k generalizing n with
  | zero => rfl
  | succ k ih => simp [toBE, ih]
theorem blen_toBytesBE (n : Int) {l : Int} (h : 0 ≤ l) : blen (toBytesBE n l) = l := by
  simp [blen, toBytesBE, toBE_length, h]
theorem fromBytesBE_append (a : Bytes) (d : Fin 256) : fromBytesBE (a ++ [d]) = fromBytesBE a * 256 + ((d : ℕ) : Int) := by
  simp [fromBytesBE]
theorem fromBytesBE_nonneg (b : Bytes) : 0 ≤ fromBytesBE b := by
  induction b using List.reverseRecOn with
  | nil => simp [fromBytesBE]
  | append_singleton l a ih => rw [fromBytesBE_append]; positivity
theorem from_toBE (k : ℕ) : ∀ n : Int, 0 ≤ n → n < 256 ^ k → fromBytesBE (toBE k n) = n := by
  induction k with
  | zero => intro n h h'; simp [toBE, fromBytesBE] at *; omega
  | succ k ih =>
    intro n h h'
    rw [toBE, fromBytesBE_append, ih (n / 256) (by omega) (by rw [pow_succ] at h'; omega)]
    simp; omega
theorem from_toBytesBE {n l : Int} (h : 0 ≤ n) (h' : n < ipow 256 l) : fromBytesBE (toBytesBE n l) = n :=
  from_toBE _ n h h'
theorem toBytesBE_inj {m n l : Int} (hm : 0 ≤ m) (hm' : m < ipow 256 l) (hn : 0 ≤ n) (hn' : n < ipow 256 l)
    (h : toBytesBE m l = toBytesBE n l) : m = n := by
  rw [← from_toBytesBE hm hm', ← from_toBytesBE hn hn', h]
theorem fromBytesBE_lt (b : Bytes) : fromBytesBE b < ipow 256 (blen b) := by
  induction b using List.reverseRecOn with
  | nil => simp [fromBytesBE, ipow]
  | append_singleton l a ih =>
    rw [fromBytesBE_append]
    have : blen (l ++ [a]) = blen l + 1 := by simp [blen]
    rw [this, ipow_succ _ (blen_nonneg l)]
    have := a.isLt
    omega
theorem bslice_bcat_left (a b : Bytes) {j : Int} (h : blen a = j) : bslice (bcat a b) 0 j = a := by
  subst h; simp [bslice, bcat, blen]
theorem bslice_bcat_right (a b : Bytes) {i j : Int} (h : blen a = i) (h' : j = i + blen b) : bslice (bcat a b) i j = b := by
  subst h; subst h'
  have : ((a.length : Int) + (b.length : Int)).toNat = a.length + b.length := by omega
  simp only [bslice, bcat, blen, this, Int.toNat_natCast]
  rw [List.take_of_length_le (by simp)]; simp
theorem bjoin_zero (f : Int → Bytes) : bjoin 0 f = [] := rfl
theorem bjoin_succ {n : Int} (f : Int → Bytes) (h : 0 ≤ n) : bjoin (n + 1) f = bcat (bjoin n f) (f n) := by
  simp [bjoin, bcat, toNat_succ h, List.range_succ, Int.toNat_of_nonneg h]
theorem blen_bjoin {n w : Int} (f : Int → Bytes) (h : 0 ≤ n) (hw : ∀ i, 0 ≤ i → i < n → blen (f i) = w) : blen (bjoin n f) = n * w := by
  revert hw
  refine int_induction (P := fun n => (∀ i, 0 ≤ i → i < n → blen (f i) = w) → blen (bjoin n f) = n * w) ?_ ?_ n h
  · intro _; simp [bjoin_zero]
  · intro n hn ih hw
    rw [bjoin_succ f hn, blen_bcat, ih (fun i h0 h1 => hw i h0 (by omega)), hw n hn (by omega)]; ring
theorem bslice_append_left (a b : Bytes) {i j : Int} (h : j ≤ blen a) : bslice (bcat a b) i j = bslice a i j := by
  unfold bslice bcat blen at *
  rw [List.take_append_of_le_length (by omega)]
/-- the i-th chunk of a join of equally long pieces -/
theorem bslice_bjoin {n w i : Int} (f : Int → Bytes) (hw : ∀ i, 0 ≤ i → i < n → blen (f i) = w) (hw0 : 0 ≤ w) (h0 : 0 ≤ i) (h1 : i < n) :
    bslice (bjoin n f) (w * i) (w * i + w) = f i := by
  have hn : 0 ≤ n := by omega
  revert hw h1
  refine int_induction (P := fun n => (∀ i, 0 ≤ i → i < n → blen (f i) = w) → i < n → bslice (bjoin n f) (w * i) (w * i + w) = f i) ?_ ?_ n hn
  · intro _ h; omega
  · intro n hn ih hw hi
    have hl := blen_bjoin f hn (fun i h0 h1 => hw i h0 (by omega))
    rw [bjoin_succ f hn]
    rcases lt_or_ge i n with h | h
    · rw [bslice_append_left, ih (fun i h0 h1 => hw i h0 (by omega)) h]
      rw [hl]; nlinarith
    · obtain rfl : i = n := by omega
      exact bslice_bcat_right _ _ (by rw [hl]; ring) (by rw [hw i hn (by omega)])

/-- slices stop at the end by themselves -/
theorem bslice_clamp_hi (b : Bytes) (i j : Int) : bslice b i (if j ≤ blen b then j else blen b) = bslice b i j := by
  split_ifs with h
  · rfl
  · unfold bslice blen at *; rw [Int.toNat_natCast, List.take_length, List.take_of_length_le (by omega)]
theorem bslice_clamp_lo (b : Bytes) (i j : Int) : bslice b (if i ≤ blen b then i else blen b) j = bslice b i j := by
  split_ifs with h
  · rfl
  · unfold bslice blen at *
    rw [List.drop_eq_nil_of_le (by rw [List.length_take]; omega), List.drop_eq_nil_of_le (by rw [List.length_take]; omega)]

/-- a number of at most 256 bits fits 32 bytes -/
theorem fits_32 {a p : Int} (h : a < p) (hp : p ≤ 115792089237316195423570985008687907853269984665640564039457584007913129639935) : a < ipow 256 32 := by
  refine lt_trans (lt_of_lt_of_le h hp) ?_
  show _ < (256 : Int) ^ (32 : ℕ)
  norm_num
/-- two numbers written as 32 bytes each are read back -/
theorem two_words {a b : Int} (ha : 0 ≤ a) (ha' : a < ipow 256 32) (hb : 0 ≤ b) (hb' : b < ipow 256 32) :
    fromBytesBE (bslice (bcat (toBytesBE a 32) (toBytesBE b 32)) 0 32) = a ∧
    fromBytesBE (bslice (bcat (toBytesBE a 32) (toBytesBE b 32)) 32 (blen (bcat (toBytesBE a 32) (toBytesBE b 32)))) = b := by
  generalize hx : toBytesBE a 32 = x
  generalize hy : toBytesBE b 32 = y
  have lx : blen x = 32 := by rw [← hx]; exact blen_toBytesBE _ (by norm_num)
  have ly : blen y = 32 := by rw [← hy]; exact blen_toBytesBE _ (by norm_num)
  have lxy : blen (bcat x y) = 32 + blen y := by rw [← lx]; simp [bcat, blen]
  constructor
  · rw [bslice_bcat_left _ _ lx, ← hx, from_toBytesBE ha ha']
  · rw [bslice_bcat_right _ _ lx lxy, ← hy, from_toBytesBE hb hb']
