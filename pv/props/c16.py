"""C16: byte encodings and leaf packing."""
from ..check import Property
from ..contract import *
from ..sorts import *
from .c01 import primefield, residue, is_residue, identity_memoize
from .c03 import Gcd
from .c04 import Strip, anypoly, coeffs, is_poly
from .c09 import rationals, rational, parts
from .c14 import ELT, Merkelize, Permute, CTX as TREE_CTX, entries, encode, pidx, pinv, commit
from .c18 import blen, H_CTX
from .fields import hooks, extfield, element

TOP = 2 ** 256
JOIN = "!have hl := blen_bjoin (n := a_n) (w := 32) (fun i => enc (a i)) h_len (fun i _ _ => enc_len _)\n"


class PrimeBytes(Scenarios):
    qual = "starks.modp:IntegersModP"
    name = "bytes"
    hints = {"ensures:*": "!first | exact Int.emod_nonneg _ (by omega) | exact Int.emod_lt_of_pos _ (by omega) | (rw [from_toBytesBE h_inv (lt_trans h_inv_1 (lt_of_le_of_lt h_req (by simp [ipow])))]; exact Int.emod_eq_of_lt h_inv h_inv_1) | exact blen_toBytesBE _ (by norm_num)"}

    def s_round_trip(self, ex):
        p, K = primefield(ex)
        x, a = residue(ex, K, p, "a")
        ex.add_fact("req", le(p, TOP - 1))
        b = as_term(ex.call_method(x, "to_bytes", []), BYTES)
        ex.oblige("ensures:encoding", eq(b, app("toBytesBE", BYTES, a, T(32))))
        ex.oblige("ensures:length", eq(blen(b), 32))
        is_residue(ex, "decoded", ex.call(K, [b]), K, p, a)


class RationalBytes(Scenarios):
    qual = "starks.rationals_modp:RationalsModP"
    name = "bytes"
    hints = {"ensures:*": """!have w := two_words h_a (fits_32 h_a_1 h_req) h_a_2.le (fits_32 h_a_3 h_req)
simp only [bslice_clamp_hi, bslice_clamp_lo, w.1, w.2] at h_post_2 h_post_3 ⊢
have e3 := rat_back h_a h_a_1 h_a_2 h_a_3 h_a_4 h_post_2 h_post_3
first | exact e3.1 | exact e3.2 | (rw [e3.1, e3.2])"""}

    def s_round_trip(self, ex):
        p, Q = rationals(ex)
        x, m, n = rational(ex, Q, p, "a")
        ex.add_fact("req", le(p, TOP - 1))
        b = as_term(ex.call_method(x, "to_bytes", []), BYTES)
        r = ex.call(Q, [b])
        if not (isinstance(r, Ref) and ex.heap[r.addr]["$class"] is Q):
            ex.oblige("ensures:type", FALSE)
            return
        k, l = parts(ex, r)
        ex.oblige("ensures:numerator", eq(k, m))
        ex.oblige("ensures:denominator", eq(l, n))
        ex.oblige("ensures:equal", prop_of(ex.truth(seqops.obj_eq(ex, "__eq__", r, x))))


class PolyBytes(Scenarios):
    qual = "starks.polynomial:polynomials_over"
    name = "bytes"
    lean_ctx = FLD_CTX + CODE
    hints = {"no-exception*": JOIN + "omega", "ensures:encoding": "!rfl", "ensures:*": JOIN + """have hq : blen (bjoin a_n (fun i => enc (a i))) / 32 = a_n := by omega
have e : ∀ i, 0 ≤ i → i < a_n → dec (bslice (bjoin a_n (fun i => enc (a i))) (32 * i) (32 * i + 32)) = a i := fun i h0 h1 => by
  rw [bslice_bjoin _ (fun _ _ _ => enc_len _) (by norm_num) h0 h1, dec_enc]
simp only [bslice_clamp_hi, bslice_clamp_lo, hq] at *
have hm : m = a_n := strip_keep h_inv h_strip h_strip_1 (fun i h0 h1 => (e i (by omega) h1).symm.trans (h_strip_2 i ⟨h0, h1⟩))
subst hm
have hp : pof m (fun i => dec (bslice (bjoin m (fun i => enc (a i))) (32 * i) (32 * i + 32))) = pof m (fun i => a i) := pof_congr (fun i h0 h1 => e i h0 h1)
first | exact hp | exact canon_congr h_inv (fun i h0 h1 => (e i h0 h1).symm)"""}

    def s_round_trip(self, ex):
        P = real_polyclass(ex)
        p, a = anypoly(ex, P, "a")
        b = as_term(ex.call_method(p, "to_bytes", []), BYTES)
        ex.oblige("ensures:encoding", eq(b, app("bjoin", BYTES, T(a.n), Lam(lambda i: app("enc", BYTES, as_term(a.get(i), FLD))))))
        is_poly(ex, "decoded", ex.call(P, [b]), P, pof_seq(a))


class ExtBytes(Scenarios):
    qual = "starks.finitefield:FiniteField"
    name = "bytes"
    lean_ctx = FLD_CTX + PCODE
    hints = {"safe:byte-length": "!exact penc_len _", "ensures:value": "!rw [pdec_penc]; quot_auto", "*": "!quot_auto"}

    def s_round_trip(self, ex):
        F, P, g = extfield(ex)
        x, a = element(ex, F, g, "a")
        b = as_term(ex.call_method(x, "to_bytes", []), BYTES)
        ex.oblige("ensures:encoding", eq(b, app("penc", BYTES, a)))
        r = ex.call(F, [b])
        if not (isinstance(r, Ref) and ex.heap[r.addr]["$class"] is F):
            ex.oblige("ensures:type", FALSE)
            return
        ex.oblige("ensures:value", eq(PLY.cls.seal.conv(ex, ex.heap[r.addr]["poly"]), a))


MOD = "starks.merkle_tree:"


class Unpack(Contract):
    qual = MOD + "unpack_merkle_leaf"
    hints = {"inv-step:chunks": """!intro i hi
simp only [bslice_clamp_hi, bslice_clamp_lo]
split_ifs with h
· exact h_inv_3 i (by omega)
· have : i = k * dims + k_1 := by omega
  subst this; congr 1 <;> ring1""",
             "*": "!merkle_auto"}

    def instances(self, ex):
        return {"any": lambda ex: [ex.fresh("leaf", ("s", BYTES)), ex.fresh("dims", ("s", INT)), ex.fresh("polys", ("s", INT))]}

    def requires(self, ex, leaf, dims, polys):
        return [("counts", And(le(0, T(dims)), le(0, T(polys)))), ("length", eq(blen(leaf), mul(32, mul(T(polys), T(dims)))))]

    def result(self, ex, *a):
        return ("seq", ("s", BYTES))

    @staticmethod
    def chunk(leaf, i):
        return app("bslice", BYTES, leaf, mul(32, i), add(mul(32, i), 32))

    def ensures(self, ex, r, leaf, dims, polys):
        n = mul(T(polys), T(dims))
        return [("length", eq(T(r.n), n)),
                ("chunks", Forall_range(0, n, lambda i: eq(as_term(r.get(i), BYTES), self.chunk(leaf, i))))]

    @staticmethod
    def inv(s, n):
        return [("length", eq(T(s.vals.n), n)),
                ("chunks", Forall_range(0, n, lambda i: eq(as_term(s.vals.get(i), BYTES), Unpack.chunk(s.args[0], i))))]

    loops = [LoopSpec(kind="for", force=True, roles={"vals": ("vals", ("seq", ("s", BYTES)))},
                      inv=lambda s: Unpack.inv(s, mul(s.k, T(s.args[1])))),
             LoopSpec(kind="for", force=True, roles={"vals": ("vals", ("seq", ("s", BYTES)))},
                      inv=lambda s: Unpack.inv(s, add(T(s.init.vals.n), s.k)))]


class Packing(Scenarios):
    """every polynomial's value at an index is found in the leaf of that index"""
    qual = MOD + "merkelize_polynomial_evaluations"
    name = "packing"
    lean_ctx = TREE_CTX + " (enc_len : ∀ x, blen (enc x) = 32)"
    LEAF = """!obtain ⟨_, _, _, rfl⟩ := h_zip_2 (by positivity)
have hr := pidx_range h_req_3 h_req_4 h_req_5
have hl := h_post_1 _ hr
rw [pinv_pidx h_req_3 h_req_4 h_req_5, add_comm] at hl
"""
    hints = {"ensures:size": LEAF + "rw [hl, blen_bjoin _ (by positivity) (fun _ _ _ => enc_len _)]; ring1",
             "ensures:value": LEAF + "rw [h_post_4 i ⟨h_req_6, h_req_7⟩, hl, bslice_bjoin _ (fun _ _ _ => enc_len _) (by norm_num) h_req_6 h_req_7]",
             "*": "!merkle_auto"}

    def s_leaf(self, ex):
        N, dims, polys, j, i = (ex.fresh(x, ("s", INT)) for x in ("N", "dims", "polys", "j", "i"))
        k = mul(T(polys), T(dims))
        ex.add_fact("req", And(le(1, T(dims)), le(1, T(polys)), lt(0, N), eq(fmod(N, 4), 0), le(0, j), lt(j, N), le(0, i), lt(i, k)))
        ev = var("ev", FnSort([INT, INT], ELT))
        rows = Seq(None, k, lambda r: Seq(None, N, lambda c: apply(ev, T(r), T(c)), ("s", ELT)), ("seq", ("s", ELT)))
        f = ex.get_function(self.qual)
        tree = ex.seq(ex.call(f, [dims, ex.alloc(rows, "list")]))
        ex.oblige("ensures:nodes", eq(T(tree.n), 2 * N))
        leaf = as_term(tree.get(add(N, pidx(N, j))), BYTES)
        ex.oblige("ensures:size", eq(blen(leaf), mul(32, k)))
        out = ex.seq(ex.call(ex.get_function(MOD + "unpack_merkle_leaf"), [leaf, dims, polys]))
        ex.oblige("ensures:count", eq(T(out.n), k))
        ex.oblige("ensures:value", eq(as_term(out.get(i), BYTES), app("enc", BYTES, apply(ev, i, j))))


class C16(Property):
    id = "C16"
    contracts = (PrimeBytes, RationalBytes, PolyBytes, ExtBytes, Unpack, Packing)
    uses = (Gcd, Strip, Merkelize)
    lib = ("Pv.Gcd", "Pv.Rat", "Pv.Quot", "Pv.Poly", "Pv.Merkle")
    assumptions = ("gcd as discharged in C03, strip as in C04, merkelize as in C14",
                   "int.to_bytes, int.from_bytes and bytes slicing are Python's")

    def setup(self, w):
        hooks(w)


PROPERTY = C16()
