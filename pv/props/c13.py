"""C13: the radix-2 Fourier transform."""
from ..check import Property
from ..contract import *
from ..sorts import *
from .c12 import fn
from .fields import hooks

MOD = "starks.fft:"

HALF = "!have hh := fft_split h_req_1 (by omega)\n"
END = """!have hN := rootz_end h_req h_inv h_inv_1 h_inv_2 ‹rootz (rootz_n + -1) = 1›
obtain rfl : order = rootz_n + -1 := by omega
have hf : ∀ i, 0 ≤ i → i < rootz_n + -1 → rootz i = ipow w i := fun i a b => h_inv_2 i ⟨a, by omega⟩
have hb : ∀ i, 0 ≤ i → i < rootz_n + -1 → rootz (rootz_n + -i + -1) = ipow w (rootz_n + -1 - i) := fun i a b => by
  rw [h_inv_2 _ ⟨by omega, by omega⟩]; congr 1; omega
have hne := primroot_ne h_req
"""
PAD = "(fun j a b => by first | rfl | exact if_pos (by omega)) (fun j a b c => by first | omega | exact if_neg (by omega))"
MIX = ("seq", ("mix", FLD))


def froot(n, r):
    return app("froot", FLD, T(n), fn(r))


def dft(n, w, v, i):
    return app("dft", FLD, T(n), w, fn(v), i)


def fresh_list(ex, name, kind=MIX):
    return ex.alloc(ex.fresh(name, kind), "list")


class Ft(Contract):
    """entries listed at a root whose powers are listed"""
    lean_ctx = FLD_CTX

    def instances(self, ex):
        return {"any": lambda ex: [fresh_list(ex, "vals"), fresh_list(ex, "roots")]}

    def requires(self, ex, vals, roots):
        return [("size", eq(T(vals.n), T(roots.n))), ("roots", app("fftroots", PROP, T(roots.n), fn(roots)))]

    def result(self, ex, *a):
        return MIX

    def ensures(self, ex, r, vals, roots):
        n = T(roots.n)
        return [("length", eq(T(r.n), n)),
                ("transform", Forall_range(0, n, lambda i: eq(as_term(r.get(i), FLD), dft(n, froot(n, roots), vals, i))))]


class Simple(Ft):
    qual = MOD + "_simple_ft"
    hints = {
        "safe:index": "!first | omega | exact Int.emod_nonneg _ (by omega) | exact Int.emod_lt_of_pos _ (by omega)",
        "*": "!fft_auto"}


def entry(s, j, at):
    vals, roots = s.args[:2]
    return eq(as_term(s.o.get(at), FLD), dft(roots.n, froot(roots.n, roots), vals, at))


class Fft(Ft):
    qual = MOD + "_fft"
    hints = {
        "safe:pre:_fft:size": HALF + "omega",
        "safe:pre:_fft:roots": HALF + "exact (fftroots_half _ _ h_req_1 (by omega) hh (fun i a b => rfl)).1",
        "inv-step:low": HALF + """intro i hi
obtain ⟨_, hw⟩ := fftroots_half _ (fun i => roots (2 * i)) h_req_1 (by omega) hh (fun i a b => rfl)
rw [if_neg (by split_ifs at h_idx_1 <;> omega)]
split_ifs with h
· subst h; rw [h_post_1 _ (by split_ifs at h_idx_1 <;> omega), h_post_3 _ (by split_ifs at h_idx_1 <;> omega)]
  exact fft_low _ _ _ _ h_req_1 (by omega) hh (fun j a b => rfl) (fun j a b => rfl) hw hi.1 (by split_ifs at h_idx_1 <;> omega)
· exact h_inv_1 i (by omega)""",
        "inv-step:high": HALF + """intro i hi
obtain ⟨_, hw⟩ := fftroots_half _ (fun i => roots (2 * i)) h_req_1 (by omega) hh (fun i a b => rfl)
by_cases h : i = k_1
· subst h; rw [if_pos (by omega), h_post_1 _ (by split_ifs at h_idx_1 <;> omega), h_post_3 _ (by split_ifs at h_idx_1 <;> omega)]
  rw [show vals_n / 2 = (roots_n + 1) / 2 by omega]
  exact fft_high _ _ _ _ h_req_1 (by omega) hh (fun j a b => rfl) (fun j a b => rfl) hw hi.1 (by split_ifs at h_idx_1 <;> omega)
· rw [if_neg (by omega), if_neg (by split_ifs at h_idx_1 <;> omega)]; exact h_inv_2 i (by omega)""",
        "ensures:transform": HALF + """intro i hi
by_cases h : i < (roots_n + 1) / 2
· exact h_inv_1 i (by split_ifs <;> omega)
· have := h_inv_2 (i - vals_n / 2) (by split_ifs <;> omega)
  rwa [show i - vals_n / 2 + vals_n / 2 = i by omega] at this""",
        "*": "!fft_auto"}

    loops = [LoopSpec(kind="for", force=True, roles={"o": ("o", MIX)},
                      inv=lambda s: [("length", eq(T(s.o.n), T(s.args[0].n))),
                                     ("low", Forall_range(0, s.k, lambda j: entry(s, j, j))),
                                     ("high", Forall_range(0, s.k, lambda j: entry(s, j, add(j, fdiv(T(s.args[0].n), 2)))))])]

    def measure(self, vals, roots):
        return T(vals.n)


def powers(n, w, r):
    return Forall_range(0, n, lambda i: eq(as_term(r.get(i), FLD), app("ipow", FLD, w, i)))


def rootz_loop(w):
    return LoopSpec(kind="while", roles={"rootz": ("rootz", lambda a: ("seq", ("mix", FLD)))}, force=True,
                    inv=lambda s: [("length", And(le(2, T(s.rootz.n)), le(T(s.rootz.n), s.ex.ghost_n + 1))),
                                   ("powers", powers(T(s.rootz.n), w(s), s.rootz))],
                    decreases=lambda s: s.ex.ghost_n + 1 - T(s.rootz.n))


LOOP = {
    "inv-init:powers": "!exact rootz_init _",
    "inv-init:length": "!have := ispow2_pos h_req.1; omega",
    "inv-step:length": "!exact (rootz_len h_req h_inv h_inv_1 h_inv_2 h_cond).2",
    "inv-step:powers": "!exact rootz_step _ h_inv h_inv_2",
    "safe:pre:_fft:size": END + "first | omega | (split_ifs <;> omega)",
    "safe:pre:_fft:roots": END + "first | exact (primroot_fft _ h_req hf).1 | exact fftroots_rev h_req hb",
    "ensures:length": END + "omega",
    "ensures:values": END + "intro i hi; rw [h_post_1 i hi]; exact fft_forward _ _ _ h_req hf (by omega) " + PAD + " hi.1",
    "ensures:interpolates": END + """intro i hi
refine fft_backward (fun k => rootz (rootz_n + -k + -1)) _ (fun j => if j < vals_n then vals j else 0) _ h_req hb (fun j a b => by first | rfl | exact (if_pos (by omega)).symm) ?_ hi.1 hi.2
intro j a b
rw [h_post_1 j ⟨a, b⟩]
first
  | rw [fermat_inv ‹Prime modulus› (by omega) (by omega) ‹((modulus : Int) : FldT) = 0› hne]
  | (rw [show ipow vals_n (modulus + -2) = ipow (rootz_n + -1) (modulus + -2) by rw [show vals_n = rootz_n + -1 by omega], fermat_inv ‹Prime modulus› (by omega) (by omega) ‹((modulus : Int) : FldT) = 0› hne]
     exact congrArg (· * _) (dft_congr (fun j a b => by first | rfl | exact (if_pos (by omega)).symm) _))""",
    "safe:inverse-of-zero": END + "rwa [mul_zero, zero_add]",
    "ensures:product": END + """intro i hi
have ea : r_fft i = Polynomial.eval (ipow w i) (pof a_n fun i => a i) := by
  rw [h_post_1 i hi]; exact fft_forward _ _ _ h_req hf (by omega) PADDING hi.1
have eb : r_fft_1 i = Polynomial.eval (ipow w i) (pof b_n fun i => b i) := by
  rw [h_post_3 i hi]; exact fft_forward _ _ _ h_req hf (by omega) PADDING hi.1
rw [← ea, ← eb]
refine fft_backward (fun k => rootz (rootz_n + -k + -1)) _ (fun j => r_fft j * r_fft_1 j) _ h_req hb (fun j a b => rfl) ?_ hi.1 hi.2
intro j a b
rw [h_post_5 j ⟨a, b⟩, mul_zero, zero_add]""".replace("PADDING", PAD),
}


class Fft1d(Contract):
    qual = MOD + "fft_1d"
    lean_ctx = FLD_CTX
    hints = {
        **LOOP,
        "*": "!fft_auto"}
    loops = [rootz_loop(lambda s: s.args[3])]

    def instances(self, ex):
        def one(inv):
            def f(ex):
                ex.ghost_n = ex.fresh("order", ("s", INT))
                return [FLD.cls, fresh_list(ex, "vals"), ex.fresh("modulus", ("s", INT)), ex.fresh("w", ("s", FLD)), inv]
            return f
        return {"forward": one(False), "inverse": one(True)}

    def match(self, ex, args):
        return "inverse" if args[4] else "forward"

    def requires(self, ex, field, vals, modulus, w, inv):
        n = ex.ghost_n
        m = T(modulus)
        return [("root", app("primroot", PROP, n, w)), ("length", le(T(vals.n), n)),
                ("modulus", And(app("Prime", PROP, m), lt(1, m), eq(cast(m, FLD), T(0, FLD))))]

    def result(self, ex, *a):
        return MIX

    def ensures(self, ex, r, field, vals, modulus, w, inv):
        n = ex.ghost_n
        out = [("length", eq(T(r.n), n))]
        if not inv:
            out.append(("values", Forall_range(0, n, lambda i: eq(as_term(r.get(i), FLD), app("Polynomial.eval", FLD, app("ipow", FLD, w, i), app("pof", PLY, T(vals.n), fn(vals)))))))
        else:
            out.append(("interpolates", Forall_range(0, n, lambda i: eq(app("Polynomial.eval", FLD, app("ipow", FLD, w, i), app("pof", PLY, n, fn(r))),
                                                                       ite(lt(i, T(vals.n)), as_term(vals.get(i), FLD), T(0, FLD))))))
        return out


class MulPolys(Contract):
    qual = MOD + "mul_polys"
    lean_ctx = FLD_CTX
    hints = {
        **LOOP,
        "*": "!fft_auto"}
    loops = [rootz_loop(lambda s: s.args[2])]

    def instances(self, ex):
        def f(ex):
            ex.ghost_n = ex.fresh("order", ("s", INT))
            return [fresh_list(ex, "a"), fresh_list(ex, "b"), ex.fresh("w", ("s", FLD))]
        return {"any": f}

    def requires(self, ex, a, b, w):
        n = ex.ghost_n
        return [("root", app("primroot", PROP, n, w)), ("length", And(le(T(a.n), n), le(T(b.n), n)))]

    def result(self, ex, *a):
        return MIX

    def ensures(self, ex, r, a, b, w):
        n = ex.ghost_n
        ev = lambda i, m, s: app("Polynomial.eval", FLD, app("ipow", FLD, w, i), app("pof", PLY, T(m), fn(s)))
        return [("length", eq(T(r.n), n)),
                ("product", Forall_range(0, n, lambda i: eq(ev(i, n, r), mul(ev(i, a.n, a), ev(i, b.n, b)))))]


class Transform(Scenarios):
    """NonBinaryFFT over a prime field (p prime and zero in the field)."""
    qual = MOD + "NonBinaryFFT.fft"
    lean_ctx = FLD_CTX
    hints = {
        "ensures:degree": "!exact (plen_pof_le (by assumption) _).trans (le_of_eq (by assumption))",
        "ensures:values": "!intro i hi; rw [h_post_1 i hi]; exact congrArg _ (pof_self f)",
        "*": "!fft_auto"}

    def solver(self, ex):
        ex.sealedP = sealed_polyclass(ex)
        n, p = ex.ghost_n, ex.field_prime = ex.fresh("order", ("s", INT)), ex.fresh("p", ("s", INT))
        w = ex.fresh("w", ("s", FLD))
        ex.add_fact("req", app("primroot", PROP, n, w))
        ex.add_fact("req", app("Prime", PROP, p))
        ex.add_fact("req", lt(1, p))
        ex.add_fact("req", eq(cast(p, FLD), T(0, FLD)))
        return n, w, ex.call(ex.module_name("starks.fft", "NonBinaryFFT"), [FLD.cls, w])

    def s_forward(self, ex):
        n, w, o = self.solver(ex)
        f = ex.fresh("f", ("s", PLY))
        ex.add_fact("req", le(plen(f), n))
        r = ex.seq(ex.call(ex.getattr(o, "fft"), [f]))
        ex.oblige("ensures:length", eq(T(r.n), n))
        ex.oblige("ensures:values", Forall_range(0, n, lambda i: eq(as_term(r.get(i), FLD), app("Polynomial.eval", FLD, app("ipow", FLD, w, i), f))))

    def s_inverse(self, ex):
        n, w, o = self.solver(ex)
        v = ex.fresh("values", ("seq", ("s", FLD)))
        ex.add_fact("req", eq(T(v.n), n))
        f = ex.call(ex.getattr(o, "inv_fft"), [ex.alloc(v, "list")])
        ex.oblige("ensures:degree", le(plen(f), n))
        ex.oblige("ensures:interpolates", Forall_range(0, n, lambda i: eq(app("Polynomial.eval", FLD, app("ipow", FLD, w, i), f), as_term(v.get(i), FLD))))


class C13(Property):
    id = "C13"
    contracts = (Simple, Fft, Fft1d, MulPolys, Transform)
    lib = ("Pv.Fft",)
    theorems = ("fft_unique", "fft_congr", "fermat_inv", "dft_inv")
    assumptions = ("field elements satisfy the field contract proved in C01",)

    def setup(self, w):
        hooks(w)


PROPERTY = C13()
