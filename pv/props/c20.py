"""C20: the polynomials of a STARK."""
from ..check import Property
from ..contract import *
from ..sorts import *
from ..values import *
from .c12 import fn, Lagrange2
from .c13 import Fft1d
from .fields import hooks
from .c18 import H_CTX

MOD = "starks.stark:"
PLYS = ("seq", ("s", PLY))


def X():
    return app("Polynomial.X", PLY)


def C(v):
    return app("Polynomial.C", PLY, as_term(v, FLD))


def power(w, i):
    return app("ipow", FLD, w, i)


def ev(x, f):
    return app("Polynomial.eval", FLD, x, f)


def vanish(n, w):
    """(x - 1)(x - w)...(x - w^(n-1))"""
    return app("vanish", PLY, n, Lam(lambda i: power(w, i)))


class Group(Contract):
    """over the group of n powers of w; p is the prime of the field"""
    lean_ctx = FLD_CTX

    def group(self, ex):
        ex.sealedP = sealed_polyclass(ex)
        n, p = ex.ghost_n, ex.field_prime = ex.fresh("order", ("s", INT)), ex.fresh("p", ("s", INT))
        ex.loose_eval = True
        w = ex.fresh("w", ("s", FLD))
        ex.add_fact("req", And(app("Prime", PROP, p), lt(1, p), eq(cast(p, FLD), T(0, FLD))))
        ex.add_fact("req", app("primroot", PROP, n, w))
        ex.ghost_w = w
        return n, w


class Trace(Group):
    """trace polynomial j takes the value of dimension j at the powers of the root"""
    qual = MOD + "construct_trace_polynomials"

    def instances(self, ex):
        def one(ex):
            n, w = self.group(ex)
            wit = ex.fresh("witness", ("seq", ("seq", ("s", FLD))))
            ex.add_fact("req", Forall_range(0, T(wit.n), lambda j: eq(T(wit.get(j).n), n)))
            return [ex.alloc(wit, "list"), FLD.cls, w]
        return {"any": one}

    def result(self, ex, *a):
        return PLYS

    @staticmethod
    def good(n, w, wit, r, m):
        return [("degree", Forall_range(0, m, lambda j: le(plen(r.get(j)), n))),
                ("values", Forall_range(0, m, lambda j: Forall_range(0, n, lambda i: eq(ev(power(w, i), r.get(j)), as_term(wit.get(j).get(i), FLD)))))]

    def ensures(self, ex, r, wit, field, w):
        return [("one-per-dimension", eq(T(r.n), T(wit.n)))] + self.good(ex.ghost_n, w, wit, r, T(wit.n))

    hints = {
        "safe:pre:fft_1d:length": "!rw [h_req_1 _ (by omega)]",
        "inv-step:degree": """!intro j hj
by_cases h : j < polys_n
· rw [if_pos h]; exact h_inv_1 j (by omega)
· rw [if_neg h, h_post]; exact plen_pof_le (ispow2_pos h_req.1).le _""",
        "inv-step:values": """!intro j hj i hi
by_cases h : j < polys_n
· rw [if_pos h]; exact h_inv_2 j (by omega) i hi
· obtain rfl : j = k := by omega
  rw [if_neg h, h_post, h_post_1 i hi, if_pos (by rw [h_req_1 _ (by omega)]; omega)]""",
        "*": "!stark_auto"}
    loops = [LoopSpec(kind="for", force=True, roles={"polys": ("trace_polys", PLYS)},
                      inv=lambda s: [("length", eq(T(s.polys.n), s.k))] + Trace.good(s.ex.ghost_n, s.args[2], s.args[0], s.polys, s.k))]


class Steps(Seal):
    """step polynomials, seen as functions: their values at the trace polynomials"""

    def call_instance(self, ex, f, args):
        s, t = ex.seq(args[0]), ex.ghost_trace
        ex.safe("applied-to-the-trace", And(eq(T(s.n), T(t.n)), Forall_range(0, T(t.n), lambda i: eq(s.get(i), t.get(i)))))
        return Mix(app("stepval", PLY, f))


STEP = sealed_class("Step", Steps(), "StepT", ring=False)


class Constraint(Group):
    """constraint j is P_j(w x) - step_j(P_1, .., P_width)"""
    qual = MOD + "construct_constraint_polynomials"
    lean_ctx = FLD_CTX + " {StepT : Type} (stepval : StepT → Polynomial FldT)"

    def instances(self, ex):
        def one(ex):
            n, w = self.group(ex)
            t, s = ex.fresh("trace", PLYS), ex.fresh("steps", ("seq", ("s", STEP)))
            ex.ghost_trace = t
            ex.add_fact("req", eq(T(t.n), T(s.n)))
            return [ex.alloc(s, "list"), ex.alloc(t, "list"), FLD.cls, w, T(t.n)]
        return {"any": one}

    def result(self, ex, *a):
        return PLYS

    @staticmethod
    def good(ex, r, steps, t, w, m):
        return Forall_range(0, m, lambda j: eq(T(r.get(j)), sub(app("Polynomial.comp", PLY, t.get(j), mul(C(w), X())), app("stepval", PLY, steps.get(j)))))

    def ensures(self, ex, r, steps, t, field, w, width):
        return [("one-per-dimension", eq(T(r.n), T(t.n))), ("constraint", self.good(ex, r, steps, t, w, T(t.n)))]

    hints = {
        "inv-step:constraint": """!intro j hj
simp only [pof2X]
by_cases h : j < polys_n
· rw [if_pos h]; exact h_inv_1 j (by omega)
· obtain rfl : j = polys_n := by omega
  rw [if_neg h, h_inv]""",
        "ensures:constraint": "!intro j hj; exact h_inv_1 j (by split_ifs <;> omega)",
        "*": "!stark_auto"}
    loops = [LoopSpec(kind="for", force=True, roles={"polys": ("constraint_polys", PLYS)},
                      inv=lambda s: [("length", eq(T(s.polys.n), s.k)), ("constraint", Constraint.good(s.ex, s.polys, s.args[0], s.args[1], s.args[3], s.k))])]


class Remainder(Group):
    """C_j = Z * D_j where Z * (x - last) = x^n - 1, for constraints that vanish
    at every step but the last; anything else is refused"""
    qual = MOD + "construct_remainder_polynomials"

    def instances(self, ex):
        def one(ex):
            n, w = self.group(ex)
            c = ex.fresh("constraints", PLYS)
            return [ex.alloc(c, "list"), FLD.cls, n, power(w, n - 1)]
        return {"any": one}

    @staticmethod
    def valid(ex, c):
        n, w = ex.ghost_n, ex.ghost_w
        return Forall_range(0, T(c.n), lambda j: Forall_range(0, n - 1, lambda i: eq(ev(power(w, i), c.get(j)), T(0, FLD))))

    def requires(self, ex, c, *a):
        return [("valid", self.valid(ex, c))]

    def result(self, ex, *a):
        return PLYS

    def ensures(self, ex, r, c, field, n, last):
        z = vanish(n - 1, ex.ghost_w)
        return [("one-per-constraint", eq(T(r.n), T(c.n))),
                ("quotient", Forall_range(0, T(c.n), lambda j: eq(T(c.get(j)), mul(z, T(r.get(j))))))]

    hints = {
        "assert": """!first
| (stark_auto; done)
| (simp only [pof2X, map_one]; rw [group_quo ‹primroot _ _›]
   exact prem_dvd.2 (vanish_dvd ‹primroot _ _› (by omega) _ fun i a b => h_req_1 _ ⟨by assumption, by assumption⟩ i ⟨a, b⟩))""",
        "ensures:quotient": """!intro j hj
simp only [pof2X, map_one]; rw [group_quo ‹primroot _ _›, mul_comm]
exact (pquo_dvd (vanish_dvd ‹primroot _ _› (by omega) _ fun i a b => h_req_1 j hj i ⟨a, b⟩)).symm""",
        "*": "!stark_auto"}


class Boundary(Group):
    """P_j = B_j * (x - 1)(x - last) + I_j, with I_j the line through the first
    and the last value of dimension j"""
    qual = MOD + "construct_boundary_polynomials"
    hints = {
        "safe:index": "!first | omega | (have := (h_req_4 _ ⟨h_idx, h_idx_1⟩).1; omega)",
        "safe:pre:lagrange_interp_2:distinct": "!exact fun e => h_req.2.2 _ (by omega) (by omega) e",
        "inv-step:lines": """!intro j hj
by_cases h : j < lines_n
· rw [if_pos h]; exact h_inv_1 j (by omega)
· obtain rfl : j = k_2 := by omega
  obtain ⟨h1, h2⟩ := h_req_4 j (by omega)
  rw [if_neg h, h2, h1]""",
        "no-exception:ZeroDivisionError": "!rw [pof2N] at h_branch; exact two_ne _ _ h_branch",
        "inv-step:quotient": """!intro j hj
split_ifs at h_idx_2 with hs
all_goals
  by_cases h : j < polys_n
  · rw [if_pos h]; exact h_inv_3 j (by omega)
  · obtain rfl : j = k_3 := by omega
    rw [if_neg h, pof2N]
    rw [← h_inv_1 j (by omega)]
    have e0 := h_req_6 j (by omega) 0 (by omega)
    have e1 := h_req_6 j (by omega) (order + -1) (by omega)
    rw [show ipow w 0 = 1 by simp [ipow]] at e0
    rw [show (1 : Polynomial FldT) = Polynomial.C 1 by simp]
    exact (boundary_quo h_req h_req_1 e0 e1 (h_inv_1 j (by omega))).symm""",
        "ensures:quotient": "!intro j hj; exact sub_eq_iff_eq_add.1 (h_inv_3 j (by split_ifs <;> omega))",
        "*": "!stark_auto"}

    def instances(self, ex):
        def one(ex):
            n, w = self.group(ex)
            ex.add_fact("req", le(2, n))
            t, wit = ex.fresh("trace", PLYS), ex.fresh("witness", ("seq", ("seq", ("s", FLD))))
            b = ex.fresh("boundary", ("seq", ("tuple", (("s", INT), ("s", INT), ("s", FLD)))))
            ex.add_fact("req", And(eq(T(t.n), T(wit.n)), eq(T(b.n), T(wit.n))))
            ex.add_fact("req", Forall_range(0, T(wit.n), lambda j: And(eq(T(wit.get(j).n), n), eq(as_term(b.get(j)[2], FLD), as_term(wit.get(j).get(0), FLD)))))
            for nm, f in Trace.good(n, w, wit, t, T(wit.n)):
                ex.add_fact("req", f)
            return [ex.alloc(t, "list"), ex.alloc(wit, "list"), ex.alloc(b, "list"), FLD.cls, power(w, n - 1), T(wit.n)]
        return {"any": one}

    def result(self, ex, *a):
        return PLYS

    @staticmethod
    def line(s, j):
        wit, last = s[1], s[4]
        return app("lag2", PLY, T(1, FLD), as_term(last, FLD), as_term(wit.get(j).get(0), FLD), as_term(wit.get(j).get(s[6] - 1), FLD))

    def ensures(self, ex, r, t, wit, b, field, last, width):
        s = (t, wit, b, field, last, width, ex.ghost_n)
        zz = mul(sub(X(), T(1, PLY)), sub(X(), C(last)))
        return [("one-per-dimension", eq(T(r.n), T(wit.n))),
                ("quotient", Forall_range(0, T(wit.n), lambda j: eq(T(t.get(j)), add(mul(T(r.get(j)), zz), self.line(s, j)))))]

    loops = [LoopSpec(kind="for", force=True, roles={"lines": ("interpolants", PLYS)},
                      inv=lambda s: [("length", eq(T(s.lines.n), s.k)),
                                     ("lines", Forall_range(0, s.k, lambda j: eq(T(s.lines.get(j)), Boundary.line(list(s.args) + [s.ex.ghost_n], j))))]),
             LoopSpec(kind="for", force=True, roles={"polys": ("b_polys", PLYS)},
                      inv=lambda s: [("length", eq(T(s.polys.n), s.k)),
                                     ("quotient", Forall_range(0, s.k, lambda j: eq(sub(T(s.args[0].get(j)), Boundary.line(list(s.args) + [s.ex.ghost_n], j)), mul(T(s.polys.get(j)), mul(sub(X(), T(1, PLY)), sub(X(), C(s.args[4])))))))])]


class Coefficients(Scenarios):
    """one coefficient per requested position, determined by the root"""
    qual = MOD + "get_pseudorandom_ks"
    lean_ctx = "(H : Bytes → Bytes) (label : Int → Bytes)"

    def run2(self, ex, num):
        root = ex.fresh("root", ("s", BYTES))
        f = ex.get_function(self.qual)
        r = ex.seq(ex.call(f, [root, num]))
        ex.oblige("ensures:one-per-position", eq(T(r.n), T(num)))
        r2 = ex.seq(ex.call(f, [root, num]))
        equal(ex, "deterministic", r2, r)

    def s_any(self, ex):
        n = ex.fresh("num", ("s", INT))
        ex.add_fact("req", le(0, n))
        self.run2(ex, n)


class Label:
    def __init__(self, i):
        self.i = i

    def method(self, ex, v, name):
        if name == "encode":
            return SymFunc(name, lambda ex, a, k: app("label", BYTES, self.i))
        return NotImplemented


def fstring(ex, parts):
    """text that depends on one number"""
    nums = [p for p in parts if not isinstance(p, str)]
    if len(nums) == 1 and isinstance(nums[0], Term) and nums[0].sort is INT:
        return TypedOpaque("text", Label(nums[0]))
    if len(nums) == 1 and isinstance(nums[0], TypedOpaque):
        return nums[0]
    return Opaque("text")


class C20(Property):
    id = "C20"
    contracts = (Trace, Constraint, Remainder, Boundary, Coefficients)
    uses = (Fft1d, Lagrange2)
    lib = ("Pv.Stark",)
    theorems = ("group_last", "lag2_spec", "fft_unique")
    assumptions = ("field elements and polynomials satisfy the contracts proved in C01, C04, C05 and C06; the transform the contract of C13, the line the contract of C12",)

    def setup(self, w):
        hooks(w)
        w.externals["$fstring"] = fstring


PROPERTY = C20()
