"""C07: extension fields."""
from ..check import Property
from ..contract import *
from ..sorts import *
from .fields import *


class ExtField(Scenarios):
    qual = "starks.finitefield:FiniteField"
    lean_ctx = FLD_CTX
    hints = {"*": "quot_auto"}

    def same(self, ex, x, a):
        ex.oblige("frame:operand", eq(PLY.cls.seal.conv(ex, ex.heap[x.addr]["poly"]), a))

    def binary(self, ex, op, f):
        F, P, g = extfield(ex)
        x, a = element(ex, F, g, "a")
        y, b = element(ex, F, g, "b")
        r = seqops.binop(ex, op, x, y)
        is_element(ex, op, r, F, g, prem(f(a, b), g))
        self.same(ex, x, a)
        self.same(ex, y, b)

    def s_add(self, ex):
        self.binary(ex, "Add", add)

    def s_sub(self, ex):
        self.binary(ex, "Sub", sub)

    def s_mul(self, ex):
        self.binary(ex, "Mult", mul)

    def s_neg(self, ex):
        F, P, g = extfield(ex)
        x, a = element(ex, F, g, "a")
        is_element(ex, "neg", seqops.unary_neg(ex, x), F, g, prem(neg(a), g))
        self.same(ex, x, a)

    def s_eq(self, ex):
        F, P, g = extfield(ex)
        x, a = element(ex, F, g, "a")
        y, b = element(ex, F, g, "b")
        ex.oblige("ensures:eq", Iff(prop_of(ex.truth(seqops.obj_eq(ex, "__eq__", x, y))), eq(a, b)))
        ex.oblige("ensures:ne", Iff(prop_of(ex.truth(seqops.obj_eq(ex, "__ne__", x, y))), ne(a, b)))

    def s_inverse(self, ex):
        F, P, g = extfield(ex)
        x, a = element(ex, F, g, "a")
        ex.add_fact("req", ne(a, T(0, PLY)))
        r = ex.call_method(x, "inverse", [])
        v = PLY.cls.seal.conv(ex, ex.heap[r.addr]["poly"])
        ex.oblige("ensures:inverse.reduced", lt(plen(v), plen(g)))
        ex.oblige("ensures:inverse.value", eq(prem(mul(a, v), g), T(1, PLY)))
        self.same(ex, x, a)

    def s_inverse_zero(self, ex):
        F, P, g = extfield(ex)
        x, a = element(ex, F, g, "a")
        ex.heap[x.addr]["poly"] = T(0, PLY)
        expect_raise(ex, ["ZeroDivisionError"], lambda: ex.call_method(x, "inverse", []))

    def s_from_poly(self, ex):
        F, P, g = extfield(ex)
        q = ex.fresh("q", ("s", PLY))
        is_element(ex, "from-polynomial", ex.call(F, [q]), F, g, prem(q, g))

    def s_from_element(self, ex):
        F, P, g = extfield(ex)
        x, a = element(ex, F, g, "a")
        is_element(ex, "from-element", ex.call(F, [x]), F, g, a)

    def s_from_scalar(self, ex):
        F, P, g = extfield(ex)
        c, n = ex.fresh("c", ("s", FLD)), ex.fresh("n", ("s", INT))
        is_element(ex, "from-coefficient", ex.call(F, [c]), F, g, app("Polynomial.C", PLY, c))
        is_element(ex, "from-int", ex.call(F, [n]), F, g, app("Polynomial.C", PLY, cast(n, FLD)))

    def s_from_list(self, ex):
        F, P, g = extfield(ex)
        L = ex.fresh("L", ("seq", ("s", INT)))
        is_element(ex, "from-ints", ex.call(F, [ex.alloc(L, "list")]), F, g, prem(pof(L.n, lambda i: cast(L.get(i), FLD)), g))
        M = ex.fresh("M", ("seq", ("s", FLD)))
        is_element(ex, "from-coefficients", ex.call(F, [ex.alloc(M, "list")]), F, g, prem(pof_seq(M), g))

    def s_parameters(self, ex):
        F, P, g = extfield(ex)
        equal(ex, "modulus", ex.getattr(F, "ideal_generator"), g)

    def s_abs(self, ex):
        F, P, g = extfield(ex)
        x, a = element(ex, F, g, "a")
        equal(ex, "abs", ex.call_method(x, "__abs__", []), plen(a))


class C07(Property):
    id = "C07"
    contracts = (ExtField,)
    uses = (Egcd,)
    lib = ("Pv.Quot",)
    theorems = ("unit_gcd", "inv_quot", "prem_iff")
    assumptions = ("the modulus is irreducible (documented precondition; the factory checks it, see C08)",
                   "arithmetic in Z/p and Z/p[x] is the one discharged in C01, C04 and C05; extended gcd the one of C03",
                   "byte strings are decoded by the polynomial constructor (C16)")

    def setup(self, w):
        hooks(w)


PROPERTY = C07()
