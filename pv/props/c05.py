"""C05: division of polynomials."""
from ..check import Property
from ..contract import *
from ..sorts import *
from .c01 import identity_memoize


class DivMod(Scenarios):
    """divmod, /, % on the real methods; the ring operations used inside are
    the ones proved in C04."""
    qual = "starks.polynomial:polynomials_over.<locals>.Polynomial.__divmod__"
    lean_ctx = FLD_CTX
    hints = {"*": "pdiv_auto"}

    loops = [LoopSpec(kind="while", roles={"quotient": ("quotient", None), "remainder": ("remainder", None)}, force=True,
                      inv=lambda s: [("division", eq(s.args[0], add(mul(T(s.quotient), s.args[1]), T(s.remainder))))],
                      decreases=lambda s: plen(T(s.remainder)))]

    def two(self, ex, zero=False):
        P = sealed_polyclass(ex)
        a = ex.fresh("a", ("s", PLY))
        b = T(0, PLY) if zero else ex.fresh("b", ("s", PLY))
        if not zero:
            ex.add_fact("req", ne(b, T(0, PLY)))
        ex.args = [a, b]
        return P, a, b

    def s_divmod(self, ex):
        P, a, b = self.two(ex)
        r = ex.call(P.lookup("__divmod__"), [a, b])
        if not isinstance(r, tuple) or len(r) != 2:
            ex.oblige("ensures:pair", FALSE)
            return
        q, m = [T(x) for x in r]
        ex.oblige("ensures:identity", eq(a, add(mul(q, b), m)))
        ex.oblige("ensures:degree", lt(plen(m), plen(b)))
        ex.oblige("ensures:quotient", eq(q, app("pquo", PLY, a, b)))
        ex.oblige("ensures:remainder", eq(m, app("prem", PLY, a, b)))

    def s_div(self, ex):
        P, a, b = self.two(ex)
        equal(ex, "quotient", ex.call(P.lookup("__truediv__"), [a, b]), app("pquo", PLY, a, b))

    def s_mod(self, ex):
        P, a, b = self.two(ex)
        equal(ex, "remainder", ex.call(P.lookup("__mod__"), [a, b]), app("prem", PLY, a, b))

    def s_zero(self, ex):
        P, a, b = self.two(ex, True)
        for n in ("__divmod__", "__truediv__", "__mod__"):
            expect_raise(ex, ["ZeroDivisionError"], lambda: ex.call(P.lookup(n), [a, b]), "raises:" + n)


class C05(Property):
    id = "C05"
    contracts = (DivMod,)
    lib = ("Pv.PolyDiv",)
    theorems = ("div_unique", "prem_lt", "div_eq")
    assumptions = ("the ring operations, comparison and accessors of Polynomial used inside are the ones discharged in C04",)

    def setup(self, w):
        w.call_hooks["starks.numbertype:memoize"] = identity_memoize


PROPERTY = C05()
