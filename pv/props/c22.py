"""C22: MiMC, power cycles, powers of two."""
from ..check import Property
from ..contract import *
from ..sorts import *

MOD = 2 ** 256 - 2 ** 32 * 351 + 1


def mimc_rec(steps, x, c):
    """steps-fold iteration, c given as a sequence"""
    m = T(MOD)
    return app("mimcN", INT, steps, Lam(lambda i: T(c.get(fmod(i, T(c.n))))), T(x))


class Mimc(Contract):
    qual = "starks.utils:mimc"
    hints = {"*": "mimc_auto"}

    def instances(self, ex):
        return {"ints": lambda ex: [ex.fresh("inp", ("s", INT)), ex.fresh("steps", ("s", INT)), ex.alloc(ex.fresh("c", ("seq", ("s", INT))), "list")]}

    def requires(self, ex, inp, steps, c):
        return [("constants", lt(0, T(c.n)))]

    def value(self, ex, inp, steps, c):
        return app("mimcN", INT, T(steps) - 1, Lam(lambda i: T(c.get(fmod(i, T(c.n), pos=True)))), T(inp))

    loops = [LoopSpec(kind="for", roles={"inp": ("inp", None)}, force=True,
                      inv=lambda s: [("iterated", eq(T(s.inp), app("mimcN", INT, s.k, Lam(lambda i: T(s.args[2].get(fmod(i, T(s.args[2].n), pos=True)))), T(s.args[0]))))])]


class PowerOf2(Contract):
    qual = "starks.utils:is_a_power_of_2"
    hints = {"*": "pow2_auto"}

    def instances(self, ex):
        return {"int": lambda ex: [ex.fresh("x", ("s", INT))]}

    def requires(self, ex, x):
        return [("positive", lt(0, T(x)))]

    def value(self, ex, x):
        return app("ispow2", PROP, T(x))

    def measure(self, x):
        return T(x)


class PowerCycle(Contract):
    """The element r has a finite order: the least n > 0 with r ** n = 1."""
    qual = "starks.utils:get_power_cycle"
    lean_ctx = FLD_CTX
    hints = {"*": "cycle_auto"}

    def instances(self, ex):
        def one(ex):
            ex.ghost_n = ex.fresh("ord", ("s", INT))
            return [ex.fresh("r", ("s", FLD)), FLD.cls]
        return {"field": one}

    def requires(self, ex, r, K):
        n = ex.ghost_n
        return [("order", And(lt(1, n), eq(app("ipow", FLD, r, n), T(1, FLD)), Forall(lambda i: Imp(And(lt(0, i), lt(i, n)), ne(app("ipow", FLD, r, i), T(1, FLD))))))]

    def ensures(self, ex, res, r, K):
        n = ex.ghost_n
        return [("length", eq(T(res.n), n)),
                ("powers", Forall_range(0, n, lambda i: eq(as_term(res.get(i), FLD), app("ipow", FLD, r, i)))),
                ("distinct", Forall(lambda i: Forall(lambda j: Imp(And(le(0, i), lt(i, j), lt(j, n)), ne(as_term(res.get(i), FLD), as_term(res.get(j), FLD))))))]

    loops = [LoopSpec(kind="while", roles={"o": ("o", lambda a: ("seq", ("s", FLD)))}, force=True,
                      inv=lambda s: [("length", And(le(2, T(s.o.n)), le(T(s.o.n), s.ex.ghost_n + 1))),
                                     ("powers", Forall_range(0, T(s.o.n), lambda i: eq(as_term(s.o.get(i), FLD), app("ipow", FLD, s.args[0], i))))],
                      decreases=lambda s: s.ex.ghost_n + 1 - T(s.o.n))]


class C22(Property):
    id = "C22"
    contracts = (Mimc, PowerOf2, PowerCycle)
    lib = ("Pv.Pow", "Pv.Cycle")
    assumptions = ("the clock and printing have no effect on results",)


PROPERTY = C22()
