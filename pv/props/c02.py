"""C02: exponentiation by squaring."""
from ..check import Property
from ..contract import *
from ..sorts import *
from .fields import hooks, extfield


def ispow2(i):
    return app("ispow2", PROP, T(i))


def one_if(n):
    return lambda args: ("s", RNG)


class ModSeal(RingSeal):
    """A commutative ring with a reduction x % m congruent to x modulo m."""

    def other(self, ex, op, x, y):
        if op == "Mod":
            return app("rmod", self.sort, x, y)
        return NotImplemented


RMOD = sealed_class("R", ModSeal(), "RngT")
BASE = {"init": "pow_init"}


def powspec(inv):
    return [LoopSpec(kind="while", roles={"Q": ("Q", lambda a: ("s", T(a[0]).sort)), "R": ("R", lambda a: ("s", T(a[0]).sort)), "i": ("i", None)},
                     inv=inv, decreases=lambda s: ite(le(s.i, T(s.args[1])), T(s.args[1]) + 1 - T(s.i), T(0)), force=True)]


class Pow(Contract):
    qual = "starks.numbertype:DomainElement.__pow__"
    lean_ctx = RNG_CTX
    hints = {"*": "pow_auto"}
    S = RNG

    def instances(self, ex):
        return {"ring element": lambda ex: [ex.fresh("x", ("s", self.S)), ex.fresh("n", ("s", INT))]}

    def requires(self, ex, x, n):
        return [("exponent", le(0, T(n)))]

    def value(self, ex, x, n):
        return app("ipow", self.S, x, T(n))

    loops = powspec(lambda s: [
        ("i", And(le(2, T(s.i)), ispow2(s.i))),
        ("Q", eq(as_term(s.Q), app("ipow", RNG, s.args[0], fdiv(s.i, 2)))),
        ("R", eq(as_term(s.R, RNG), app("ipow", RNG, s.args[0], fmod(s.args[1], s.i, pos=True))))])


def cong(a, b, m):
    return app("Dvd.dvd", PROP, T(m), sub(a, b))


def reduced(r, m):
    return Exists(lambda y: eq(r, app("rmod", RMOD, y, m)), sort=RMOD, name="y")


Q = "rw [show 2 * i / 2 = i by omega]; exact dvd_red' (rmod_spec _ _) (powmod_sq (by assumption) (by omega) (by assumption))"
R = ("split_ifs with hb\n· exact dvd_red' (rmod_spec _ _) (powmod_set (by omega) (by assumption) (dvd_red' (rmod_spec _ _) (powmod_sq (by assumption) (by omega) (by assumption))) (by assumption) hb)"
     "\n· exact powmod_clear (by omega) (by assumption) (by assumption) hb")


class PowMod(Contract):
    qual = "starks.numbertype:DomainElement.powmod"
    lean_ctx = RNG_CTX + " (rmod : RngT → RngT → RngT) (rmod_spec : ∀ x y : RngT, y ∣ x - rmod x y)"
    hints = {"*": "pow_auto", "inv-step:Q": Q, "inv-step:R": R, "inv-step:reduced": "intro ⟨_, _⟩; split_ifs; exact ⟨_, rfl⟩; exfalso; have := top_bit (n := n) (i := i) (by omega) (by assumption) (by omega) (by assumption); omega",
             "ensures:reduced": "intro h2; have he := Int.emod_eq_of_lt h_req h_cond; have h4 := ispow2_half (by assumption) h_inv; exact h_inv_5 ⟨by omega, by rw [he]; omega⟩"}

    def instances(self, ex):
        return {"ring element": lambda ex: [ex.fresh("x", ("s", RMOD)), ex.fresh("n", ("s", INT)), ex.fresh("m", ("s", RMOD))]}

    def requires(self, ex, x, n, m):
        return [("exponent", le(0, T(n)))]

    def ensures(self, ex, r, x, n, m):
        r = as_term(r, RMOD)
        return [("congruent", cong(r, app("ipow", RMOD, x, T(n)), m)), ("reduced", Imp(le(2, T(n)), reduced(r, m)))]

    loops = powspec(lambda s: [
        ("i", And(le(2, T(s.i)), ispow2(s.i))),
        ("top", Or(eq(s.i, 2), le(fdiv(s.i, 2), T(s.args[1])))),
        ("Q", cong(as_term(s.Q), app("ipow", RMOD, s.args[0], fdiv(s.i, 2)), s.args[2])),
        ("R", cong(as_term(s.R, RMOD), app("ipow", RMOD, s.args[0], fmod(s.args[1], s.i, pos=True)), s.args[2])),
        ("reduced", Imp(And(le(4, T(s.i)), le(fdiv(s.i, 2), fmod(s.args[1], s.i, pos=True))), reduced(as_term(s.R, RMOD), s.args[2])))])


class FqSeal(RingSeal):
    """Elements of the extension field as a commutative ring (C07); x ** n is the
    method under contract."""
    pw = None

    def construct(self, ex, args, kwargs):
        if len(args) == 1 and isinstance(args[0], (tuple, Ref)):
            s = ex.seq(args[0])
            if s.items is not None and len(s.items) <= 1:
                return cast(T(asint(s.items[0]) if s.items else 0), self.sort)
        return RingSeal.construct(self, ex, args, kwargs)

    def binop(self, ex, op, a, b):
        if op == "Pow":
            return ex.call_func(self.pw, [a, b], {})
        return RingSeal.binop(self, ex, op, a, b)


FQ = sealed_class("Fq", FqSeal(), "FqT")


class FqPow(Contract):
    """Recursive exponentiation in extension fields."""
    qual = "starks.finitefield:FiniteField.<locals>.Fq.__pow__"
    lean_ctx = "{FqT : Type} [CommRing FqT] " + FLD_CTX
    hints = {"*": "pow_auto"}

    def getfunc(self, ex):
        F, P, g = extfield(ex)
        f = F.lookup("__pow__")
        self.qual2 = f.qual
        seal = FQ.cls.seal
        seal.pw = f
        seal.cls = F
        F.seal = seal
        ex.w.contracts[f.qual] = [self]
        return f

    def instances(self, ex):
        return {"field element": lambda ex: [ex.fresh("x", ("s", FQ)), ex.fresh("n", ("s", INT))]}

    def requires(self, ex, x, n):
        return [("exponent", le(0, T(n)))]

    def value(self, ex, x, n):
        return app("ipow", FQ, x, T(n))

    def measure(self, x, n):
        return T(n)


class Exponent(Scenarios):
    """A non-integer exponent is a TypeError."""
    qual = "starks.numbertype:DomainElement.__pow__"
    lean_ctx = RNG_CTX
    own = True

    def s_bad(self, ex):
        f = ex.get_function(self.qual)
        g = ex.get_function("starks.numbertype:DomainElement.powmod")
        x = ex.fresh("x", ("s", RNG))
        y = ex.fresh("y", ("s", RNG))
        for bad in (None, "2", (2,), x):
            expect_raise(ex, ["TypeError"], lambda: ex.call_func(f, [x, bad], {}, root=True))
            expect_raise(ex, ["TypeError"], lambda: ex.call_func(g, [x, bad, y], {}, root=True))


class C02(Property):
    id = "C02"
    contracts = (Pow, PowMod, Exponent, FqPow)
    lib = ("Pv.Pow", "Pv.Quot")
    assumptions = ("elements of every ring type satisfy the ring laws (C01, C04, C07, C09, C10)", "x % m is congruent to x modulo m (C05)")

    def setup(self, w):
        hooks(w)


PROPERTY = C02()
