"""C08: irreducible and primitive polynomials."""
from ..check import Property
from ..contract import *
from ..sorts import *
from .. import seqops
from ..seqops import SymDict
from .c03 import Gcd
from .fields import hooks

MOD = "starks.poly_utils:"
X = app("Polynomial.X", PLY)


def size(ex, name="p"):
    """Z/p is the sealed field, of p elements."""
    p = ex.field_prime = ex.field_size = ex.fresh(name, ("s", INT))
    ex.sealedK, ex.sealedP = FLD.cls, sealed_polyclass(ex)
    return p


def card(p):
    return app("fsize", PROP, T(0, FLD), T(p))


def irreducible(f):
    return app("Irreducible", PROP, f)


def primitive(f):
    return app("primitive", PROP, f)


def frob(p, k):
    return app("ipow", PLY, X, app("ipow", INT, T(p), T(k)))


def nofactor(f, p, k):
    return app("nofactor", PROP, f, T(p), T(k))


def prem(a, g):
    return app("prem", PLY, a, g)


class IsIrreducible(Contract):
    """True exactly for the irreducible polynomials"""
    qual = MOD + "is_irreducible"
    lean_ctx = FLD_CTX
    hints = {"*": "irr_auto"}

    def instances(self, ex):
        def any_(ex):
            p = size(ex)
            return [ex.fresh("f", ("s", PLY)), p]
        return {"any": any_}

    def requires(self, ex, f, p):
        return [("size", card(p)), ("degree", le(2, plen(f)))]

    def value(self, ex, f, p):
        return irreducible(f)

    def ensures(self, ex, r, f, p):
        return [("iff-irreducible", Iff(prop_of(ex.truth(r)), irreducible(f)))]

    loops = [LoopSpec(kind="for", force=True, roles={"t": ("power_term", ("s", PLY))},
                      inv=lambda s: [("power", app("Dvd.dvd", PROP, s.args[0], sub(as_term(s.t, PLY), frob(s.args[1], s.k)))),
                                     ("no-common-factor", Forall_range(0, s.k, lambda j: nofactor(s.args[0], s.args[1], j + 1)))])]


def factor(s, j):
    """the j-th prime of the sequence the loop runs through, numbered or not"""
    x = s.it.get(j)
    return T(asint(x[-1] if isinstance(x, tuple) else x))


class IsPrimitive(Contract):
    """True exactly for the irreducible polynomials modulo which x generates all units"""
    qual = MOD + "is_primitive"
    lean_ctx = FLD_CTX
    hints = {"*": "prim_auto"}

    def instances(self, ex):
        def any_(ex):
            p = size(ex)
            return [ex.fresh("f", ("s", PLY)), p, ex.fresh("m", ("s", INT))]
        return {"any": any_}

    def requires(self, ex, f, p, m):
        return [("size", card(p)), ("degree", And(le(1, T(m)), eq(plen(f), m + 1)))]

    def value(self, ex, f, p, m):
        return primitive(f)

    def ensures(self, ex, r, f, p, m):
        return [("iff-primitive", Iff(prop_of(ex.truth(r)), primitive(f)))]

    @staticmethod
    def power(s, j):
        f, p, m = s.args
        return prem(app("ipow", PLY, X, fdiv(sub(app("ipow", INT, p, m), 1), factor(s, j))), f)

    loops = [LoopSpec(kind="for", force=True, roles={},
                      inv=lambda s: [("none-is-one", Forall_range(0, s.k, lambda j: ne(IsPrimitive.power(s, j), T(1, PLY))))])]


class Irreducibles(Contract):
    """whatever is drawn, a returned polynomial is monic, of that degree and irreducible"""
    qual = MOD + "generate_irreducible_polynomial"
    lean_ctx = FLD_CTX
    hints = {"*": "irr_auto"}

    def instances(self, ex):
        return {"any": lambda ex: [size(ex), ex.fresh("m", ("s", INT))]}

    def requires(self, ex, p, m):
        return [("size", card(p)), ("degree", le(1, T(m)))]

    def result(self, ex, p, m):
        return ("s", PLY)

    def what(self, f):
        return ("irreducible", irreducible(f))

    def ensures(self, ex, r, p, m):
        r = PLY.cls.seal.conv(ex, r)
        if r is None:
            return [("a-polynomial", FALSE)]
        return [("degree", eq(plen(r), m + 1)), ("monic", eq(pc(r, T(m)), T(1, FLD))), self.what(r)]

    loops = [LoopSpec(kind="while", force=True, partial=True, roles={}, inv=lambda s: [])]


class Primitives(Irreducibles):
    qual = MOD + "generate_primitive_polynomial"

    def what(self, f):
        return ("primitive", primitive(f))


def factorint(ex, a, k):
    """sympy.ntheory.factorint(n), n >= 1: the primes dividing n, with multiplicities"""
    n = T(asint(a[0]))
    ex.safe("factorint", le(1, n))
    mult = var(ex.newname("mult"), FnSort([INT], INT))
    d = SymDict(lambda q: And(app("Prime", PROP, q), lt(0, q), app("Dvd.dvd", PROP, q, n)), lambda q: apply(mult, q), INT, ("s", INT))
    return ex.alloc(d, "dict")


def randint(ex, a, k):
    lo, hi = a
    ex.safe("randint", le(T(lo), T(hi)))
    z = list(ex.skolem)
    x = apply(var(ex.newname("drawn"), FnSort([INT] * len(z), INT)), *z) if z else ex.fresh("drawn", ("s", INT))
    ex.add_fact("drawn", And(le(T(lo), x), le(x, T(hi))))
    return x


class C08(Property):
    id = "C08"
    contracts = (IsIrreducible, IsPrimitive, Irreducibles, Primitives)
    uses = (Gcd,)
    lib = ("Pv.Irred",)
    theorems = ("irreducible_test", "primitive_test")
    assumptions = ("Z/p and its polynomials are those of C01, C04 and C05, powmod that of C02, gcd that of C03; Z/p has exactly p elements",
                   "sympy.ntheory.factorint(n) has exactly the primes dividing n as keys; random.randint(lo, hi) returns an integer in [lo, hi]",
                   "degrees are below 2**53, so that degree / 2 is exact", "termination of the random generators is not claimed")

    def setup(self, w):
        hooks(w)
        w.externals["sympy.ntheory:factorint"] = Builtin("factorint", factorint)
        w.externals["random:randint"] = Builtin("randint", randint)


PROPERTY = C08()
