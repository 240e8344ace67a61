"""C03: gcd and the extended Euclidean algorithm."""
from ..check import Property
from ..contract import *
from ..sorts import *


def dvd(a, b):
    return app("Dvd.dvd", PROP, T(a), T(b))


def common(a, b, a0, b0, sort):
    return Forall(lambda c: Iff(And(dvd(c, a), dvd(c, b)), And(dvd(c, a0), dvd(c, b0))), sort=sort, name="c")


def absval(x):
    x = T(x)
    return app("iabs", INT, x) if x.sort is INT else app("val", INT, x)


KINDS = {"int": INT, "euclidean": EUC}


def two(ex):
    return {n: (lambda ex, s=s: [ex.fresh("a", ("s", s)), ex.fresh("b", ("s", s))]) for n, s in KINDS.items()}


def ringkind(args):
    s = T(args[0]).sort
    return ("s", INT) if s is INT else ("mix", s)


class Gcd(Contract):
    qual = "starks.euclidean:gcd"
    lean_ctx = EUC_CTX
    hints = {"*": "gcd_auto"}

    def instances(self, ex):
        return two(ex)

    def match(self, ex, args):
        return all(isinstance(T(a), Term) for a in args)

    def result(self, ex, a, b):
        return ("s", T(a).sort)

    def ensures(self, ex, r, a, b):
        s = T(a).sort
        extra = [("nonneg", Imp(And(le(0, T(a)), le(0, T(b))), le(0, T(r))))] if s is INT else []
        return [("common-divisors", Forall(lambda c: Iff(dvd(c, r), And(dvd(c, a), dvd(c, b))), sort=s, name="c"))] + extra

    def measure(self, a, b):
        return ite(lt(absval(a), absval(b)), T(1), T(0))

    loops = [LoopSpec(kind="while", roles={"a": ("a", None), "b": ("b", None)},
                      inv=lambda s: [("common-divisors", common(s.a, s.b, s.init.a, s.init.b, T(s.a).sort))]
                      + ([("nonneg", Imp(And(le(0, T(s.init.a)), le(0, T(s.init.b))), And(le(0, T(s.a)), le(0, T(s.b)))))] if T(s.a).sort is INT else []),
                      decreases=lambda s: absval(s.b))]


class Egcd(Contract):
    qual = "starks.euclidean:extended_euclidean_algorithm"
    lean_ctx = EUC_CTX
    hints = {"*": "gcd_auto"}

    def instances(self, ex):
        return two(ex)

    def result(self, ex, a, b):
        return ("tuple", (("s", T(a).sort),) * 3)

    def ensures(self, ex, r, a, b):
        x, y, d = r
        s = T(a).sort
        x, y, d = [as_term(v, s) for v in r]
        extra = [("nonneg", Imp(And(le(0, T(a)), le(0, T(b))), le(0, d)))] if s is INT else []
        return extra + [("bezout", eq(add(mul(x, a), mul(y, b)), d)), ("divides-a", dvd(d, a)), ("divides-b", dvd(d, b))]

    def measure(self, a, b):
        return ite(lt(absval(a), absval(b)), T(1), T(0))

    loops = [LoopSpec(kind="while", roles={r: (r, None) for r in ("a", "b")} | {r: (r, ringkind) for r in ("x1", "x2", "y1", "y2")},
                      inv=lambda s: Egcd.inv(s), decreases=lambda s: absval(s.b))]

    @staticmethod
    def inv(s):
        a0, b0 = s.init.a, s.init.b
        so = T(a0).sort
        z = lambda v: as_term(v, so)
        extra = [("nonneg", Imp(And(le(0, T(a0)), le(0, T(b0))), And(le(0, T(s.a)), le(0, T(s.b)))))] if so is INT else []
        return extra + [("a", eq(z(s.a), add(mul(z(s.x2), a0), mul(z(s.y2), b0)))),
                ("b", eq(z(s.b), add(mul(z(s.x1), a0), mul(z(s.y1), b0)))),
                ("common-divisors", common(s.a, s.b, a0, b0, so))]


class C03(Property):
    id = "C03"
    contracts = (Gcd, Egcd)
    lib = ("Pv.Gcd",)
    assumptions = ("callers pass values of one type", "machine integers: Python ints are unbounded, so nothing is abstracted")

    def setup(self, w):
        pass


PROPERTY = C03()
