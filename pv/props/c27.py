"""C27: probabilistic primality testing."""
from ..check import Property
from ..contract import *


def mrw(a, p, e, d):
    return app("mrw", PROP, T(a), T(p), T(e), T(d))


class Decompose(Contract):
    qual = "starks.primality:decompose"
    hints = {"*": "mr_auto"}

    def instances(self, ex):
        return {"n": lambda ex: [ex.fresh("n", ("s", INT))]}

    def requires(self, ex, n):
        return [("positive", lt(0, T(n)))]

    def result(self, ex, n):
        return ("tuple", (("s", INT), ("s", INT)))

    def ensures(self, ex, r, n):
        e, d = r
        return [("product", eq(T(n), mul(app("ipow", INT, T(2), T(e)), T(d)))), ("exponent", le(0, T(e))), ("positive", lt(0, T(d))),
                ("odd", ne(fmod(d, 2, pos=True), 0))]

    loops = [LoopSpec(kind="while", roles={"n": ("n", None), "e": ("exponentOfTwo", None)}, force=True,
                      inv=lambda s: [("product", eq(T(s.init.n), mul(app("ipow", INT, T(2), T(s.e)), T(s.n)))), ("positive", lt(0, T(s.n))), ("exponent", le(0, T(s.e)))],
                      decreases=lambda s: T(s.n))]


class IsWitness(Contract):
    qual = "starks.primality:isWitness"
    hints = {"*": "mr_auto"}

    def instances(self, ex):
        return {"ints": lambda ex: [ex.fresh(n, ("s", INT)) for n in ("a", "p", "e", "d")]}

    def requires(self, ex, a, p, e, d):
        return [("modulus", lt(2, T(p))), ("odd part", lt(0, T(d))), ("exponent", le(0, T(e)))]

    def result(self, ex, *a):
        return ("s", PROP)

    def ensures(self, ex, r, a, p, e, d):
        return [("iff witness", Iff(prop_of(r), mrw(a, p, e, d)))]


class ProbablyPrime(Scenarios):
    """random.randint(lo, hi) returns any integer in [lo, hi]."""
    qual = "starks.primality:probablyPrime"
    hints = {"ensures:draws": "obtain ⟨he, hd⟩ := decomp_unique h_post_1 h_req_3 h_post_3 h_req_4 (h_post.symm.trans h_req_2)\nsubst he hd; grind", "*": "mr_auto"}

    def call(self, ex, *args):
        return prop_of(ex.truth(ex.call(ex.module_name("starks.primality", "probablyPrime"), list(args))))

    def s_prime(self, ex):
        p = ex.fresh("p", ("s", INT))
        ex.add_fact("req", app("Prime", PROP, p))
        ex.add_fact("req", lt(1, p))
        ex.oblige("ensures:accepts", self.call(ex, p, ex.fresh("accuracy", ("s", INT))))

    def s_prime_default(self, ex):
        p = ex.fresh("p", ("s", INT))
        ex.add_fact("req", app("Prime", PROP, p))
        ex.add_fact("req", lt(1, p))
        ex.oblige("ensures:accepts", self.call(ex, p))

    def s_below_two(self, ex):
        p = ex.fresh("p", ("s", INT))
        ex.add_fact("req", lt(p, 2))
        ex.oblige("ensures:rejects", Not(self.call(ex, p, ex.fresh("accuracy", ("s", INT)))))

    def s_even(self, ex):
        p = ex.fresh("p", ("s", INT))
        ex.add_fact("req", eq(fmod(p, 2, pos=True), 0))
        ex.add_fact("req", lt(2, p))
        ex.oblige("ensures:rejects", Not(self.call(ex, p, ex.fresh("accuracy", ("s", INT)))))

    def s_composite(self, ex):
        """accepting an odd p means no drawn base was a witness"""
        p, acc = ex.fresh("p", ("s", INT)), ex.fresh("accuracy", ("s", INT))
        ex.add_fact("req", ne(fmod(p, 2, pos=True), 0))
        ex.add_fact("req", lt(3, p))
        e, d = ex.fresh("e", ("s", INT)), ex.fresh("d", ("s", INT))
        ex.draws = []
        ex.add_fact("req", eq(p - 1, mul(app("ipow", INT, T(2), e), d)))
        ex.add_fact("req", le(0, e))
        ex.add_fact("req", ne(fmod(d, 2, pos=True), 0))
        r = self.call(ex, p, acc)
        drawn = var("drawn", FnSort([INT], INT))
        ex.oblige("ensures:draws", Imp(r, Forall_range(0, acc, lambda i: Not(mrw(apply(drawn, i), p, e, d)))))


def randint(ex, a, k):
    lo, hi = a
    ex.safe("randint", le(T(lo), T(hi)))
    x = apply(var("drawn", FnSort([INT], INT)), ex.skolem[-1]) if len(ex.skolem) == 1 else ex.fresh("x", ("s", INT))
    ex.add_fact("drawn", And(le(T(lo), x), le(x, T(hi))))
    return x


class C27(Property):
    id = "C27"
    contracts = (Decompose, IsWitness, ProbablyPrime)
    lib = ("Pv.Primality",)
    theorems = ("prime_not_mrw",)
    assumptions = ("random.randint(lo, hi) returns an integer in [lo, hi]",)

    def setup(self, w):
        w.externals["random:randint"] = Builtin("randint", randint)


PROPERTY = C27()
