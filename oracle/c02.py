"""Exponentiation agrees with repeated multiplication."""
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.finitefield import FiniteField
from starks.rationals_modp import RationalsModP
from starks.multivariate_polynomial import multivariates_over
from ref import *


def slow(x, one, n):
    r = one
    for _ in range(n):
        r = r * x
    return r


def run(t):
    rng = t.rng
    cs = [c for c in t.consts("starks/numbertype.py", "starks/finitefield.py") if 0 <= c < 5000]
    exps = sorted(set(range(0, 70)) | {127, 128, 129, 255, 256, 257, 1000, 1023, 1024} | {c + d for c in cs for d in (-1, 0, 1) if c + d >= 0})

    def power(key, x, one, n, show):
        def f():
            s0 = repr(x)
            r = x ** n
            w = slow(x, one, n)
            if type(r) is not type(w):
                return "x ** %d has type %s" % (n, type(r))
            if not (r == w):
                return "x ** %d gives %r, repeated multiplication %r" % (n, r, w)
            if repr(x) != s0:
                return "operand modified"
        t.case("pow:" + key, (show, n), f)
    # prime fields, against Python's own pow, for large exponents too
    for p in (2, 3, 5, 31, 97, 65537, 2 ** 256 - 2 ** 32 * 351 + 1):
        K = IntegersModP(p)
        bases = [0, 1, p - 1, 2 % p, rng.randrange(p), rng.randrange(p)]
        big = [p - 2, p - 1, p, p + 1, 2 ** 31, 2 ** 32 - 1, 2 ** 63, 2 ** 64 + 1, 2 ** 200 + 5] + [rng.getrandbits(rng.randint(1, 300)) for _ in range(20)]
        for n in exps + big:
            for a in bases:
                def f(a=a, n=n):
                    r = K(a) ** n
                    w = pow(a, n, p)
                    return type(r) is K and r.n == w or "%d ** %d mod %d gives %r not %d" % (a, n, p, r, w)
                t.case("pow:modp", (p, a, n), f)
        for bad in (1.5, "2", None, K(1), 2.0):
            t.raises("pow:type", (p, repr(bad)), lambda: K(1) ** bad, TypeError)
            t.raises("powmod:type", (p, repr(bad)), lambda: K(1).powmod(bad, K(1)), TypeError)
    # polynomials
    for p in (2, 3, 7):
        K = IntegersModP(p)
        P = polynomials_over(K)
        for n in list(range(0, 20)) + [31, 32, 33]:
            for c in ([0, 1], [1, 1], rpoly(rng, p, 2), [], [1], [p - 1, 0, 1]):
                def f():
                    r = P(c) ** n
                    w = ppow(c, n, p)
                    return pcoef(r) == w or "gives %r" % pcoef(r)
                t.case("pow:poly", (p, c, n), f)
        # modular exponentiation
        for _ in range(40):
            m = rpoly(rng, p, rng.randint(0, 4))
            c = rpoly(rng, p, rng.randint(0, 5))
            if not m:
                continue
            for n in [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 100, p ** 3, rng.randint(0, 10 ** 6), rng.choice(exps)]:
                def f():
                    r = P(c).powmod(n, P(m))
                    w = ppowmod(c, n, m, p)
                    if prem(pcoef(r), m, p) != w:
                        return "not congruent: %r, want %r" % (pcoef(r), w)
                    if n >= 2 and len(r.coefficients) >= len(m) and r.degree() >= 0:
                        return "not reduced: %r" % (r.coefficients,)
                t.case("powmod:poly", (p, c, n, m), f)
        for bad in (1.5, "2", None, 2.0):
            t.raises("pow:type", ("poly", repr(bad)), lambda: P([1, 1]) ** bad, TypeError)
    # extension fields
    for p, m in ((2, [1, 1, 1]), (2, [1, 1, 0, 1]), (3, [1, 0, 1]), (5, [2, 0, 1]), (2, [1, 0, 1, 0, 0, 1])):
        K = IntegersModP(p)
        P = polynomials_over(K)
        F = FiniteField(p, len(m) - 1, polynomialModulus=P(m))
        for c in ([], [1], [0, 1], [1, 1], rpoly(rng, p, len(m) - 2)):
            for n in exps[:75] + [p ** (len(m) - 1) - 1, p ** (len(m) - 1), 1000, 10 ** 9 + 7, 2 ** 40]:
                def f():
                    r = F(P(c)) ** n
                    w = ppowmod(c, n, m, p)
                    return type(r) is F and pcoef(r.poly) == w or "gives %r, want %r" % (r, w)
                t.case("pow:fq", (p, m, c, n), f)
    # rationals
    for p in (2, 3, 7, 31):
        R = RationalsModP(p)
        for a in range(min(p, 8)):
            for b in range(1, min(p, 8)):
                for n in (0, 1, 2, 3, 5, 8, 13):
                    power("rational", R((a, b)) if False else rat(R, a, b), R(1), n, (p, a, b))
    # multivariate
    for p in (3, 7):
        K = IntegersModP(p)
        M = multivariates_over(K, 2).factory
        for n in (0, 1, 2, 3, 4, 5, 7):
            x = M({(1, 0): K(2), (0, 1): K(1), (0, 0): K(1)})
            power("multivariate", x, M({(0, 0): K(1)}), n, p)
    for _ in t.rounds(0.5, 20):
        p = rng.choice((2, 3, 5, 31, 97, 65537, 2 ** 61 - 1))
        K = IntegersModP(p)
        a, n = rng.randrange(p), rng.getrandbits(rng.randint(1, 400))

        def f():
            r = K(a) ** n
            return r.n == pow(a, n, p) or "gives %r not %d" % (r, pow(a, n, p))
        t.case("pow:modp", (p, a, n), f)


def rat(R, a, b):
    return R(a) / R(b)
