"""gcd / extended gcd: common divisors and Bezout."""
import math
from starks.euclidean import gcd, extended_euclidean_algorithm
from ref import *


def run(t):
    rng = t.rng
    cs = [c for c in t.consts("starks/euclidean.py", "starks/numbertype.py", "starks/modp.py")]

    def ints(a, b):
        def f():
            g = gcd(a, b)
            return abs(g) == math.gcd(a, b) or "gcd(%d, %d) = %r, not +-%d" % (a, b, g, math.gcd(a, b))

        def e():
            x, y, d = extended_euclidean_algorithm(a, b)
            if x * a + y * b != d:
                return "%d*%d + %d*%d != %d" % (x, a, y, b, d)
            return abs(d) == math.gcd(a, b) or "d = %d is not +-gcd = %d" % (d, math.gcd(a, b))
        t.case("gcd:int", (a, b), f)
        t.case("egcd:int", (a, b), e)
    for a in range(-12, 13):
        for b in range(-12, 13):
            ints(a, b)
    for a in cs:
        for b in cs + [2, 3, 30, 97]:
            for d in (-1, 0, 1):
                ints(a + d, b)
    for _ in t.rounds(0.4, 400, 200000):
        k = rng.choice([8, 16, 64, 256])
        s = rng.getrandbits(rng.randint(1, k))
        a = rng.getrandbits(k) * s * rng.choice([1, -1])
        b = rng.getrandbits(rng.randint(1, k)) * s * rng.choice([1, -1, 1])
        ints(a, b)
    from starks.modp import IntegersModP
    from starks.polynomial import polynomials_over
    for p in (2, 3, 5, 7, 31):
        K = IntegersModP(p)
        P = polynomials_over(K).factory

        def polys(u, v):
            a, b = P([K(c) for c in u]), P([K(c) for c in v])

            def chk(g):
                g = pcoef(g)
                if pzero(g):
                    return pzero(u, p) and pzero(v, p)
                return pzero(prem(u, g, p)) and pzero(prem(v, g, p)) and len(g) == len(pgcd(u, v, p))

            def f():
                g = gcd(a, b)
                return chk(g) or "gcd = %s is not a greatest common divisor" % (g,)

            def e():
                x, y, d = extended_euclidean_algorithm(a, b)
                s = x * a + y * b - d
                if not pzero(pcoef(s)):
                    return "x*a + y*b != d"
                return chk(d) or "d = %s is not a greatest common divisor" % (d,)
            t.case("gcd:poly", (p, u, v), f)
            t.case("egcd:poly", (p, u, v), e)
        for _ in t.rounds(0.08, 30):
            g = rpoly(rng, p, rng.randint(0, 3))
            polys(pmul(g, rpoly(rng, p, rng.randint(0, 5)), p), pmul(g, rpoly(rng, p, rng.randint(0, 5)), p))
    # values with divmod and abs in the field itself
