"""Irreducible and primitive polynomials, against trial division and powers of x."""
import itertools
import starks.poly_utils as P
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from ref import *


def divides(g, f, p):
    """does the monic g divide f"""
    f = list(f)
    while len(f) >= len(g):
        c = f[-1]
        if c:
            for i, x in enumerate(g):
                k = len(f) - len(g) + i
                f[k] = (f[k] - c * x) % p
        f.pop()
    return not any(f)


def irreducible(f, p):
    n = len(f) - 1
    for d in range(1, n // 2 + 1):
        for cs in itertools.product(range(p), repeat=d):
            if divides(list(cs) + [1], f, p):
                return False
    return True


def primitive(f, p):
    """f monic: the powers of x reach every residue but 0"""
    if not irreducible(f, p):
        return False
    m = len(f) - 1
    one = [1] + [0] * (m - 1)
    x, n = one, 0
    while True:
        c = x[-1]
        x = [0] + x[:-1]
        x = [(a - c * b) % p for a, b in zip(x, f)]
        n += 1
        if x == one:
            return n == p ** m - 1
        if not any(x) or n >= p ** m:
            return False


def run(t):
    rng = t.rng
    limit = 2 ** 9 if t.thorough else 2 ** 6

    def poly(f, p):
        return polynomials_over(IntegersModP(p)).factory(list(f))

    def raw(f, p):
        if type(f) is not polynomials_over(IntegersModP(p)):
            raise TypeError("a value of type %r" % type(f))
        return [int(c.n) for c in f.coefficients]

    def irr(f, p):
        def g():
            r = P.is_irreducible(poly(f, p), p)
            if r is not irreducible(f, p):
                return "is_irreducible is %r" % r
        t.case("irreducible", (p, f), g)

    def prim(f, p):
        def g():
            r = P.is_primitive(poly(f, p), p, len(f) - 1)
            if r is not primitive(f, p):
                return "is_primitive is %r" % r
        t.case("primitive", (p, f), g)

    def made(p, m):
        def g():
            a = raw(P.generate_irreducible_polynomial(p, m), p)
            if len(a) != m + 1 or a[-1] != 1 or not irreducible(a, p):
                return "generated %r" % a
            b = raw(P.generate_primitive_polynomial(p, m), p)
            if len(b) != m + 1 or b[-1] != 1 or not primitive(b, p):
                return "generated as primitive %r" % b
        t.case("generated", (p, m), g)

    for p in (2, 3, 5, 7):
        for m in (1, 2, 3, 4, 5, 6, 7):
            if p ** m > limit:
                continue
            for cs in itertools.product(range(p), repeat=m):
                prim(list(cs) + [1], p)
                irr(list(cs) + [rng.randrange(1, p)], p)
            for _ in range(4):
                made(p, m)
    for _ in t.rounds(1, 60, 4000):
        p = rng.choice((2, 2, 3, 5, 7, 11, 13))
        m = rng.choice([d for d in range(1, 13) if p ** d <= 5000])
        f = [rng.randrange(p) for _ in range(m)] + [1]
        irr(f[:-1] + [rng.randrange(1, p)], p)
        prim(f, p)
