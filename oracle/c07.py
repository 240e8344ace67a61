"""Extension fields GF(p^m)."""
import random as _r
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.finitefield import FiniteField
from ref import *

MODS = [(2, [1, 1, 1]), (2, [1, 1, 0, 1]), (2, [1, 0, 1, 1]), (3, [1, 0, 1]), (3, [2, 1, 1]), (5, [2, 0, 1]), (2, [1, 1, 0, 0, 1]), (7, [3, 0, 1]),
        (2, [1, 1, 0, 1, 1, 0, 0, 0, 1]), (3, [1, 2, 0, 1]), (31, [11, 1, 1])]


def pinv(u, m, p):
    """inverse modulo m by exhaustive extended gcd on references"""
    r0, r1, s0, s1 = pnorm(m, p), prem(u, m, p), [], [1]
    while r1:
        q, r = pdivmod(r0, r1, p)
        r0, r1 = r1, r
        s0, s1 = s1, psub(s0, pmul(q, s1, p), p)
    return pmul(s0, [pow(r0[0], -1, p)], p)


def field(p, m):
    P = polynomials_over(IntegersModP(p))
    return FiniteField(p, len(m) - 1, polynomialModulus=P(m)), P


def run(t):
    rng = t.rng
    mods = [(p, m) for p, m in MODS if irreducible(m, p)]

    def battery(p, m, u, v):
        F, P = field(p, m)
        K = IntegersModP(p)
        ru, rv = prem(u, m, p) if pnorm(u, p) else [], prem(v, m, p) if pnorm(v, p) else []
        inp = (p, m, u, v)

        def ok(r, w, what=""):
            if type(r) is not F:
                return what + "has type %s" % type(r)
            if type(r.poly) is not P:
                return what + "poly has type %s" % type(r.poly)
            if pcoef(r.poly) != list(w):
                return what + "is %r, not %r" % (pcoef(r.poly), list(w))

        def build():
            return (ok(F(P(u)), ru, "F(poly) ") or ok(F([K(c) for c in u]), ru, "F(list) ") or ok(F(list(u)), ru, "F(ints) ") or ok(F(tuple(u)), ru, "F(tuple) ")
                    or ok(F(F(P(u))), ru, "F(F) ") or ok(F(b"".join((c % p).to_bytes(32, "big") for c in u)), ru, "F(bytes) ")
                    or ok(F(F(P(u)).to_bytes()), ru, "F(to_bytes) "))
        t.case("fq:init", inp, build)

        def scal():
            for n in (0, 1, -1, p, p + 1, 2, u[0] if u else 5, -7, 10 ** 20):
                e = ok(F(n), pnorm([n], p), "F(%d) " % n) or ok(F(K(n)), pnorm([n], p), "F(K(%d)) " % n)
                if e:
                    return e
        t.case("fq:init-scalar", inp, scal)
        for nm, fn, w in (("+", lambda a, b: a + b, padd(ru, rv, p)), ("-", lambda a, b: a - b, psub(ru, rv, p)),
                          ("*", lambda a, b: a * b, prem(pmul(ru, rv, p), m, p)), ("neg", lambda a, b: -a, psub([], ru, p))):
            def f():
                a, b = F(P(u)), F(P(v))
                r = fn(a, b)
                e = ok(r, w)
                if e:
                    return e
                if pcoef(a.poly) != ru or pcoef(b.poly) != rv:
                    return "operands modified"
                return ok(fn(a, b), w, "repeated: ")
            t.case("fq:" + nm, inp, f)

        def cmp():
            a, b = F(P(u)), F(P(v))
            e = ru == rv
            if bool(a == b) != e or bool(a != b) == e:
                return "== is %r, != is %r" % (a == b, a != b)
            return bool(a == F(P(u))) and not (a != F(P(u))) or "differs from itself"
        t.case("fq:eq", inp, cmp)
        if ru:
            def inv():
                a = F(P(u))
                r = a.inverse()
                return ok(r, pinv(ru, m, p)) or ok(a * r, [1], "a*inverse ") or ok(r.inverse(), ru, "double inverse ") or (pcoef(a.poly) != ru and "operand modified" or None)
            t.case("fq:inverse", inp, inv)
        if rv:
            def dv():
                a, b = F(P(u)), F(P(v))
                return ok(a / b, prem(pmul(ru, pinv(rv, m, p), p), m, p))
            t.case("fq:div", inp, dv)
    for p, m in mods:
        F, P = field(p, m)
        for z in (F(0), F([]), F(P(m)), F(P([]))):
            t.raises("fq:inverse-of-zero", (p, m), lambda: z.inverse(), ZeroDivisionError)
            t.raises("fq:div-by-zero", (p, m), lambda: F(1) / z, ZeroDivisionError)
    import itertools
    for p, m in mods:
        d = len(m) - 1
        if p ** d <= 9:
            els = [list(x) for x in itertools.product(range(p), repeat=d)]
            for u in els:
                for v in els:
                    battery(p, m, u, v)
    for _ in t.rounds(0.7, 60):
        p, m = rng.choice(mods)
        d = len(m) - 1
        k = rng.randint(0, 4)
        u = [rng.randrange(p) for _ in range(rng.choice((0, 1, d, d, d + 1, 2 * d, 3 * d)))]
        v = [rng.randrange(p) for _ in range(rng.choice((0, 1, d, d, d + 1, 2 * d, 3 * d)))]
        if k == 0:
            v = [(-c) % p for c in u]
        elif k == 1:
            v = padd(u, pmul(m, [rng.randrange(p)], p), p)
        elif k == 2:
            v = pmul(m, v[:2], p)
        battery(p, m, u, v)
    # the default modulus
    for p, m in ((2, 2), (2, 3), (3, 2), (2, 4)):
        _r.seed(t.seed)

        def f():
            F = FiniteField(p, m)
            g = pcoef(F.ideal_generator)
            if len(g) != m + 1 or not irreducible(g, p):
                return "modulus %r" % g
            els = set()
            x = F([0, 1])
            y = F(1)
            for i in range(p ** m - 1):
                els.add(tuple(pcoef(y.poly)))
                y = y * x
            return True
        t.case("fq:default", (p, m), f)
    for p in (2, 5, 7):
        t.case("fq:degree-1", p, lambda: FiniteField(p, 1) is IntegersModP(p) or "FiniteField(p, 1) is not IntegersModP(p)")
    P2 = polynomials_over(IntegersModP(2))
    for bad in ([1, 0, 1], [0, 1, 1], [1, 0, 0, 1], [1, 0, 1, 0, 1], [1, 1, 1, 1]):
        t.raises("fq:reducible", bad, lambda: FiniteField(2, len(bad) - 1, polynomialModulus=P2(bad)), ValueError)
