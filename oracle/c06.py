"""Mixed operands: coerced like the explicit conversion, or TypeError."""
import operator as o
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.finitefield import FiniteField
from ref import *

OPS = {"+": o.add, "-": o.sub, "*": o.mul, "/": o.truediv, "%": o.mod, "divmod": divmod, "==": o.eq, "!=": o.ne}


def show(v):
    """a comparable image of a value, with its type"""
    if isinstance(v, tuple):
        return tuple(show(x) for x in v)
    if hasattr(v, "coefficients"):
        return (type(v), tuple(c.n for c in v.coefficients))
    if hasattr(v, "poly"):
        return (type(v), tuple(c.n for c in v.poly.coefficients))
    if hasattr(v, "n"):
        return (type(v), v.n)
    return (type(v), v)


def out(f, a, b):
    try:
        return show(f(a, b))
    except (ZeroDivisionError, TypeError, ValueError) as e:
        return type(e).__name__
    except Exception as e:
        if "not prime" in str(e):
            return "ZeroDivisionError"
        raise


class Other:
    pass


def run(t):
    rng = t.rng
    ints = [0, 1, -1, 2, 3, -5, 7, 10 ** 20, -10 ** 19]

    def same(key, inp, op, a, b, ca, cb):
        """a op b behaves as ca op cb"""
        def f():
            r, w = out(OPS[op], a, b), out(OPS[op], ca, cb)
            return r == w or "%s gives %r, with converted operands %r" % (op, r, w)
        t.case("mix:%s:%s" % (key, op), inp, f)

    def bad(key, inp, op, a, b):
        t.raises("mix:%s:%s:unsupported" % (key, op), inp, lambda: OPS[op](a, b), Exception if op == "/" and show(b) in zeros else TypeError)
    zeros = []
    two = ("+", "-", "*", "==", "!=")
    un = [None, "abc", Other(), object, {}, [1], (1, 2)]

    def battery(p, m, u, v, a, n):
        K = IntegersModP(p)
        P = polynomials_over(K)
        x, f = K(a), P(u)
        inp = (p, m, u, v, a, n)
        for op in two + ("/",):
            same("modp-int", inp, op, x, n, x, K(n))
            same("int-modp", inp, op, n, x, K(n), x)
        for op in two:
            same("poly-int", inp, op, f, n, f, P([K(n)]))
            same("int-poly", inp, op, n, f, P([K(n)]), f)
            same("poly-coef", inp, op, f, x, f, P([x]))
            same("coef-poly", inp, op, x, f, P([x]), f)
        for op in ("/", "%", "divmod"):
            same("poly-int", inp, op, f, n, f, P([K(n)]))
            same("poly-coef", inp, op, f, x, f, P([x]))
        if m is None:
            return
        F = FiniteField(p, len(m) - 1, polynomialModulus=P(m))
        y = F(P(u))
        for nm, z in (("int", n), ("modp", x), ("poly", P(v))):
            for op in two + ("/",):
                same("fq-" + nm, inp, op, y, z, y, F(z))
                same(nm + "-fq", inp, op, z, y, F(z), y)

    def polyfq(p, m, u, v):
        """coefficients in an extension field"""
        K = IntegersModP(p)
        P = polynomials_over(K)
        F = FiniteField(p, len(m) - 1, polynomialModulus=P(m))
        Q = polynomials_over(F)

        def img(q):
            return (type(q), tuple(tuple(c.n for c in e.poly.coefficients) for e in q.coefficients)) if hasattr(q, "coefficients") else q
        f = Q([F(P(u)), F(P(v)), F(1)])
        for c, w in ((3, Q([F(3)])), (-1, Q([F(-1)]))):
            for op in two:
                def g():
                    r, e = img(OPS[op](f, c)), img(OPS[op](f, w))
                    return r == e or "%s gives %r not %r" % (op, r, e)
                t.case("mix:polyfq:" + op, (p, m, u, v, str(c)), g)
    fields = [(2, None), (3, None), (7, [1, 0, 1]), (2, [1, 1, 0, 1]), (5, [2, 0, 1]), (3, [1, 0, 1]), (31, None), (65537, None), (2 ** 61 - 1, None)]
    for p, m in fields:
        K = IntegersModP(p)
        P = polynomials_over(K)
        F = FiniteField(p, len(m) - 1, polynomialModulus=P(m)) if m else None
        zeros[:] = [show(K(0))] + ([show(F(0))] if m else [])
        for x in (K(0), K(1), K(p - 1), K(p // 2)):
            for b in un:
                for op in OPS:
                    for l, r in ((x, b), (b, x)):
                        bad("modp", (p, repr(b)), op, l, r)
        for f in (P([]), P([1]), P([1, 2, 1])):
            for b in un[:4]:
                for op in OPS:
                    for l, r in ((f, b), (b, f)):
                        bad("poly", (p, repr(b)), op, l, r)
        if F:
            for y in (F(0), F(1), F([1, 1])):
                for b in un[:4]:
                    for op in OPS:
                        for l, r in ((y, b), (b, y)):
                            bad("fq", (p, repr(b)), op, l, r)
    for p, m in fields:
        d = len(m) - 1 if m else 3
        for n in ints:
            for u in ([], [1], [0, 1], rpoly(rng, p, d)):
                battery(p, m, u, [n % p], n % p, n)
                battery(p, m, u, rpoly(rng, p, 2 * d), rng.randrange(p), n)
        if m:
            for _ in range(6):
                polyfq(p, m, rpoly(rng, p, d), rpoly(rng, p, 2 * d))
    for _ in t.rounds(0.6, 20):
        p, m = rng.choice(fields)
        d = len(m) - 1 if m else 3
        u, n = rpoly(rng, p, rng.randint(0, 2 * d)), rng.choice(ints + [p, -p, p + 1, rng.randint(-10 ** 6, 10 ** 6)])
        battery(p, m, u, rpoly(rng, p, rng.randint(0, 2 * d)), rng.randrange(p), n)
