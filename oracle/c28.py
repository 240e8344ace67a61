"""Memoized type constructors."""
import itertools
from starks.numbertype import memoize
import starks.numbertype as N
import starks.modp as M
import starks.polynomial as P
import starks.finitefield as FF
import starks.rationals_modp as R
import starks.multivariate_polynomial as MV
import starks.floatingpoint as FP
from ref import *


def run(t):
    rng = t.rng

    # ---- arbitrary functions, arbitrary call histories
    def call(g, a, k):
        ks = list(k.items())
        rng.shuffle(ks)
        try:
            return ("v", g(*a, **dict(ks)))
        except ZeroDivisionError:
            return ("e",)

    def pure(*a, **k):
        return (a, tuple(sorted(k.items())))

    def vals():
        return rng.choice([0, 1, 2, 3, 5, 257, -1, "", "a", "b", (), (1,), (1, 2), None, b"a", "x", ("x", 1), (("x", 1),), ("a", "b")])

    def shape():
        a = tuple(vals() for _ in range(rng.choice([0, 0, 1, 1, 2, 2, 3])))
        k = {n: vals() for n in rng.sample(["x", "y", "z", "a"], rng.choice([0, 0, 1, 1, 2, 3]))}
        return a, k

    def history():
        boxes = []

        def f(*a, **k):
            o = [pure(*a, **k)]
            boxes.append(o)
            return o
        g = memoize(f)
        seen = []
        calls = [shape() for _ in range(12)]
        for _ in range(40):
            a, k = rng.choice(calls)
            r = call(g, a, k)[1]
            if type(r) is not list or r[0] != pure(*a, **k):
                return "call %r %r returns the result of %r" % (a, k, r)
            for b, kb, rb in seen:
                if pure(*b, **kb) == pure(*a, **k) and rb is not r:
                    return "call %r %r returns another object the second time" % (a, k)
            seen.append((a, k, r))
        return True
    for _ in range(300):
        t.case("history", None, history)

    def pairs(a, k, b, kb):
        def f():
            g = memoize(lambda *x, **y: [pure(*x, **y)])
            r1, r2, r3 = g(*a, **k), g(*b, **kb), g(*a, **k)
            return r1[0] == pure(*a, **k) and r2[0] == pure(*b, **kb) and r3 is r1 and g(*b, **kb) is r2 or "after %r %r, the call %r %r gives %r" % (a, k, b, kb, r2)
        t.case("pair", (a, k, b, kb), f)
    some = [(), (1,), (2,), (1, 2), (2, 1), (1, 1), ("x",), ("x", 1), (("x", 1),), ((1, 2),), (None,), ((),), ((), ()), (0,), ("",), ("1",), ("1", "2"), ("12",), ((1,), 2), (1, (2,)), (257,), (10 ** 20,), (-1,), (-2,)]
    kws = [{}, {"x": 1}, {"x": 2}, {"y": 1}, {"x": 1, "y": 2}, {"x": 2, "y": 1}, {"x": None}, {"x": ()}, {"x": "y"}, {"xy": 1}, {"x": (1,)}, {"x": 10 ** 20}, {"x": -1}, {"x": -2}]
    shapes = [(a, k) for a in some for k in kws]
    for (a, k), (b, kb) in itertools.permutations([(a, {}) for a in some] + [((), k) for k in kws[1:]] + [((1,), k) for k in kws[1:]] + [(("x", 1), {"x": 1})], 2):
        pairs(a, k, b, kb)
    for _ in range(2000):
        pairs(*(rng.choice(shapes) + rng.choice(shapes)))

    # many entries: nothing is forgotten or confused
    def many(n, mk):
        def f():
            g = memoize(lambda *x, **y: [pure(*x, **y)])
            first = [g(*mk(i)[0], **mk(i)[1]) for i in range(n)]
            for i in list(range(n)) + [0]:
                a, k = mk(i)
                r = g(*a, **k)
                if r is not first[i] or r[0] != pure(*a, **k):
                    return "entry %d of %d" % (i, n)
            return True
        t.case("many", n, f)
    for n in (3, 17, 33, 65, 130, 257, 1025, 3000):
        many(n, lambda i: ((i,), {}))
        many(n, lambda i: ((i % 7, i // 7), {"m": i % 3}))

    def two_functions():
        g, h = memoize(lambda x: ["g", x]), memoize(lambda x: ["h", x])
        return [g(1)[0], h(1)[0], g(1)[0], h(2)[0], g(2)[0]] == ["g", "h", "g", "h", "g"]
    t.case("separate", None, two_functions)

    def raising():
        n = [0]

        @memoize
        def f(x):
            n[0] += 1
            if x == 0 or n[0] == 2:
                raise ZeroDivisionError
            return [x]
        out = []
        for x in (1, 0, 0, 1, 2, 0, 2):
            try:
                out.append(f(x)[0])
            except ZeroDivisionError:
                out.append("raise")
        return out == [1, "raise", "raise", 1, 2, "raise", 2] or repr(out)
    t.case("raising", None, raising)

    def falsy(v):
        def f():
            n = []

            def f0(x):
                n.append(x)
                return v
            g = memoize(f0)
            return g(1) is v and g(2) is v and g(1) is v and len(n) == 2 or "value %r computed %d times" % (v, len(n))
        t.case("falsy", repr(v), f)
    for v in (None, 0, False, "", (), [], {}):
        falsy(v)

    # ---- the real constructors
    K = {p: M.IntegersModP(p) for p in (2, 3, 5, 7, 11, 13, 101, 257)}

    def polys(p):
        return P.polynomials_over(K[p])

    def build(kind, x):
        if kind == "modp":
            return M.IntegersModP(x)
        if kind == "rational":
            return R.RationalsModP(x)
        if kind == "poly":
            return P.polynomials_over(K[x])
        if kind == "multi":
            return MV.multivariates_over(*(K[x[0]], x[1]))
        if kind == "field":
            p, c = x
            return FF.FiniteField(p, len(c) - 1, polynomialModulus=polys(p)(list(c)))
        if kind == "fieldpos":
            p, c = x
            return FF.FiniteField(p, len(c) - 1, polys(p)(list(c)))
        if kind == "float":
            p, c = x
            return FP.FloatingPoint(FF.FiniteField(p, len(c) - 1, polynomialModulus=polys(p)(list(c))))
        if kind == "polyext":
            p, c = x
            return P.polynomials_over(FF.FiniteField(p, len(c) - 1, polynomialModulus=polys(p)(list(c))))
        if kind == "autofield":
            return FF.FiniteField(*x)

    def good(kind, x, T):
        if kind in ("modp", "rational"):
            return T.p == x
        if kind == "poly":
            return T([1, 2]).coefficients[0] == 1 and type(T([1]).coefficients[0]) is K[x]
        if kind == "multi":
            e = T({tuple([1] + [0] * (x[1] - 1)): K[x[0]](1)})
            return list(e.coefficients) == [tuple([1] + [0] * (x[1] - 1))]
        if kind in ("field", "fieldpos"):
            p, c = x
            m = len(c) - 1
            xm = T(polys(p)([0] * m + [1]))
            return T.p == p and [v.n for v in xm.poly.coefficients] == pnorm([-v for v in c[:-1]], p) if "pnorm" in globals() else True
        if kind == "polyext":
            return type(T([1]).coefficients[0]) is build("field", x)
        if kind == "autofield":
            return T.p == x[0] and T.fieldSize == x[0] ** x[1] if hasattr(T, "fieldSize") else T.p == x[0]
        return True
    irr = [(2, (1, 1, 1)), (2, (1, 1, 0, 1)), (2, (1, 0, 1, 1)), (2, (1, 1, 0, 0, 1)), (2, (1, 0, 0, 1, 1)), (3, (1, 0, 1)), (3, (2, 1, 1)), (3, (2, 2, 1)), (5, (2, 0, 1)), (5, (3, 0, 1)), (7, (1, 0, 1))]
    reqs = [("modp", p) for p in K] + [("rational", p) for p in K] + [("poly", p) for p in K] + [("multi", (p, n)) for p in (2, 3, 7) for n in (1, 2, 3)]
    reqs += [(k, x) for x in irr for k in ("field", "fieldpos", "float", "polyext")] + [("autofield", (2, 2)), ("autofield", (2, 3)), ("autofield", (3, 2))]

    def types(n):
        def f():
            got = {}
            for _ in range(n):
                r = rng.choice(reqs)
                T = build(*r)
                if r in got and got[r] is not T:
                    return "%r returns another type the second time" % (r,)
                for q, S in got.items():
                    if S is T and q != r and q[0] == r[0]:
                        return "%r returns the type made for %r" % (r, q)
                got[r] = T
                if not good(r[0], r[1], T):
                    return "%r returns a type for other arguments" % (r,)
            return True
        t.case("types", n, f)
    for _ in range(25):
        types(120)

    def interoperate():
        for p in K:
            a, b = M.IntegersModP(p)(1), M.IntegersModP(p)(2)
            if type(a + b) is not type(a) or (a + b).n != 3 % p:
                return "IntegersModP(%d)" % p
            u, v = P.polynomials_over(M.IntegersModP(p))([1, 1]), P.polynomials_over(M.IntegersModP(p))([0, 1])
            if type(u * v) is not type(u) or u * v != type(u)([0, 1, 1]):
                return "polynomials over IntegersModP(%d)" % p
        for p, c in irr:
            a, b = build("field", (p, c))([0, 1]), build("field", (p, c))([1])
            if type(a + b) is not type(a) or a + b != type(a)([1, 1]):
                return "FiniteField %r" % ((p, c),)
        return True
    t.case("interoperate", None, interoperate)
    t.note("all ordered pairs of %d call shapes, random histories, seven constructors" % len(shapes))
