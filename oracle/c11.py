"""Conversions between univariate, multivariate and functional forms."""
import itertools
import starks.poly_utils as P
import starks.utils as U
from starks.polynomial import polynomials_over
from starks.multivariate_polynomial import multivariates_over
from fld import *


def elements(K):
    if isinstance(K, Prime):
        return list(range(K.p))
    return [tuple(pnorm(list(x), K.p)) for x in itertools.product(range(K.p), repeat=K.d)]


def run(t):
    rng = t.rng
    big = [Prime(p) for p in (2, 3, 7, 31, 2 ** 256 - 2 ** 32 * 351 + 1)] + [Ext(*EXT[0]), Ext(*EXT[2])]
    small = [Prime(2), Prime(3), Prime(5), Ext(*EXT[0])] + ([Prime(7), Prime(11), Ext(*EXT[1]), Ext(*EXT[2])] if t.thorough else [])

    def points(K, w, n):
        return [[K.rnd(rng) for _ in range(w)] for _ in range(n)]

    def value(K, p, pt, w):
        if type(p) is not multivariates_over(K.F, w):
            raise TypeError("%r is not a polynomial in %d variables" % (type(p), w))
        return K.raw(p([K.el(x) for x in pt]))

    def lift(K, cs, i, w, pts):
        def f():
            r = P.make_multivar(polynomials_over(K.F).factory([K.el(c) for c in cs]), i, K.F, w)
            for pt in pts:
                got, want = value(K, r, pt, w), ev(K, cs, pt[i])
                if got != want:
                    return "value %r at %r, not %r" % (got, pt, want)
        t.case("lift", (K.name, cs, i, w, pts), f)

    def index(K, w, pts):
        def f():
            xs = U.generate_Xi_s(K.F, w)
            if len(xs) != w:
                return "%d index polynomials of %d" % (len(xs), w)
            for i, x in enumerate(xs):
                for pt in pts:
                    if value(K, x, pt, w) != pt[i]:
                        return "index polynomial %d is %r at %r" % (i, value(K, x, pt, w), pt)
        t.case("index", (K.name, w, pts), f)

    def project(K, d, i, w):
        def f():
            p = multivariates_over(K.F, w).factory({m: K.el(c) for m, c in d.items()})
            r = P.project_to_univariate(p, i, K.F, w)
            M = multivariates_over(K.F, w - 1)
            if type(r) is not polynomials_over(M):
                return "a value of type %r" % type(r)
            got = {}
            for e, q in enumerate(r.coefficients):
                if type(q) is not M:
                    return "coefficient %d is of type %r" % (e, type(q))
                for m, c in q:
                    if K.raw(c) != K.zero:
                        got[tuple(m[:i]) + (e,) + tuple(m[i:])] = K.raw(c)
            if got != d:
                return "terms %r" % got
        t.case("project", (K.name, sorted(d.items()), i, w), f)

    def delta(K, y, pts):
        def f():
            n = len(y)
            r = P.construct_multivariate_dirac_delta(K.F, [K.el(c) for c in y], n)
            for pt in pts:
                got, want = value(K, r, pt, n), K.one if list(pt) == list(y) else K.zero
                if got != want:
                    return "value %r at %r" % (got, pt)
        t.case("delta", (K.name, y), f)

    def interpolate(K, table):
        def f():
            r = P.construct_multivariate_coefficients(K.F, lambda a: K.el(table[K.raw(a[0])]), 1)
            for x in range(K.p):
                if value(K, r, [x], 1) != table[x]:
                    return "value %r at %d, not %r" % (value(K, r, [x], 1), x, table[x])
        t.case("interpolate", (K.name, table), f)

    for K in big:
        lift(K, [], 0, 1, points(K, 1, 2))
        lift(K, [K.one], 1, 2, points(K, 2, 2))
        for w in (1, 2, 4):
            index(K, w, points(K, w, 2))
        project(K, {}, 0, 2)
    for p in (2, 3, 5, 7):
        K = Prime(p)
        interpolate(K, [0] * p)
        interpolate(K, list(range(p)))
        interpolate(K, [rng.randrange(p) for _ in range(p)])
    for K in small:
        E = elements(K)
        for n in (1, 2):
            pts = list(itertools.product(E, repeat=n))
            delta(K, [K.zero] * n, pts)
            delta(K, [E[-1]] * n, pts)
            for _ in t.rounds(1, 2, 20):
                delta(K, [K.rnd(rng) for _ in range(n)], pts)
    delta(Prime(2), [1, 0, 1], list(itertools.product((0, 1), repeat=3)))
    for _ in t.rounds(1, 30, 3000):
        K = rng.choice(big)
        w = rng.choice((1, 2, 3))
        i = rng.randrange(w)
        lift(K, [K.rnd(rng) for _ in range(rng.randrange(6))], i, w, points(K, w, 2))
        d = {}
        for _ in range(rng.randrange(6)):
            c = K.rnd(rng)
            if c != K.zero:
                d[tuple(rng.choice((0, 0, 1, 2, 5)) for _ in range(w))] = c
        if w > 1:
            project(K, d, i, w)
        q = rng.choice((2, 3, 5, 7, 11, 13))
        interpolate(Prime(q), [rng.randrange(q) for _ in range(q)])
