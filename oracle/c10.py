"""Multivariate polynomials are the ring K[X1..Xn], without zero coefficients."""
import itertools
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.multivariate_polynomial import multivariates_over
from fld import *
from ref import *


def norm(K, d):
    return {m: c for m, c in d.items() if c != K.zero}


def add(K, a, b, sgn=1):
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, K.zero)
        r[m] = K.add(x, c) if sgn == 1 else K.sub(x, c)
    return norm(K, r)


def mul(K, a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(x + y for x, y in zip(m, n))
            r[k] = K.add(r.get(k, K.zero), K.mul(c, d))
    return norm(K, r)


def power(K, x, n):
    r = K.one
    for _ in range(n):
        r = K.mul(r, x)
    return r


def ev(K, a, pt):
    y = K.zero
    for m, c in a.items():
        for x, e in zip(pt, m):
            c = K.mul(c, power(K, x, e))
        y = K.add(y, c)
    return y


def run(t):
    rng = t.rng
    fields = [Prime(p) for p in (2, 3, 7, 31, 2 ** 256 - 2 ** 32 * 351 + 1)] + [Ext(*EXT[0]), Ext(*EXT[2])]

    def battery(K, w, u, v, n=2):
        M = multivariates_over(K.F, w)
        a, b = norm(K, u), norm(K, v)
        inp = (K.name, w, u, v)

        def mk(d):
            return M({m: K.el(c) for m, c in d.items()})

        def bad(r, want):
            if type(r) is not M:
                return "has type %s" % type(r)
            got = {m: K.raw(c) for m, c in r.coefficients.items()}
            if any(type(m) is not tuple for m in got):
                return "keys %r" % list(got)
            return None if got == want else "has coefficients %r, not %r" % (got, want)

        def build():
            d = {m: K.el(c) for m, c in u.items()}
            e = dict(d)
            r = M(d)
            if d != e or len(d) != len(u):
                return "the given map was modified"
            m = bad(r, a) or bad(M(r), a) or bad(M.factory(d), a)
            if m:
                return m
            x = mk(u)
            if len(x) != len(a) or bool(x.is_zero()) != (not a) or x.degree() != max([sum(m) for m in a] + [0]):
                return "len %r, is_zero %r, degree %r" % (len(x), x.is_zero(), x.degree())
            if sorted((m, K.raw(c)) for m, c in x) != sorted(a.items()):
                return "iteration gives %r" % list(x)
            for m in list(u) + [(9,) * w]:
                if K.raw(x[m]) != a.get(m, K.zero):
                    return "[%r] is %r" % (m, x[m])
        t.case("mv:init", inp, build)
        one = {(0,) * w: K.one}
        pw = one
        for _ in range(n):
            pw = mul(K, pw, a)
        for op, fn, want in (("+", lambda x, y: x + y, add(K, a, b)), ("-", lambda x, y: x - y, add(K, a, b, -1)), ("*", lambda x, y: x * y, mul(K, a, b)),
                             ("unary-", lambda x, y: -x, add(K, {}, a, -1)), ("**", lambda x, y: x ** n, pw),
                             ("+1", lambda x, y: x + 1, add(K, a, one)), ("1+", lambda x, y: 1 + x, add(K, a, one)), ("1-", lambda x, y: 1 - x, add(K, one, a, -1)),
                             ("self+", lambda x, y: x + x, add(K, a, a)), ("self-", lambda x, y: x - x, {}), ("self*", lambda x, y: x * x, mul(K, a, a))):
            def f():
                x, y = mk(u), mk(v)
                cx, cy = dict(x.coefficients), dict(y.coefficients)
                r = fn(x, y)
                m = bad(r, want)
                if m:
                    return m
                if x.coefficients != cx or y.coefficients != cy or bad(x, a) or bad(y, b):
                    return "operands modified"
                return bad(fn(x, y), want)
            t.case("mv:" + op, inp, f)

        def cmp():
            x, y = mk(u), mk(v)
            e = a == b
            if bool(x == y) != e or bool(x != y) == e or bool(y == x) != e:
                return "== is %r and != is %r" % (x == y, x != y)
            z = mk(dict(reversed(list(u.items()))))
            return bool(x == z) and not (x != z) or "a polynomial differs from itself"
        t.case("mv:eq", inp, cmp)

        def at():
            x, y = mk(u), mk(v)
            for k in range(3):
                pt = [K.zero if k == 0 else K.one if k == 1 else K.rnd(rng) for _ in range(w)]
                args = [K.el(c) for c in pt]
                for f, d in ((x, a), (y, b), (x * y, mul(K, a, b)), (x + y, add(K, a, b))):
                    r = f(args)
                    if K.raw(r) != ev(K, d, pt):
                        return "at %r is %r, not %r" % (pt, r, ev(K, d, pt))
                if [K.raw(c) for c in args] != pt or bad(x, a):
                    return "operands modified"
        t.case("mv:eval", inp, at)
        if isinstance(K, Prime):
            def atpoly():
                p = K.p
                P = polynomials_over(K.F)
                x = mk(u)
                qs = [pnorm([K.rnd(rng) for _ in range(rng.randint(0, 3))], p) for _ in range(w)]
                r = P(x([P([K.F(c) for c in q]) for q in qs]))
                want = []
                for m, c in a.items():
                    s = [c]
                    for q, e in zip(qs, m):
                        for _ in range(e):
                            s = pmul(s, q, p)
                    want = padd(want, s, p)
                return pcoef(r) == want or "at %r is %r, not %r" % (qs, pcoef(r), want)
            t.case("mv:eval-poly", inp, atpoly)

    K = Prime(2)
    ms = [(0, 0), (1, 0), (0, 1), (1, 1)]
    small = [dict(zip(ms, c)) for c in itertools.product((0, 1), repeat=4)]
    for u in small:
        for v in small[::3]:
            battery(K, 2, u, v)
    for _ in t.rounds(0.6, 60):
        K = rng.choice(fields)
        w = rng.randint(1, 4)
        top = rng.choice((1, 2, 3, 7))

        def any_():
            return {tuple(rng.randint(0, top) for _ in range(w)): rng.choice((K.zero, K.one, K.rnd(rng), K.rnd(rng))) for _ in range(rng.choice((0, 1, 2, 3, 5, 9)))}
        u = any_()
        k = rng.randint(0, 6)
        if k == 0:
            v = {m: K.sub(K.zero, c) for m, c in u.items()}
        elif k == 1:
            v = dict(u)
            for m in list(v)[:1]:
                v[m] = K.add(v[m], K.one)
        elif k == 2:
            v = dict(u, **{}) if u else {(0,) * w: K.one}
        elif k == 3 and u:
            # conjugate: cross terms cancel
            ks = list(u)
            v = {m: (u[m] if m == ks[0] else K.sub(K.zero, u[m])) for m in ks}
        else:
            v = any_()
        battery(K, w, u, v, rng.choice((0, 1, 2, 3, 4, 5)) if len(u) < 6 else 2)
