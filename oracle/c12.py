"""Batch inversion and interpolation."""
import contextlib, io
from starks.polynomial import polynomials_over
from starks import poly_utils as pu
from fld import *


def run(t):
    rng = t.rng

    def quiet(f, *a):
        with contextlib.redirect_stdout(io.StringIO()):
            return f(*a)

    def inversion(K, vs, key="multi_inv"):
        def f():
            vals = [K.el(v) for v in vs]
            keep = list(vals)
            out = pu.multi_inv(K.F, vals)
            if len(out) != len(vs):
                return "%d results for %d values" % (len(out), len(vs))
            if len(vals) != len(keep) or any(a is not b for a, b in zip(vals, keep)) or [K.raw(v) for v in vals] != list(vs):
                return "the values were modified"
            for i, (v, o) in enumerate(zip(vs, out)):
                w = K.zero if v == K.zero else K.inv(v)
                o = w if isinstance(o, int) and o == 0 and w == K.zero else K.raw(o)
                if o != w:
                    return "entry %d is %r, not %r" % (i, o, w)
        t.case("interp:multi_inv", (K.name, vs), f)

    def vanish(K, xs):
        def f():
            a = [K.el(x) for x in xs]
            z = quiet(pu.zpoly, K.F, a)
            if type(z) is not polynomials_over(K.F):
                return "zpoly has type %s" % type(z)
            w = [K.one]
            for x in xs:
                w = pmulK(K, w, [K.sub(K.zero, x), K.one])
            if rawpoly(K, z) != w:
                return "zpoly is %r, not %r" % (rawpoly(K, z), w)
            if [K.raw(x) for x in a] != list(xs) or len(a) != len(xs):
                return "the roots were modified"
        t.case("interp:zpoly", (K.name, xs), f)

    def check(K, f, xs, ys, what):
        if type(f) is not polynomials_over(K.F):
            return "%s has type %s" % (what, type(f))
        c = rawpoly(K, f)
        if len(c) > len(xs):
            return "%s has degree %d with %d points" % (what, len(c) - 1, len(xs))
        for x, y in zip(xs, ys):
            if ev(K, c, x) != y:
                return "%s takes the value %r at %r, not %r" % (what, ev(K, c, x), x, y)
            try:
                v = K.raw(f(K.el(x)))
            except TypeError:
                v = None
            if c and v != y:
                return "%s called at %r gives %r, not %r" % (what, x, v, y)

    def interp(K, fname, xs, ys):
        def f():
            a, b = [K.el(x) for x in xs], [K.el(y) for y in ys]
            r = quiet(getattr(pu, fname), K.F, a, b)
            return check(K, r, xs, ys, fname) or (None if [K.raw(x) for x in a] == list(xs) and [K.raw(y) for y in b] == list(ys) else "inputs modified")
        t.case("interp:" + fname, (K.name, xs, ys), f)

    def batched(K, sets):
        def f():
            a = [[K.el(x) for x in xs] for xs, ys in sets]
            b = [[K.el(y) for y in ys] for xs, ys in sets]
            r = quiet(pu.multi_interp_4, K.F, a, b)
            if len(r) != len(sets):
                return "%d polynomials for %d point sets" % (len(r), len(sets))
            for i, (xs, ys) in enumerate(sets):
                e = check(K, r[i], xs, ys, "polynomial %d" % i)
                if e:
                    return e
            if [[K.raw(x) for x in xs] for xs in a] != [list(s[0]) for s in sets] or [[K.raw(y) for y in ys] for ys in b] != [list(s[1]) for s in sets]:
                return "inputs modified"
        t.case("interp:multi_interp_4", (K.name, sets), f)

    def distinct(K, n):
        xs = []
        while len(xs) < n:
            x = K.rnd(rng) if rng.random() < 0.9 else rng.choice((K.zero, K.one))
            if x not in xs:
                xs.append(x)
        return xs

    primes = [Prime(p) for p in (2, 3, 5, 7, 31, 97, 65537, 2 ** 256 - 2 ** 32 * 351 + 1)]
    exts = [Ext(p, m) for p, m in EXT[:6] if irreducible(m, p)]
    import itertools
    for K in (primes[0], primes[1], exts[0]):
        els = [K.zero, K.one] + [x for x in {K.rnd(rng) for _ in range(30)} if x not in (K.zero, K.one)]
        for n in range(5 if K.size < 4 else 4):
            for vs in itertools.product(els, repeat=n):
                inversion(K, list(vs))
                vanish(K, list(vs))
        for n in range(1, min(K.size, 3) + 1):
            for xs in itertools.permutations(els, n):
                for ys in itertools.product(els, repeat=n):
                    interp(K, "lagrange_interp", list(xs), list(ys))
                    if n == 2:
                        interp(K, "lagrange_interp_2", list(xs), list(ys))
    cs = [c for c in t.consts("starks/poly_utils.py") if 0 <= c < 40]
    for n in sorted(set(cs) | {0, 1, 2, 16, 33}):
        for K in (primes[4], primes[-1], exts[-1]):
            for z in (0, 1, 2):
                vs = [K.rnd(rng) for _ in range(n)]
                if z == 1:
                    vs = [K.zero if rng.random() < 0.5 else v for v in vs]
                if z == 2 and n:
                    vs[-1] = vs[0] = K.zero
                inversion(K, vs)
            inversion(K, [K.zero] * n)
            vanish(K, [K.rnd(rng) for _ in range(n)])
            vanish(K, [K.one] * n)
            if n and K.size > n:
                interp(K, "lagrange_interp", distinct(K, n), [K.rnd(rng) for _ in range(n)])
                interp(K, "lagrange_interp", distinct(K, n), [K.zero] * n)
    for _ in t.rounds(0.7, 60):
        K = rng.choice(primes[1:] + exts)
        n = rng.randint(0, 9)
        inversion(K, [rng.choice((K.zero, K.one, K.rnd(rng), K.rnd(rng))) for _ in range(n)])
        vanish(K, [rng.choice((K.zero, K.one, K.rnd(rng), K.rnd(rng))) for _ in range(n)])
        zr = lambda n: [K.zero if rng.random() < 0.25 else K.rnd(rng) for _ in range(n)]
        m = rng.randint(1, min(K.size, 9))
        xs = distinct(K, m)
        if m >= 4 and rng.random() < 0.15:
            base = [K.rnd(rng) for _ in range(rng.randint(1, 3))]
            ys = [ev(K, base, x) for x in xs]
        else:
            ys = zr(m)
        interp(K, "lagrange_interp", xs, ys)
        interp(K, "lagrange_interp_2", distinct(K, 2), zr(2))
        if K.size >= 4:
            interp(K, "lagrange_interp_4", distinct(K, 4), zr(4))
            batched(K, [(distinct(K, 4), zr(4)) for _ in range(rng.randint(0, 5))])
            s = distinct(K, 4)
            batched(K, [(s, zr(4)) for _ in range(rng.randint(1, 5))])
