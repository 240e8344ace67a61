"""The radix-2 Fourier transform over prime fields."""
from starks import fft as ft
from starks.polynomial import polynomials_over
from fld import *

PRIMES = {2: 0, 3: 1, 5: 2, 7: 1, 13: 2, 17: 4, 31: 1, 41: 3, 97: 5, 193: 6, 257: 8, 337: 4, 7681: 9, 65537: 16}


def root(p, n, rng):
    """an element of order exactly n (a power of two)"""
    while True:
        w = pow(rng.randrange(1, p), (p - 1) // n, p)
        if n == 1 or pow(w, n // 2, p) == p - 1:
            return w


def run(t):
    rng = t.rng

    def values(cs, w, n, p):
        out, x = [], 1
        for _ in range(n):
            a = 0
            for c in reversed(cs):
                a = (a * x + c) % p
            out.append(a)
            x = x * w % p
        return out

    def conv(a, b, n, p):
        out = [0] * n
        for i, x in enumerate(a):
            for j, y in enumerate(b):
                out[(i + j) % n] = (out[(i + j) % n] + x * y) % p
        return out

    def same(K, lst, keep, what):
        if len(lst) != len(keep) or any(a is not b for a, b in zip(lst, keep)):
            return "%s was modified" % what

    def raws(K, out):
        return [0 if isinstance(o, int) and o == 0 else K.raw(o) for o in out]

    def forward(K, n, w, cs):
        def f():
            a = [K.el(c) for c in cs]
            keep = list(a)
            got = raws(K, ft.fft_1d(K.F, a, K.p, K.el(w), inv=False))
            if got != values(cs, w, n, K.p):
                return "forward transform is %r, not %r" % (got[:8], values(cs, w, n, K.p)[:8])
            return same(K, a, keep, "the input")
        t.case("fft:forward", (K.p, n, w, cs), f)

    def inverse(K, n, w, vs):
        def f():
            a = [K.el(v) for v in vs]
            keep = list(a)
            got = raws(K, ft.fft_1d(K.F, a, K.p, K.el(w), inv=True))
            if len(got) != n:
                return "inverse transform has %d entries, not %d" % (len(got), n)
            want = list(vs) + [0] * (n - len(vs))
            if values(got, w, n, K.p) != want:
                return "inverse transform %r takes values %r, not %r" % (got[:8], values(got, w, n, K.p)[:8], want[:8])
            return same(K, a, keep, "the input")
        t.case("fft:inverse", (K.p, n, w, vs), f)

    def solver(K, n, w, cs):
        def f():
            P = polynomials_over(K.F)
            s = ft.NonBinaryFFT(K.F, K.el(w))
            poly = P([K.el(c) for c in cs])
            before = pcoef(poly)
            got = s.fft(poly)
            if raws(K, got) != values(cs, w, n, K.p):
                return "fft gives %r, not %r" % (raws(K, got)[:8], values(cs, w, n, K.p)[:8])
            if pcoef(poly) != before:
                return "the polynomial was modified"
            back = s.inv_fft([K.el(v) for v in raws(K, got)])
            if type(back) is not P:
                return "inv_fft returns %s" % type(back)
            if pcoef(back) != pnorm(cs, K.p):
                return "inv_fft of fft gives %r, not %r" % (pcoef(back)[:8], pnorm(cs, K.p)[:8])
            again = s.inv_fft(got)
            if pcoef(again) != pnorm(cs, K.p):
                return "inv_fft applied to the result of fft gives %r" % (pcoef(again)[:8],)
        t.case("fft:solver", (K.p, n, w, cs), f)

    def product(K, n, w, a, b):
        def f():
            x, y = [K.el(c) for c in a], [K.el(c) for c in b]
            kx, ky = list(x), list(y)
            got = raws(K, ft.mul_polys(x, y, K.el(w)))
            if got != conv(a, b, n, K.p):
                return "product is %r, not %r" % (got[:8], conv(a, b, n, K.p)[:8])
            return same(K, x, kx, "the first factor") or same(K, y, ky, "the second factor")
        t.case("fft:product", (K.p, n, w, a, b), f)

    def vec(K, m, style=None):
        s = rng.randrange(6) if style is None else style
        if s == 0:
            return [0] * m
        if s == 1:
            v = [0] * m
            if m:
                v[rng.randrange(m)] = K.rnd(rng)
            return v
        if s == 2:
            return [K.p - 1] * m
        if s == 3:
            return [rng.choice((0, 1, K.p - 1)) for _ in range(m)]
        return [K.rnd(rng) for _ in range(m)]

    # every size up to 64 and every input length, then larger sizes
    for p, k in PRIMES.items():
        K = Prime(p)
        for e in range(k + 1):
            n = 2 ** e
            if n > 64:
                break
            for m in sorted({0, 1, 2, 3, n // 2, n // 2 + 1, n - 1, n}):
                if not 0 <= m <= n:
                    continue
                for style in (None, 5):
                    w = root(p, n, rng)
                    cs = vec(K, m, style)
                    forward(K, n, w, cs)
                    inverse(K, n, w, cs)
                    solver(K, n, w, cs)
                    product(K, n, w, cs, vec(K, rng.randrange(n + 1)))
    for _ in t.rounds(0.5, 20, 400):
        p = rng.choice([q for q, k in PRIMES.items() if k > 2])
        K = Prime(p)
        n = 2 ** rng.randrange(min(PRIMES[p], 9 if t.thorough else 7) + 1)
        w = root(p, n, rng)
        m = rng.choice((n, n, rng.randrange(n + 1)))
        forward(K, n, w, vec(K, m))
        inverse(K, n, w, vec(K, m))
        solver(K, n, w, vec(K, m))
        product(K, n, w, vec(K, m), vec(K, rng.randrange(n + 1)))
    big = 2 ** 256 - 2 ** 32 * 351 + 1
    K = Prime(big)
    for e in (0, 1, 3, 5):
        n = 2 ** e
        w = pow(7, (big - 1) // n, big)
        forward(K, n, w, vec(K, n, 5))
        inverse(K, n, w, vec(K, n, 5))
        solver(K, n, w, vec(K, n, 5))
        product(K, n, w, vec(K, n, 5), vec(K, n // 2, 5))
