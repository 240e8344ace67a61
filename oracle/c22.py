"""MiMC, power cycles, powers of two."""
import contextlib
import io
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.finitefield import FiniteField
import starks.utils as U
from ref import *
MOD = 2 ** 256 - 2 ** 32 * 351 + 1


def run(t):
    rng = t.rng

    def mimc(x, n, c):
        def f():
            with contextlib.redirect_stdout(io.StringIO()):
                c0 = list(c)
                r = U.mimc(x, n, c0)
            w = x
            for i in range(n - 1):
                w = (w ** 3 + c[i % len(c)]) % MOD
            return r == w and c0 == list(c) or "gives %r, want %r" % (r, w)
        t.case("mimc", (x, n, c[:5], len(c)), f)
    for n in list(range(0, 12)) + [16, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 130, 200, 257]:
        for x in (0, 1, 2, 3, MOD - 1, MOD, MOD + 5, -1, rng.randrange(MOD)):
            for k in (1, 2, 3, 5, 7, 64):
                mimc(x, n, [rng.choice([0, 1, rng.randrange(MOD), MOD - 1, (i ** 7) ^ 42]) for i in range(k)])

    def cycle(K, r, show):
        def f():
            one = K(1)
            w, y = [one], r
            while y != one and len(w) < 3000:
                w.append(y)
                y = y * r
            if len(w) < 2 or len(w) >= 3000:
                return True
            g = U.get_power_cycle(r, K)
            return type(g) is list and len(g) == len(w) and all(type(a) is K and a == b for a, b in zip(g, w)) or "length %d, want %d: %r" % (len(g), len(w), g[:6])
        t.case("cycle", show, f)
    for p in (3, 5, 7, 11, 13, 31, 97, 257):
        K = IntegersModP(p)
        for a in range(2, min(p, 40)):
            cycle(K, K(a), (p, a))
    for p in (65537, 40961, MOD):
        K = IntegersModP(p)
        for lg in range(1, 10):
            g = next(pow(b, (p - 1) >> lg, p) for b in range(2, 100) if pow(b, (p - 1) // 2, p) == p - 1 or b > 90)
            cycle(K, K(g), (p, g))
    for p, m in ((2, [1, 1, 1]), (2, [1, 1, 0, 1]), (3, [1, 0, 1]), (2, [1, 1, 0, 0, 1]), (5, [2, 0, 1])):
        P = polynomials_over(IntegersModP(p))
        F = FiniteField(p, len(m) - 1, polynomialModulus=P(m))
        for _ in range(8):
            u = [rng.randrange(p) for _ in range(len(m) - 1)]
            if any(u):
                cycle(F, F(P(u)), (p, m, u))

    def pw(x):
        t.case("pow2", x, lambda: U.is_a_power_of_2(x) is (x & (x - 1) == 0) or "gives %r" % U.is_a_power_of_2(x))
    for x in list(range(1, 5000)):
        pw(x)
    for k in range(0, 700, 3):
        for d in (-1, 0, 1, 2):
            if 2 ** k + d > 0:
                pw(2 ** k + d)
        pw(3 * 2 ** k)
        pw((2 ** k) * 65537)
        pw(2 ** k + 2 ** (k // 2))
    for _ in t.rounds(0.5, 20):
        mimc(rng.randrange(MOD), rng.randint(1, 300), [rng.randrange(MOD) for _ in range(rng.randint(1, 70))])
        pw(rng.getrandbits(rng.randint(1, 500)) + 1)
