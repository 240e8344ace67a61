"""Rationals modulo p as fractions over Z/p."""
import math
from starks.rationals_modp import RationalsModP
from ref import *

BIG = [2 ** 255 - 19, 2 ** 31 - 1, 10 ** 9 + 7]


def run(t):
    rng = t.rng
    cs = t.consts("starks/rationals_modp.py", "starks/numbertype.py", "starks/euclidean.py")
    primes = [p for p in range(2, 40) if is_prime(p)] + [97, 257, 65537] + [p for p in cs if p > 40 and is_prime(p)] + BIG

    def ok(Q, p, r, want, what):
        if type(r) is not Q:
            return "%s has type %s" % (what, type(r))
        if not (0 <= r.m < p and 0 < r.n < p):
            return "%s stores %r/%r" % (what, r.m, r.n)
        if math.gcd(r.m, r.n) != 1:
            return "%s stores %r/%r, not in lowest terms" % (what, r.m, r.n)
        if r.m * pow(r.n, -1, p) % p != want % p:
            return "%s represents %d, not %d" % (what, r.m * pow(r.n, -1, p) % p, want % p)

    def check(Q, p, a, b, c, d):
        def f():
            x, y = Q(a, b), Q(c, d)
            A, B = a * pow(b, -1, p) % p, c * pow(d, -1, p) % p
            keep = [(z, z.m, z.n) for z in (x, y)]
            todo = [(x, A, "init"), (x + y, A + B, "+"), (x - y, A - B, "-"), (x * y, A * B, "*"), (-x, -A, "neg"),
                    (Q(a), a, "from int"), (x + c, A + c, "+ int"), (x * c, A * c, "* int"), (x - c, A - c, "- int")]
            if B:
                todo += [(x / y, A * pow(B, -1, p), "/"), (y.inverse(), pow(B, -1, p), "inverse")]
            for r, w, n in todo:
                m = ok(Q, p, r, w, n)
                if m:
                    return m
            for u, v, U, V in ((x, y, A, B), (y, x, B, A), (x, x, A, A), (x, c, A, c % p), (x + y, x, (A + B) % p, A), (x * y, y * x, 0, 0), ((x + y) - y, x, 0, 0)):
                if (u == v) is not (U == V) or (u != v) is not (U != V):
                    return "== / != wrong on %r, %r" % (u, v)
            for z, m, n in keep:
                if z.m != m or z.n != n:
                    return "operand modified"
        t.case("rational:ops", (p, a, b, c, d), f)

    for p in primes:
        Q = RationalsModP(p)
        t.raises("rational:inverse-zero", p, lambda: Q(0).inverse(), Exception)
        t.raises("rational:inverse-zero", (p, 1), lambda: Q(p, 1).inverse(), Exception)
        t.raises("rational:div-zero", p, lambda: Q(1) / Q(0), Exception)
        if p <= 7:
            for a in range(p):
                for b in range(1, p):
                    for c in range(p):
                        for d in range(1, p):
                            check(Q, p, a, b, c, d)
        for _ in range(40):
            n = lambda: rng.choice([rng.randrange(p), rng.randrange(-p * p, p * p), rng.randrange(-9, 10)])
            nz = lambda: next(v for v in iter(n, None) if v % p)
            check(Q, p, n(), nz(), n(), nz())
    for _ in t.rounds(0.6, 1500, 60000):
        p = rng.choice(primes)
        n = lambda: rng.choice([0, 1, p - 1, rng.randrange(p), rng.randrange(-p * p, p * p), rng.randrange(-9, 10)])
        nz = lambda: next(v for v in iter(n, None) if v % p)
        check(RationalsModP(p), p, n(), nz(), n(), nz())
    t.note("all fractions over Z/2, Z/3, Z/5, Z/7; sampled for primes to 2^255 - 19")
