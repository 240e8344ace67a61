"""Polynomial division."""
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from ref import *


def run(t):
    rng = t.rng
    cs = [c for c in t.consts("starks/polynomial.py") if 0 <= c < 60]

    def div(p, u, v):
        K = IntegersModP(p)
        P = polynomials_over(K)
        u, v = pnorm(u, p), pnorm(v, p)

        def f():
            a, b = P([K(c) for c in u]), P([K(c) for c in v])
            q, r = divmod(a, b)
            q2, r2 = a / b, a % b
            wq, wr = pdivmod(u, v, p)
            if type(q) is not P or type(r) is not P or type(q2) is not P or type(r2) is not P:
                return "result types %s, %s, %s, %s" % (type(q), type(r), type(q2), type(r2))
            if pcoef(q) != wq or pcoef(r) != wr:
                return "divmod gives (%r, %r), not (%r, %r)" % (pcoef(q), pcoef(r), wq, wr)
            if pcoef(q2) != wq:
                return "/ gives %r, not %r" % (pcoef(q2), wq)
            if pcoef(r2) != wr:
                return "%% gives %r, not %r" % (pcoef(r2), wr)
            if not (q * b + r == a):
                return "q*b + r differs from a"
            if pcoef(a) != u or pcoef(b) != v:
                return "operands modified: %r, %r" % (pcoef(a), pcoef(b))
            if len(u) < 40:
                q, r = divmod(a, a) if u else (P([1]), P([]))
                if pcoef(q) != [1] or pcoef(r):
                    return "a divmod a gives (%r, %r)" % (pcoef(q), pcoef(r))
        t.case("poly:divmod", (p, u, v), f)
    import itertools
    for p, n, m in ((2, 5, 4), (3, 3, 3)):
        A = [list(x) for k in range(n + 1) for x in itertools.product(range(p), repeat=k) if not x or x[-1]]
        B = [list(x) for k in range(1, m + 1) for x in itertools.product(range(p), repeat=k) if x[-1]]
        for u in A:
            for v in B:
                div(p, u, v)
    for p in (2, 3, 7, 31, 2 ** 256 - 2 ** 32 * 351 + 1):
        K = IntegersModP(p)
        P = polynomials_over(K)
        for u in ([], [1], [0, 1], [1, 2, 1], [1, 1, 0, 1]):
            for z in (P([]), P([0, 0]), P([K(0)])):
                for nm, fn in (("divmod", lambda a, b: divmod(a, b)), ("/", lambda a, b: a / b), ("%", lambda a, b: a % b)):
                    t.raises("poly:%s-by-zero" % nm, (p, u), lambda: fn(P(u), z), ZeroDivisionError)
    for c in cs:
        for d in (0, 1, 2):
            for p in (2, 7, 31):
                n = c + d
                u = [rng.randrange(p) for _ in range(n)] + [1]
                for k in {0, 1, 2, n // 2, n - 1, n, n + 1}:
                    if k >= 0:
                        div(p, u, [rng.randrange(p) for _ in range(k)] + [rng.randrange(1, p)])
                        div(p, [0] * n + [1], [rng.randrange(p) for _ in range(k)] + [rng.randrange(1, p)])
    for _ in t.rounds(0.6, 60):
        p = rng.choice((2, 2, 3, 5, 7, 31, 97, 65537, 2 ** 256 - 2 ** 32 * 351 + 1))
        n = rng.choice((0, 1, 2, 3, 5, 8, 13, 21, 40))
        sparse = rng.random() < 0.4
        co = (lambda: rng.choice((0, 0, 0, rng.randrange(p)))) if sparse else (lambda: rng.randrange(p))
        v = [co() for _ in range(rng.randint(0, n + 1))] + [rng.randrange(1, p)]
        q = [co() for _ in range(rng.randint(0, 6))] + [rng.randrange(1, p)]
        k = rng.randint(0, 3)
        if k == 0:
            u = pmul(q, v, p)
        elif k == 1:
            u = padd(pmul(q, v, p), [co() for _ in range(rng.randint(0, max(0, len(v) - 1)))], p)
        elif k == 2:
            u = padd(pmul(q, v, p), [co()], p)
        else:
            u = [co() for _ in range(n)]
        div(p, u, v)
