"""Univariate polynomials are the ring R[x] in canonical form."""
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over, strip
from starks.rationals_modp import RationalsModP
from ref import *


def canonical(r, P, want, K=None, p=None):
    """None when r is the polynomial with these coefficients."""
    if type(r) is not P:
        return "has type %s" % type(r)
    cs = r.coefficients
    if not isinstance(cs, list):
        return "coefficients of type %s" % type(cs)
    if K is not None:
        for c in cs:
            if type(c) is not K:
                return "coefficient %r of type %s" % (c, type(c))
    got = [int(c) for c in cs]
    if got != list(want):
        return "has coefficients %r, not %r" % (got, list(want))
    return None


def run(t):
    rng = t.rng
    lens = [c for c in t.consts("starks/polynomial.py") if 0 <= c < 80]

    def battery(p, u, v):
        K = IntegersModP(p)
        P = polynomials_over(K)
        nu, nv = pnorm(u, p), pnorm(v, p)

        def mk():
            return P([K(c) for c in u]), P([K(c) for c in v])
        inp = (p, u, v)

        def build():
            L = [K(c) for c in u]
            r = P(L)
            if [int(c) for c in L] != [c % p for c in u]:
                return "argument list modified: %r" % L
            return canonical(r, P, nu, K) or canonical(P(list(u)), P, nu, K) or canonical(P.factory(list(u)), P, nu, K) or canonical(P(tuple(u)), P, nu, K) or canonical(P(r), P, nu, K)
        t.case("poly:init", inp, build)
        for op, fn, want in (("+", lambda a, b: a + b, padd(nu, nv, p)), ("-", lambda a, b: a - b, psub(nu, nv, p)),
                             ("*", lambda a, b: a * b, pmul(nu, nv, p)), ("unary-", lambda a, b: -a, pnorm([-c for c in nu], p))):
            def f():
                a, b = mk()
                r = fn(a, b)
                r2 = fn(a, b)
                if pcoef(a) != nu or pcoef(b) != nv:
                    return "operands modified: %r, %r" % (pcoef(a), pcoef(b))
                if pcoef(r2) != pcoef(r):
                    return "result differs on repetition"
                return canonical(r, P, want, K)
            t.case("poly:" + op, inp, f)

            def g():
                a, _ = mk()
                w = {"+": padd(nu, nu, p), "-": [], "*": pmul(nu, nu, p), "unary-": pnorm([-c for c in nu], p)}[op]
                return canonical(fn(a, a), P, w, K)
            t.case("poly:self" + op, inp, g)

        def cmp():
            a, b = mk()
            e = nu == nv
            if (a == b) is not e or (a != b) is e or bool(b == a) != e or bool(b != a) == e:
                return "== is %r and != is %r" % (a == b, a != b)
            c = P([K(x) for x in u])
            return (a == c) and not (a != c) or "a polynomial differs from itself"
        t.case("poly:eq", inp, cmp)

        def measures():
            a, _ = mk()
            if a.degree() != len(nu) - 1 or len(a) != len(nu) or abs(a) != len(nu) or bool(a.is_zero()) != (not nu):
                return "degree %r, len %r, abs %r, is_zero %r" % (a.degree(), len(a), abs(a), a.is_zero())
            if nu and int(a.leading_coefficient()) != nu[-1]:
                return "leading coefficient %r" % a.leading_coefficient()
            if [int(c) for c in a] != nu or [int(c) for c in a.iter()] != nu:
                return "iteration gives %r" % list(a)
        t.case("poly:measures", inp, measures)

        def ev():
            a, b = mk()
            for x in sorted({0, 1, p - 1, 2 % p, rng.randrange(p)}):
                r = a(K(x))
                if not (r == K(peval(nu, x, p))) or type(r) is not K:
                    return "p(%d) = %r, not %d" % (x, r, peval(nu, x, p))
            r = a(b)
            w, pw = [], [1]
            for c in nu:
                w = padd(w, pmul(pw, [c], p), p)
                pw = pmul(pw, nv, p)
            if len(nu) == 1:
                if not (P(r) == P(w)):
                    return "c(q) = %r" % r
            elif nu:
                m = canonical(r, P, w, K)
                if m:
                    return "p(q) " + m
            elif not (r == K(0)):
                return "0(q) = %r" % r
            if pcoef(a) != nu or pcoef(b) != nv:
                return "operands modified"
        t.case("poly:eval", inp, ev)

        def st():
            L = [K(c) for c in u]
            r = strip(L, K(v[0] if v else 0))
            e = (v[0] if v else 0) % p
            w = [c % p for c in u]
            while w and w[-1] == e:
                w.pop()
            return [int(c) for c in r] == w or "strip gives %r, not %r" % (r, w)
        t.case("poly:strip", inp, st)
    import itertools
    for p in (2, 3):
        small = [list(x) for n in range(0, 4) for x in itertools.product(range(p), repeat=n)]
        for u in (small if p == 2 else small[:20]):
            for v in (small if p == 2 else small[:20]):
                battery(p, u, v)
    for n in sorted({c + d for c in lens for d in (-1, 0, 1, 2)}):
        if n < 0:
            continue
        for p in (7, 31):
            u = [rng.randrange(p) for _ in range(n)]
            battery(p, u, [rng.randrange(p) for _ in range(rng.randint(0, 5))])
            battery(p, u, [-c for c in u])
            battery(p, u, u[:n // 2] + [0] * (n // 2))
    for _ in t.rounds(0.6, 60):
        p = rng.choice((2, 3, 5, 7, 31, 97, 65537, 2 ** 256 - 2 ** 32 * 351 + 1))
        u = [rng.randrange(p) for _ in range(rng.choice((0, 1, 2, 3, 4, 5, 8, 9, 16, 17, 33)))] + [0] * rng.choice((0, 0, 1, 2))
        k = rng.randint(0, 7)
        if k == 0:
            v = [-c for c in u]
        elif k == 1:
            v = u[:-1] + [1] if u else [1]
        elif k == 2:
            v = list(u)
            if v:
                v[rng.randrange(len(v))] += 1
        elif k == 3:
            v = u + [0, 0]
        else:
            v = [rng.choice((0, rng.randrange(p))) for _ in range(rng.randint(0, 9))]
        battery(p, u, v)
