"""The polynomials of a STARK."""
import starks.fri
if not hasattr(starks.fri, "FRI"):
    starks.fri.FRI = object      # (the name stark.py imports does not exist)
import starks.stark as S
from starks.multivariate_polynomial import multivariates_over
from fld import *

PRIMES = {3: 1, 5: 2, 7: 1, 17: 4, 41: 3, 97: 5, 193: 6, 257: 8, 7681: 9}


def run(t):
    rng = t.rng

    def root(p, n):
        while True:
            w = pow(rng.randrange(1, p), (p - 1) // n, p)
            if pow(w, n // 2, p) == p - 1:
                return w

    def step_value(st, state, p):
        out = 0
        for mono, c in st.items():
            for x, e in zip(state, mono):
                c = c * pow(x, e, p) % p
            out = (out + c) % p
        return out

    def raws(K, f, P):
        if type(f) is not P:
            raise TypeError("%r is a %s, not a polynomial" % (f, type(f).__name__))
        return pnorm([K.raw(c) for c in f.coefficients], K.p)

    def value(cs, x, p):
        a = 0
        for c in reversed(cs):
            a = (a * x + c) % p
        return a

    def stark(p, n, w, inp, steps):
        K = Prime(p)
        P = polynomials_over(K.F)
        width = len(inp)

        def f():
            wit = [[x] for x in inp]
            for i in range(n - 1):
                st = [c[-1] for c in wit]
                for c, s in zip(wit, steps):
                    c.append(step_value(s, st, p))
            witness = [[K.el(x) for x in c] for c in wit]
            keep = [list(c) for c in witness]
            ws = [pow(w, i, p) for i in range(n)]
            traces = S.construct_trace_polynomials(witness, K.F, K.el(w))
            tr = [raws(K, f, P) for f in traces]
            if len(tr) != width:
                return "%d trace polynomials for width %d" % (len(tr), width)
            for c, f in zip(wit, tr):
                if len(f) > n or any(value(f, x, p) != v for x, v in zip(ws, c)):
                    return "trace polynomial %r does not take the values %r" % (f, c)
            M = multivariates_over(K.F, width).factory
            sp = [M({m: K.el(c) for m, c in s.items()}) for s in steps]
            cons = S.construct_constraint_polynomials(sp, traces, K.F, K.el(w), width)
            cs = [raws(K, f, P) for f in cons]
            if len(cs) != width:
                return "%d constraint polynomials for width %d" % (len(cs), width)
            def mul(a, b): return pmul(a, b, p)
            for j in range(width):
                nxt = pnorm([c * pow(w, i, p) for i, c in enumerate(tr[j])], p)
                val = []
                for mono, c in steps[j].items():
                    term = pnorm([c], p)
                    for g, e in zip(tr, mono):
                        for _ in range(e):
                            term = mul(term, g)
                    val = padd(val, term, p)
                if cs[j] != psub(nxt, val, p):
                    return "constraint %d is %r, not %r" % (j, cs[j], psub(nxt, val, p))
            last = K.el(ws[-1])
            rem = S.construct_remainder_polynomials(cons, K.F, n, last)
            z = [1]
            for x in ws[:-1]:
                z = mul(z, [-x % p, 1])
            ds = [raws(K, f, P) for f in rem]
            if len(ds) != width or any(mul(z, d) != c for d, c in zip(ds, cs)):
                return "remainders %r times %r are not %r" % (ds, z, cs)
            bound = [(0, j, K.el(x)) for j, x in enumerate(inp)]
            bp = [raws(K, f, P) for f in S.construct_boundary_polynomials(traces, witness, bound, K.F, last, width)]
            if len(bp) != width:
                return "%d boundary polynomials for width %d" % (len(bp), width)
            zz = mul([-1 % p, 1], [-ws[-1] % p, 1])
            for j, b in enumerate(bp):
                line = psub(tr[j], mul(b, zz), p)
                if len(line) > 2 or value(line, 1, p) != wit[j][0] or value(line, ws[-1], p) != wit[j][-1]:
                    return "trace %r minus boundary %r times %r is %r, not the line through %d and %d" % (tr[j], b, zz, line, wit[j][0], wit[j][-1])
            if [list(c) for c in witness] != keep or [raws(K, f, P) for f in traces] != tr or [raws(K, f, P) for f in cons] != cs:
                return "an argument was modified"
        t.case("stark", (p, n, w, inp, [sorted(s.items()) for s in steps]), f)

    def ks(m, num):
        def f():
            a, b = S.get_pseudorandom_ks(m, num), S.get_pseudorandom_ks(bytes(bytearray(m)), num)
            if not isinstance(a, (list, tuple)) or len(a) != num or any(type(x) is not int for x in a):
                return "%d coefficients asked, %r given" % (num, a)
            if a != b:
                return "coefficients %r, then %r" % (a, b)
            c = S.get_pseudorandom_ks(m + b"x", num)
            return num == 0 or a != c or "the root does not matter"
        t.case("ks", (m.hex(), num), f)

    def steps(width, p, deg):
        out = []
        for _ in range(width):
            s = {}
            for _ in range(rng.randrange(4)):
                m = [0] * width
                for _ in range(rng.randrange(deg + 1)):
                    m[rng.randrange(width)] += 1
                s[tuple(m)] = rng.randrange(1, p)
            out.append(s)
        return out

    for num in range(13):
        ks(b"root", num)
        ks(rng.randbytes(32), num)
    for p in (5, 17):
        for n in (2, 4):
            w = root(p, n)
            for x in (0, 1, p - 1):
                for s in ({}, {(1,): 1}, {(0,): 1}, {(1,): 1, (0,): 1}, {(1,): 1, (0,): p - 1}, {(1,): p - 1}, {(3,): 1, (0,): 2}):
                    stark(p, n, w, [x], [s])
    for _ in t.rounds(1.0, 40, 4000):
        p = rng.choice(list(PRIMES))
        n = 2 ** rng.randrange(1, min(PRIMES[p], 6 if t.thorough else 4) + 1)
        width = rng.randrange(1, 4)
        stark(p, n, root(p, n), [rng.choice([0, 1, p - 1, rng.randrange(p)]) for _ in range(width)], steps(width, p, 3))
        ks(rng.randbytes(rng.choice([0, 1, 32, 40])), rng.randrange(16))
