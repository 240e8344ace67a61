"""Algebraic executions: trace, witness, constraints, circuit, boundary."""
import contextlib
import io
import starks.air as A
import starks.utils as U
from starks.multivariate_polynomial import multivariates_over
from fld import *


def power(K, x, n):
    r = K.one
    for _ in range(n):
        r = K.mul(r, x)
    return r


def ev(K, d, pt):
    y = K.zero
    for m, c in d.items():
        for x, e in zip(pt, m):
            c = K.mul(c, power(K, x, e))
        y = K.add(y, c)
    return y


def run(t):
    rng = t.rng
    fields = [Prime(p) for p in (2, 5, 31, 2 ** 256 - 2 ** 32 * 351 + 1)] + [Ext(*EXT[0])]

    def quiet(f):
        with contextlib.redirect_stdout(io.StringIO()):
            return f()

    def reference(K, inp, steps, n):
        out = [list(inp)]
        for _ in range(n - 1):
            out.append([ev(K, s, out[-1]) for s in steps])
        return out

    def raws(K, states):
        return [[K.raw(x) for x in s] for s in states]

    def trace(K, w, inp, steps, n):
        def f():
            M = multivariates_over(K.F, w).factory
            sp = [M({m: K.el(c) for m, c in s.items()}) for s in steps]
            want = reference(K, inp, steps, n)
            start = [K.el(x) for x in inp]
            got, last = quiet(lambda: A.get_computational_trace(start, n, w, sp))
            if raws(K, [start]) != [list(inp)]:
                return "the input state became %r" % raws(K, [start])
            if raws(K, got) != want:
                return "trace %r, not %r" % (raws(K, got), want)
            if raws(K, [last]) != [want[-1]]:
                return "output %r, not %r" % (raws(K, [last]), want[-1])
        t.case("trace", (K.name, w, inp, steps, n), f)

    def index(K, w):
        def f():
            xs = U.generate_Xi_s(K.F, w)
            if len(xs) != w:
                return "%d variables" % len(xs)
            pt = [K.rnd(rng) for _ in range(w)]
            got = [K.raw(x([K.el(v) for v in pt])) for x in xs]
            if got != pt:
                return "values %r at %r" % (got, pt)
        t.case("variables", (K.name, w), f)

    def instance(K, w, inp, steps):
        n = 511

        def f():
            M = multivariates_over(K.F, w).factory
            sp = [M({m: K.el(c) for m, c in s.items()}) for s in steps]
            a = quiet(lambda: A.AIR(K.F, w, [K.el(x) for x in inp], n, sp, 8))
            want = reference(K, inp, steps, n)
            if raws(K, a.computational_trace) != want or raws(K, [a.output]) != want[-1:]:
                return "the instance's trace is not that of its steps"
            wit = raws(K, a.generate_witness())
            if wit != [[s[j] for s in want] for j in range(w)]:
                return "the witness does not list each dimension's values"
            b = [(i, j, K.raw(v)) for i, j, v in a.generate_boundary_constraints()]
            if sorted(b) != sorted((0, j, inp[j]) for j in range(w)) or [(i, j, K.raw(v)) for i, j, v in a.B] != b:
                return "boundary constraints %r" % (b,)
            polys = a.generate_constraint_polynomials()
            if len(polys) != w:
                return "%d constraints" % len(polys)
            pairs = [(want[i], want[i + 1]) for i in (0, 1, n - 2)]
            pairs += [([K.rnd(rng) for _ in range(w)], [K.rnd(rng) for _ in range(w)]) for _ in range(6)]
            for s, u in pairs:
                for j in range(w):
                    v = polys[j]([K.el(x) for x in s + u])
                    e = K.sub(u[j], ev(K, steps[j], s))
                    if (K.raw(v) == K.zero) != (e == K.zero):
                        return "constraint %d is %r at %r, %r" % (j, K.raw(v), s, u)
            if a.C is not True and a.C is not False or not a.C:
                return "the circuit is %r on a valid trace" % (a.C,)
            good = a.computational_trace
            for k in (0, 1, n // 2, n - 2, n - 1):
                for j in range(w):
                    bad = [list(s) for s in want]
                    bad[k][j] = K.add(bad[k][j], K.one)
                    ok = all(bad[i + 1][x] == ev(K, steps[x], bad[i]) for i in range(max(0, k - 2), min(n - 1, k + 1)) for x in range(w))
                    a.computational_trace = [[K.el(x) for x in s] for s in bad]
                    r = quiet(lambda: a.generate_monotone_circuit(polys))
                    if bool(r) != ok:
                        return "the circuit is %r after changing component %d of state %d" % (r, j, k)
            a.computational_trace = good
        t.case("instance", (K.name, w, inp, steps), f)

    def steps_of(K, w, deg, terms):
        out = []
        for _ in range(w):
            d = {}
            for _ in range(terms):
                c = K.rnd(rng)
                if c != K.zero:
                    d[tuple(rng.randrange(deg + 1) for _ in range(w))] = c
            out.append(d)
        return out

    for K in fields:
        for w in (1, 2, 3, 5):
            index(K, w)
    for _ in t.rounds(0.4, 30, 400):
        K = rng.choice(fields)
        w = rng.choice([1, 1, 2, 2, 3, 4])
        trace(K, w, [K.rnd(rng) for _ in range(w)], steps_of(K, w, 3, rng.randrange(4)), rng.choice([1, 2, 3, 5, 9]))
    # states that feed each other
    for K in fields:
        trace(K, 2, [K.one, K.zero], [{(0, 1): K.one}, {(1, 0): K.one, (0, 0): K.one}], 6)
        trace(K, 3, [K.one, K.zero, K.one], [{(0, 1, 0): K.one}, {(0, 0, 1): K.one}, {(1, 0, 0): K.one}], 5)
    instance(fields[1], 1, [2], [{(2,): 1, (0,): 1}])
    instance(fields[2], 2, [1, 0], [{(0, 1): 1}, {(1, 0): 1, (0, 1): 1}])
    if t.thorough:
        for K in fields:
            w = rng.choice([1, 2, 3])
            instance(K, w, [K.rnd(rng) for _ in range(w)], steps_of(K, w, 2, 3))
