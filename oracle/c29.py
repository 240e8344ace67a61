"""Floating-point numbers over binary fields."""
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.finitefield import FiniteField
from starks.floatingpoint import FloatingPoint

MODS = [[1, 1, 1], [1, 1, 0, 1], [1, 1, 0, 0, 1], [1, 0, 1, 0, 0, 1], [1, 1, 0, 1, 1, 0, 0, 0, 1]]


def run(t):
    rng = t.rng
    P = polynomials_over(IntegersModP(2))
    fields = []
    for m in MODS:
        F = FiniteField(2, len(m) - 1, polynomialModulus=P(m))
        fields.append((F, FloatingPoint(F)))

    def elt(F, bits):
        return F(P(list(bits)))

    def raw(e):
        return tuple(int(c.n) for c in e.poly.coefficients)

    def state(x):
        return raw(x.v), raw(x.p), x.z, x.s, id(x.v), id(x.p), sorted(k for k in vars(x))

    def num(F, C, d):
        return C(elt(F, d[0]), elt(F, d[1]), d[2], d[3])

    OPS = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b}

    def show(r):
        return (raw(r.v), raw(r.p), r.z, r.s)

    def binary(k, op, da, db):
        F, C = fields[k]

        def f():
            a, b = num(F, C, da), num(F, C, db)
            sa, sb = state(a), state(b)
            try:
                r = OPS[op](a, b)
            except ZeroDivisionError:
                if op == "div" and (db[2] == 1 or raw(b.v) == ()):
                    return (state(a), state(b)) == (sa, sb) or "an operand changed"
                raise
            if op == "div" and db[2] == 1:
                return "no ZeroDivisionError for the zero divisor"
            if (state(a), state(b)) != (sa, sb):
                return "an operand changed: %r %r became %r %r" % (da, db, state(a)[:4], state(b)[:4])
            if r is a or r is b:
                return "the result is an operand"
            r1 = show(r)
            r2 = show(OPS[op](a, b))
            if r1 != r2:
                return "repeated, the result is %r, not %r" % (r2, r1)
            if (state(a), state(b)) != (sa, sb) or show(r) != r1:
                return "a number changed on the second run"
            if op in ("mul", "div") and r.s != da[3] ^ db[3]:
                return "sign %r of %r and %r" % (r.s, da, db)
            if op in ("add", "sub"):
                s2 = db[3] ^ (op == "sub")
                if da[2] == 1 and r1 != (sb[0], sb[1], db[2], s2):
                    return "zero plus a number is %r" % (r1,)
                if da[2] == 0 and db[2] == 1 and r1 != (sa[0], sa[1], 0, da[3]):
                    return "a number plus zero is %r" % (r1,)
            return True
        t.case(op, (F.__name__, da, db), f)

    def fixed(k, d):
        F, C = fields[k]

        def f():
            a = num(F, C, d)
            s = state(a)
            v, sign = a.Float_to_Fix()
            if state(a) != s:
                return "the number changed"
            w, sign2 = a.Float_to_Fix()
            if state(a) != s or raw(v) != raw(w) or sign != sign2:
                return "repeated, the result differs"
            if v is a.v or v is a.p:
                return "the result is the operand's own element"
            return sign == (0 if d[2] == 1 else d[3]) or "sign %r" % (sign,)
        t.case("Float_to_Fix", (F.__name__, d), f)

    def less(k, da, db):
        F, C = fields[k]

        def f():
            a, b = elt(F, da), elt(F, db)
            s = raw(a), raw(b)
            r = a.LT(b)
            if (raw(a), raw(b)) != s:
                return "an element changed"
            return r in (0, 1) or "LT is %r" % (r,)
        t.case("LT", (F.__name__, da, db), f)

    def bits(m):
        return tuple(rng.randrange(2) for _ in range(rng.randint(0, m)))

    def datum(k):
        m = fields[k][0].m
        z = 1 if rng.random() < 0.25 else 0
        v = bits(m)
        return ((v if any(v) or rng.random() < 0.1 else (1,)) if not z or rng.random() < 0.5 else (), bits(m), z, rng.randrange(2))

    for _ in t.rounds(0.9, 150, 20000):
        k = rng.randrange(len(fields))
        a, b = datum(k), datum(k)
        for op in OPS:
            binary(k, op, a, b)
            binary(k, op, a, a)
        fixed(k, a)
        less(k, a[0], b[0])
