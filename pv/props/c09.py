"""C09: fractions modulo a prime."""
from ..check import Property
from ..contract import *
from ..sorts import *
from .c01 import identity_memoize
from .c03 import Gcd

def rationals(ex):
    p = ex.fresh("p", ("s", INT))
    ex.add_fact("prime", app("Prime", PROP, p))
    ex.add_fact("prime", lt(1, p))
    return p, ex.call(ex.module_name("starks.rationals_modp", "RationalsModP"), [p])


def parts(ex, o):
    d = ex.heap[o.addr]
    return T(d["m"]), T(d["n"])


def valid(m, n, p):
    """the class invariant"""
    return [("numerator", And(le(0, m), lt(m, p))), ("denominator", And(lt(0, n), lt(n, p))), ("lowest", app("lowest", PROP, m, n))]


def rational(ex, Q, p, name):
    m, n = ex.fresh(name + "m", ("s", INT)), ex.fresh(name + "n", ("s", INT))
    for lab, q in valid(m, n, p):
        ex.add_fact(name, q)
    o = ex.call(Q, [0])
    ex.heap[o.addr]["m"], ex.heap[o.addr]["n"] = m, n
    return o, m, n


def is_rational(ex, r, Q, p, num, den):
    """r is an element in lowest terms that represents num/den"""
    if not (isinstance(r, Ref) and r.typ == "obj" and ex.heap[r.addr]["$class"] is Q):
        ex.oblige("ensures:type", FALSE)
        return
    m, n = parts(ex, r)
    ex.oblige("ensures:value", app("fracOK", PROP, p, m, n, num, den))


class Rationals(Scenarios):
    qual = "starks.rationals_modp:RationalsModP"
    hints = {"*": "!rat_auto"}

    def two(self, ex):
        p, Q = rationals(ex)
        return (p, Q) + rational(ex, Q, p, "a") + rational(ex, Q, p, "b")

    def unchanged(self, ex, *objs):
        for o, m, n in objs:
            a, b = parts(ex, o)
            ex.oblige("frame:operand", And(eq(a, m), eq(b, n)))

    def binary(self, ex, op, want):
        p, Q, x, m, n, y, k, l = self.two(ex)
        r = seqops.binop(ex, op, x, y)
        is_rational(ex, r, Q, p, *want(m, n, k, l))
        self.unchanged(ex, (x, m, n), (y, k, l))

    def s_add(self, ex):
        self.binary(ex, "Add", lambda m, n, k, l: (add(mul(m, l), mul(k, n)), mul(n, l)))

    def s_sub(self, ex):
        self.binary(ex, "Sub", lambda m, n, k, l: (sub(mul(m, l), mul(k, n)), mul(n, l)))

    def s_mul(self, ex):
        self.binary(ex, "Mult", lambda m, n, k, l: (mul(m, k), mul(n, l)))

    def s_neg(self, ex):
        p, Q = rationals(ex)
        x, m, n = rational(ex, Q, p, "a")
        is_rational(ex, seqops.unary_neg(ex, x), Q, p, neg(m), n)
        self.unchanged(ex, (x, m, n))

    def s_inverse(self, ex):
        p, Q = rationals(ex)
        x, m, n = rational(ex, Q, p, "a")
        ex.add_fact("req", ne(m, 0))
        is_rational(ex, ex.call_method(x, "inverse", []), Q, p, n, m)
        self.unchanged(ex, (x, m, n))

    def s_inverse_zero(self, ex):
        p, Q = rationals(ex)
        x, m, n = rational(ex, Q, p, "a")
        ex.heap[x.addr]["m"] = 0
        expect_raise(ex, ["Exception"], lambda: ex.call_method(x, "inverse", []))

    def s_div(self, ex):
        p, Q, x, m, n, y, k, l = self.two(ex)
        ex.add_fact("req", ne(k, 0))
        is_rational(ex, seqops.binop(ex, "Div", x, y), Q, p, mul(m, l), mul(n, k))
        self.unchanged(ex, (x, m, n), (y, k, l))

    def s_div_zero(self, ex):
        p, Q, x, m, n, y, k, l = self.two(ex)
        ex.heap[y.addr]["m"] = 0
        expect_raise(ex, ["Exception"], lambda: seqops.binop(ex, "Div", x, y))

    def s_eq(self, ex):
        p, Q, x, m, n, y, k, l = self.two(ex)
        r = ex.truth(seqops.obj_eq(ex, "__eq__", x, y))
        ex.oblige("ensures:eq", Iff(prop_of(r), app("samefrac", PROP, p, m, n, k, l)))

    def s_ne(self, ex):
        p, Q, x, m, n, y, k, l = self.two(ex)
        r = ex.truth(seqops.obj_eq(ex, "__ne__", x, y))
        ex.oblige("ensures:ne", Iff(prop_of(r), Not(app("samefrac", PROP, p, m, n, k, l))))

    def s_fraction(self, ex):
        """construction from a numerator and a denominator"""
        p, Q = rationals(ex)
        a, b = ex.fresh("num", ("s", INT)), ex.fresh("den", ("s", INT))
        ex.add_fact("req", Not(app("Dvd.dvd", PROP, p, b)))
        is_rational(ex, ex.call(Q, [a, b]), Q, p, a, b)

    def s_integer(self, ex):
        p, Q = rationals(ex)
        a = ex.fresh("num", ("s", INT))
        is_rational(ex, ex.call(Q, [a]), Q, p, a, T(1))


class C09(Property):
    id = "C09"
    contracts = (Rationals, Gcd)
    lib = ("Pv.Gcd", "Pv.Rat")
    assumptions = ("p is prime (the documented precondition)",)

    def setup(self, w):
        w.call_hooks["starks.numbertype:memoize"] = identity_memoize


PROPERTY = C09()
