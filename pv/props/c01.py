"""C01: the prime field Z/p."""
from ..check import Property
from ..contract import *
from ..sorts import *
from .c03 import Gcd, Egcd


def identity_memoize(ex, f, args, kwargs):
    return args[0]


def primefield(ex, name="p"):
    """A symbolic prime and the real class IntegersModP(p) built by the real factory."""
    p = ex.fresh(name, ("s", INT))
    ex.add_fact("prime", app("Prime", PROP, p))
    ex.add_fact("prime", lt(1, p))
    return p, ex.call(ex.module_name("starks.modp", "IntegersModP"), [p])


def residue(ex, K, p, name):
    """Any element: an instance whose representative n satisfies the class invariant 0 <= n < p."""
    n = ex.fresh(name, ("s", INT))
    ex.add_fact("inv", le(0, n))
    ex.add_fact("inv", lt(n, p))
    o = ex.call(K, [0])
    ex.heap[o.addr]["n"] = n
    return o, n


def rep(ex, o):
    d = ex.heap[o.addr]
    return d["n"]


def is_residue(ex, label, r, K, p, want):
    """r is an instance of K whose representative is exactly `want` in [0,p)."""
    if not (isinstance(r, Ref) and r.typ == "obj" and ex.heap[r.addr]["$class"] is K):
        ex.oblige("ensures:%s.type" % label, FALSE)
        return
    n = T(rep(ex, r))
    ex.oblige("ensures:%s.canonical" % label, And(le(0, n), lt(n, p)))
    ex.oblige("ensures:%s.value" % label, eq(n, want))


class PrimeField(Scenarios):
    qual = "starks.modp:IntegersModP"
    hints = {"*": "pf_auto"}

    def two(self, ex):
        p, K = primefield(ex)
        x, a = residue(ex, K, p, "a")
        y, b = residue(ex, K, p, "b")
        return p, K, x, a, y, b

    def unchanged(self, ex, x, a):
        ex.oblige("frame:operand", eq(T(rep(ex, x)), a))

    def binary(self, ex, op, want):
        p, K, x, a, y, b = self.two(ex)
        r = seqops.binop(ex, op, x, y)
        is_residue(ex, op, r, K, p, want(a, b, p))
        self.unchanged(ex, x, a)
        self.unchanged(ex, y, b)

    def s_add(self, ex):
        self.binary(ex, "Add", lambda a, b, p: fmod(add(a, b), p, pos=True))

    def s_sub(self, ex):
        self.binary(ex, "Sub", lambda a, b, p: fmod(sub(a, b), p, pos=True))

    def s_mul(self, ex):
        self.binary(ex, "Mult", lambda a, b, p: fmod(mul(a, b), p, pos=True))

    def s_neg(self, ex):
        p, K = primefield(ex)
        x, a = residue(ex, K, p, "a")
        r = seqops.unary_neg(ex, x)
        is_residue(ex, "neg", r, K, p, fmod(neg(a), p, pos=True))
        self.unchanged(ex, x, a)

    def s_eq(self, ex):
        p, K, x, a, y, b = self.two(ex)
        r = ex.truth(seqops.obj_eq(ex, "__eq__", x, y))
        ex.oblige("ensures:eq", Iff(prop_of(r), eq(a, b)))

    def s_ne(self, ex):
        p, K, x, a, y, b = self.two(ex)
        r = ex.truth(seqops.obj_eq(ex, "__ne__", x, y))
        ex.oblige("ensures:ne", Iff(prop_of(r), ne(a, b)))

    def s_divmod(self, ex):
        p, K, x, a, y, b = self.two(ex)
        ex.add_fact("req", ne(b, 0))
        q, r = ex.call_method(x, "__divmod__", [y])
        is_residue(ex, "quotient", q, K, p, fdiv(a, b, pos=True))
        is_residue(ex, "remainder", r, K, p, fmod(a, b, pos=True))
        self.unchanged(ex, x, a)

    def s_inverse(self, ex):
        p, K = primefield(ex)
        x, a = residue(ex, K, p, "a")
        ex.add_fact("req", ne(a, 0))
        r = ex.call_method(x, "inverse", [])
        ex.oblige("ensures:inverse.type", T(ex.heap[r.addr]["$class"] is K))
        n = T(rep(ex, r))
        ex.oblige("ensures:inverse.canonical", And(le(0, n), lt(n, p)))
        ex.oblige("ensures:inverse.value", eq(fmod(mul(a, n), p, pos=True), 1))
        self.unchanged(ex, x, a)

    def s_inverse_zero(self, ex):
        p, K = primefield(ex)
        x, a = residue(ex, K, p, "a")
        ex.heap[x.addr]["n"] = 0
        expect_raise(ex, ["Exception"], lambda: ex.call_method(x, "inverse", []))

    def s_div(self, ex):
        p, K, x, a, y, b = self.two(ex)
        ex.add_fact("req", ne(b, 0))
        r = seqops.binop(ex, "Div", x, y)
        n = T(rep(ex, r))
        ex.oblige("ensures:div.canonical", And(le(0, n), lt(n, p)))
        ex.oblige("ensures:div.value", eq(fmod(mul(n, b), p, pos=True), a))
        self.unchanged(ex, x, a)
        self.unchanged(ex, y, b)

    def s_div_zero(self, ex):
        p, K, x, a, y, b = self.two(ex)
        ex.heap[y.addr]["n"] = 0
        expect_raise(ex, ["Exception"], lambda: seqops.binop(ex, "Div", x, y))

    def s_from_int(self, ex):
        p, K = primefield(ex)
        k = ex.fresh("k", ("s", INT))
        r = ex.call(K, [k])
        is_residue(ex, "from-int", r, K, p, fmod(k, p, pos=True))

    def s_from_bytes(self, ex):
        p, K = primefield(ex)
        b = ex.fresh("b", ("s", BYTES))
        r = ex.call(K, [b])
        is_residue(ex, "from-bytes", r, K, p, fmod(app("fromBytesBE", INT, b), p, pos=True))

    def s_from_element(self, ex):
        p, K = primefield(ex)
        x, a = residue(ex, K, p, "a")
        r = ex.call(K, [x])
        is_residue(ex, "from-element", r, K, p, a)

    def s_from_other(self, ex):
        p, K = primefield(ex)
        expect_raise(ex, ["TypeError"], lambda: ex.call(K, [None]))
        expect_raise(ex, ["TypeError"], lambda: ex.call(K, [ex.alloc(Seq([1]), "list")]))

    def s_int_abs(self, ex):
        p, K = primefield(ex)
        x, a = residue(ex, K, p, "a")
        ex.oblige("ensures:int", eq(T(ex.call_method(x, "__int__", [])), a))
        ex.oblige("ensures:abs", eq(T(ex.call_method(x, "__abs__", [])), a))

    def s_parameters(self, ex):
        p, K = primefield(ex)
        ex.oblige("ensures:p", eq(T(ex.getattr(K, "p")), p))
        ex.oblige("ensures:field_size", eq(T(ex.getattr(K, "field_size")), p))
        ex.oblige("ensures:m", eq(T(ex.getattr(K, "m")), 1))


class C01(Property):
    id = "C01"
    contracts = (PrimeField, Gcd, Egcd)
    lib = ("Pv.Gcd", "Pv.Bytes", "Pv.Prime")
    assumptions = ("p is prime (the documented precondition)", "an element's attribute n is not overwritten by callers")

    def setup(self, w):
        w.call_hooks["starks.numbertype:memoize"] = identity_memoize


PROPERTY = C01()
