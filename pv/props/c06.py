"""C06: mixed operands."""
from ..check import Property
from ..contract import *
from ..sorts import *
from .fields import *
from .c01 import PrimeField, primefield, residue, is_residue, rep
from .c03 import Gcd, Egcd
from .c04 import Strip, anypoly, is_poly, coeffs
from .c05 import DivMod

OPS = ("Add", "Sub", "Mult", "Div", "Mod", "DivMod")
CMP = ("__eq__", "__ne__")


def unsupported(ex, x, bads):
    """Every operator raises TypeError on every operand of bads, either side."""
    for b in bads:
        for op in OPS:
            for l, r in ((x, b), (b, x)):
                expect_raise(ex, ["TypeError"], lambda: seqops.binop(ex, op, l, r), "raises:%s" % op)
        for c in CMP:
            expect_raise(ex, ["TypeError"], lambda: seqops.obj_eq(ex, c, x, b), "raises:" + c)


def bigger(ex, prec):
    """An arbitrary object whose class has a higher operator precedence."""
    c = ClassVal("Other", [], {"operatorPrecedence": prec}, "Other")
    return ex.call(c, [])


class MixPrime(Scenarios):
    """Z/p with Python integers and with values of higher precedence."""
    qual = "starks.numbertype:typecheck"
    hints = {"*": "mixp_auto"}

    def one(self, ex):
        p, K = primefield(ex)
        x, a = residue(ex, K, p, "a")
        n = ex.fresh("n", ("s", INT))
        return p, K, x, a, n

    def arith(self, ex, op, f):
        p, K, x, a, n = self.one(ex)
        is_residue(ex, "x-op-int", seqops.binop(ex, op, x, n), K, p, fmod(f(a, n), p, pos=True))
        is_residue(ex, "int-op-x", seqops.binop(ex, op, n, x), K, p, fmod(f(n, a), p, pos=True))
        ex.oblige("frame:operand", eq(T(rep(ex, x)), a))

    def s_add(self, ex):
        self.arith(ex, "Add", add)

    def s_sub(self, ex):
        self.arith(ex, "Sub", sub)

    def s_mul(self, ex):
        self.arith(ex, "Mult", mul)

    def quot(self, ex, r, K, p, num, den):
        if not (isinstance(r, Ref) and ex.heap[r.addr].get("$class") is K):
            ex.oblige("ensures:type", FALSE)
            return
        n = T(rep(ex, r))
        ex.oblige("ensures:div.canonical", And(le(0, n), lt(n, p)))
        ex.oblige("ensures:div.value", eq(fmod(mul(n, den), p, pos=True), num))

    def s_div(self, ex):
        p, K, x, a, n = self.one(ex)
        d = fmod(n, p, pos=True)
        ex.add_fact("req", ne(d, 0))
        self.quot(ex, seqops.binop(ex, "Div", x, n), K, p, a, d)

    def s_rdiv(self, ex):
        p, K, x, a, n = self.one(ex)
        ex.add_fact("req", ne(a, 0))
        self.quot(ex, seqops.binop(ex, "Div", n, x), K, p, fmod(n, p, pos=True), a)

    def s_cmp(self, ex):
        p, K, x, a, n = self.one(ex)
        r = fmod(n, p, pos=True)
        for nm, l, m in (("left", x, n), ("right", n, x)):
            ex.oblige("ensures:eq." + nm, Iff(prop_of(ex.truth(seqops.obj_eq(ex, "__eq__", l, m))), eq(a, r)))
            ex.oblige("ensures:ne." + nm, Iff(prop_of(ex.truth(seqops.obj_eq(ex, "__ne__", l, m))), ne(a, r)))

    def s_unsupported(self, ex):
        p, K, x, a, n = self.one(ex)
        ex.add_fact("req", ne(a, 0))
        unsupported(ex, x, [None, ex.alloc(Seq([1, 2]), "list"), (1, 2)])

    def s_precedence(self, ex):
        p, K, x, a, n = self.one(ex)
        o = bigger(ex, 2)
        for m in ("__add__", "__sub__", "__mul__", "__truediv__", "__divmod__", "__eq__", "__ne__"):
            r = ex.call_method(x, m, [o])
            ex.oblige("ensures:defers.%s" % m, TRUE if r is NOTIMPL else FALSE)


class MixPoly(Scenarios):
    """Polynomials with integers and with coefficients."""
    qual = "starks.polynomial:polynomials_over"
    lean_ctx = FLD_CTX
    hints = {"ensures:*": "mix_auto", "*": "quot_auto"}

    def operands(self, ex):
        """(value as run, the polynomial it stands for)"""
        c, n = ex.fresh("c", ("s", FLD)), ex.fresh("n", ("s", INT))
        return [("coefficient", c, app("Polynomial.C", PLY, c)), ("int", n, cast(n, PLY))]

    def arith(self, ex, m, f):
        P = sealed_polyclass(ex)
        a = ex.fresh("a", ("s", PLY))
        for nm, v, w in self.operands(ex):
            r = ex.call(P.lookup("__%s__" % m), [a, v])
            ex.oblige("ensures:p-op-%s" % nm, eq(PLY.cls.seal.conv(ex, r), f(a, w)))
            r = ex.call(P.lookup("__r%s__" % m), [a, v])
            ex.oblige("ensures:%s-op-p" % nm, eq(PLY.cls.seal.conv(ex, r), f(w, a)))

    def s_add(self, ex):
        self.arith(ex, "add", add)

    def s_sub(self, ex):
        self.arith(ex, "sub", sub)

    def s_mul(self, ex):
        self.arith(ex, "mul", mul)

    def s_cmp(self, ex):
        P = sealed_polyclass(ex)
        a = ex.fresh("a", ("s", PLY))
        for nm, v, w in self.operands(ex):
            ex.oblige("ensures:eq.%s" % nm, Iff(prop_of(ex.truth(ex.call(P.lookup("__eq__"), [a, v]))), eq(a, w)))
            ex.oblige("ensures:ne.%s" % nm, Iff(prop_of(ex.truth(ex.call(P.lookup("__ne__"), [a, v]))), ne(a, w)))

    def s_div(self, ex):
        """sealed operands: divmod, /, % first convert the other operand"""
        P = sealed_polyclass(ex)
        a = ex.fresh("a", ("s", PLY))
        for nm, v, w in self.operands(ex):
            ex.add_fact("req", ne(w, T(0, PLY)))
            for m, want in (("__truediv__", app("pquo", PLY, a, w)), ("__mod__", app("prem", PLY, a, w))):
                equal(ex, "%s.%s" % (m, nm), ex.call(P.lookup(m), [a, v]), want)

    def s_unsupported(self, ex):
        P = real_polyclass(ex)
        p, a = anypoly(ex, P, "a")
        unsupported(ex, p, [None])

    def s_precedence(self, ex):
        P = real_polyclass(ex)
        p, a = anypoly(ex, P, "a")
        o = bigger(ex, 3)
        for m in ("__add__", "__mul__", "__truediv__", "__mod__", "__divmod__", "__eq__", "__ne__"):
            r = ex.call_method(p, m, [o])
            ex.oblige("ensures:defers.%s" % m, TRUE if r is NOTIMPL else FALSE)


class MixFq(Scenarios):
    """Extension-field elements with integers, prime-field elements and polynomials."""
    qual = "starks.finitefield:FiniteField"
    lean_ctx = FLD_CTX
    hints = {"ensures:*": "mix_auto", "*": "quot_auto"}

    def operands(self, ex):
        c, n = ex.fresh("c", ("s", FLD)), ex.fresh("n", ("s", INT))
        return [("coefficient", c, app("Polynomial.C", PLY, c)), ("int", n, app("Polynomial.C", PLY, cast(n, FLD)))]

    def arith(self, ex, op, f):
        F, P, g = extfield(ex)
        x, a = element(ex, F, g, "a")
        for nm, v, w in self.operands(ex):
            is_element(ex, "x-op-%s" % nm, seqops.binop(ex, op, x, v), F, g, prem(f(a, w), g))
            is_element(ex, "%s-op-x" % nm, seqops.binop(ex, op, v, x), F, g, prem(f(w, a), g))

    def s_add(self, ex):
        self.arith(ex, "Add", add)

    def s_sub(self, ex):
        self.arith(ex, "Sub", sub)

    def s_mul(self, ex):
        self.arith(ex, "Mult", mul)

    def s_cmp(self, ex):
        F, P, g = extfield(ex)
        x, a = element(ex, F, g, "a")
        for nm, v, w in self.operands(ex):
            for side, l, m in (("left", x, v), ("right", v, x)):
                ex.oblige("ensures:eq.%s.%s" % (nm, side), Iff(prop_of(ex.truth(seqops.obj_eq(ex, "__eq__", l, m))), eq(a, w)))
                ex.oblige("ensures:ne.%s.%s" % (nm, side), Iff(prop_of(ex.truth(seqops.obj_eq(ex, "__ne__", l, m))), ne(a, w)))

    def s_unsupported(self, ex):
        F, P, g = extfield(ex)
        x, a = element(ex, F, g, "a")
        ex.add_fact("req", ne(a, T(0, PLY)))
        unsupported(ex, x, [None])


class C06(Property):
    id = "C06"
    contracts = (MixPrime, MixPoly, MixFq)
    uses = (Gcd, Egcd, Strip)
    lib = ("Pv.Quot", "Pv.Prime", "Pv.Mix")

    def setup(self, w):
        hooks(w)


PROPERTY = C06()
