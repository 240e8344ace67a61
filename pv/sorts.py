"""Sealed abstract values: classes used only through their contracts."""
from .values import *
from .exec import *
from . import seqops
from .seqops import NOTIMPL, isint, asint, SymFunc


class Seal:
    """Default seal: every operation unsupported."""
    precedence = 1
    sort = None

    def construct(self, ex, args, kwargs):
        raise Unsupported("construction of %s" % self.sort)

    def class_attr(self, ex, name):
        return NotImplemented

    def getattr(self, ex, v, name):
        return NotImplemented

    def binop(self, ex, op, a, b):
        return NotImplemented

    def eq(self, ex, a, b):
        return NotImplemented

    def neg(self, ex, v):
        raise Unsupported("negation of %s" % self.sort)

    def truth(self, ex, v):
        return True

    def convert(self, ex, name, v):
        raise Unsupported("%s of %s" % (name, self.sort))

    def to_int(self, ex, v):
        return NotImplemented

    def call_instance(self, ex, f, args):
        raise Unsupported("call of %s" % self.sort)


def sealed_class(name, seal, lean, ring=True, bases=(), attrs=None, qual=None):
    cls = ClassVal(name, list(bases), dict(attrs or {}), qual or name)
    cls.seal = seal
    s = Sort(name, lean, ring=ring, cls=cls)
    seal.sort = s
    seal.cls = cls
    return s


# --------------------------------------------------- Euclidean values (E) ----
class EuclidSeal(Seal):
    """Any number type with ring operations, a valuation abs() and divmod:
    abs >= 0, abs(x) = 0 only for x = 0, divmod(a,b) = (q,r) with a = q*b + r and
    abs(r) < abs(b) whenever abs(b) > 0."""

    def conv(self, v):
        if isinstance(v, Mix):
            return v.term
        if isint(v):
            v = asint(v)
            return cast(T(v), self.sort)
        if isinstance(v, Term) and v.sort is self.sort:
            return v
        return None

    def binop(self, ex, op, a, b):
        x, y = self.conv(a), self.conv(b)
        if x is None or y is None:
            return NotImplemented
        if op == "Add":
            return add(x, y)
        if op == "Sub":
            return sub(x, y)
        if op == "Mult":
            return mul(x, y)
        if op in ("DivMod", "FloorDiv", "Mod"):
            ex.safe("zerodiv", lt(0, self.val(y)))
            q = app("equo", self.sort, x, y)
            r = app("erem", self.sort, x, y)
            ex.add_fact("div", eq(x, add(mul(q, y), r)))
            ex.add_fact("div", lt(self.val(r), self.val(y)))
            return (q, r) if op == "DivMod" else q if op == "FloorDiv" else r
        return NotImplemented

    def val(self, x):
        return app("val", INT, x)

    def neg(self, ex, v):
        return neg(v)

    def eq(self, ex, a, b):
        x, y = self.conv(a), self.conv(b)
        if x is None or y is None:
            return NotImplemented
        return eq(x, y)

    def getattr(self, ex, v, name):
        if name == "__abs__":
            def f(ex, args, kw):
                t = self.val(v)
                ex.add_fact("val", le(0, t))
                ex.add_fact("val", Imp(eq(t, 0), eq(v, T(0, self.sort))))
                return t
            return SymFunc(name, f)
        return NotImplemented


EUC = sealed_class("E", EuclidSeal(), "EucT")
EUC_CTX = "{EucT : Type} [CommRing EucT] (val : EucT → Int) (equo erem : EucT → EucT → EucT)"


# -------------------------------------------------- abstract rings, fields ---
class RingSeal(Seal):
    """A commutative ring with the contract of DomainElement: + - * == are the
    ring's, integers convert by the canonical map, ** is iterated product."""
    field = False
    parent = None            # class whose (verified) methods it inherits

    def conv(self, ex, v):
        if isinstance(v, Mix):
            return v.term if v.term.sort is self.sort else None
        if isint(v):
            return cast(T(asint(v)), self.sort)
        if isinstance(v, Term) and v.sort is self.sort:
            return v
        return None

    def construct(self, ex, args, kwargs):
        if len(args) == 1 and not kwargs:
            x = self.conv(ex, args[0])
            if x is not None:
                return x
            if args[0] is None:
                raise PyRaise("TypeError", None, ex.where)
            if isinstance(args[0], bytes) or isinstance(args[0], Term) and args[0].sort is BYTES:
                return app("dec", self.sort, as_term(args[0], BYTES))
        raise Unsupported("construction of %s from %r" % (self.sort, args))

    def class_attr(self, ex, name):
        if name == "operatorPrecedence":
            return self.precedence
        if name == "__name__":
            return self.sort.name
        return NotImplemented

    def getattr(self, ex, v, name):
        if name == "__class__":
            return self.cls
        if name == "field":
            return self.cls
        r = self.class_attr(ex, name)
        if r is not NotImplemented:
            return r
        if name == "inverse" and self.field:
            def f(ex, args, kw):
                ex.safe("inverse-of-zero", ne(v, T(0, self.sort)))
                return app("Inv.inv", self.sort, v)
            return SymFunc(name, f)
        if name == "to_bytes":
            return SymFunc(name, lambda ex, a, k: app("enc", BYTES, v))
        if name in ("__add__", "__sub__", "__mul__", "__truediv__", "__mod__", "__divmod__", "__pow__"):
            op = [k for k, n in seqops.OPNAMES.items() if n == name][0]
            return SymFunc(name, lambda ex, a, kw: seqops.binop(ex, op, v, a[0]))
        return NotImplemented

    def other(self, ex, op, x, y):
        return NotImplemented

    def binop(self, ex, op, a, b):
        if op == "Pow":
            x = self.conv(ex, a)
            if x is None or not isint(b):
                raise PyRaise("TypeError", None, ex.where)
            ex.safe("negative-exponent", le(0, T(asint(b))))
            return pow_(x, asint(b)) if isinstance(asint(b), int) else app("ipow", self.sort, x, T(b))
        x, y = self.conv(ex, a), self.conv(ex, b)
        if x is None or y is None:
            return NotImplemented
        if op == "Add":
            return add(x, y)
        if op == "Sub":
            return sub(x, y)
        if op == "Mult":
            return mul(x, y)
        if op == "Div" and self.field:
            ex.safe("division-by-zero", ne(y, T(0, self.sort)))
            return div(x, y)
        return self.other(ex, op, x, y)

    def neg(self, ex, v):
        return neg(self.conv(ex, v))

    def eq(self, ex, a, b):
        x, y = self.conv(ex, a), self.conv(ex, b)
        if x is None or y is None:
            return NotImplemented
        return eq(x, y)


class FieldSeal(RingSeal):
    """... of a field; ex.field_prime, when set, is its prime (class attribute p)."""
    field = True

    def class_attr(self, ex, name):
        if name == "p" and getattr(ex, "field_prime", None) is not None:
            return ex.field_prime
        if name == "m" and getattr(ex, "field_m", None) is not None:
            return ex.field_m
        if name == "field_size" and getattr(ex, "field_size", None) is not None:
            return ex.field_size
        if name == "__name__" and getattr(ex, "field_name", None) is not None:
            return ex.field_name
        if name == "__iter__" and getattr(ex, "field_iter", None) is not None:
            return SymFunc(name, lambda ex, a, k: ex.field_iter(ex))
        return RingSeal.class_attr(self, ex, name)


# byte encodings of the sealed field and polynomial ring (proved for the real classes in C16)
CODE = " (enc : FldT → Bytes) (dec : Bytes → FldT) (enc_len : ∀ x, blen (enc x) = 32) (dec_enc : ∀ x, dec (enc x) = x)"
PCODE = " (penc : Polynomial FldT → Bytes) (pdec : Bytes → Polynomial FldT) (penc_len : ∀ f, blen (penc f) % 32 = 0) (pdec_penc : ∀ f, pdec (penc f) = f)"
RNG = sealed_class("R", RingSeal(), "RngT")
RNG_CTX = "{RngT : Type} [CommRing RngT]"
FLD = sealed_class("K", FieldSeal(), "FldT")
FLD_CTX = "{FldT : Type} [Field FldT]"


# ------------------------------------------------------- polynomials over K --
def pof(n, get, ps=None):
    """The polynomial of a coefficient list (n, get)."""
    ps = ps or PLY
    k = ps.cls.seal.ring
    return app("pof", ps, T(n), Lam(lambda i: as_term(get(i), k)) if not is_lit(T(n), 0) else Lam(lambda i: T(0, k)))


def pof_seq(s, ps=None):
    return pof(s.n, s.get, ps)


def plen(p):
    return app("plen", INT, p)


def pc(p, i, k=None):
    return app("pc", k or p.sort.cls.seal.ring, p, T(i))


class PolySeal(Seal):
    """Contract of starks.polynomial.Polynomial over a field (proved in C04 and C05)."""
    precedence = 2

    def __init__(self, ring):
        self.ring = ring

    def conv(self, ex, v):
        if isinstance(v, Mix):
            v = v.term
        if isint(v):
            return cast(T(asint(v)), self.sort)
        if isinstance(v, Term) and v.sort is self.sort:
            return v
        if isinstance(v, Term) and v.sort is self.ring:
            return app("Polynomial.C", self.sort, v)
        return None

    def coef(self, ex, v):
        v = self.ring.cls.seal.construct(ex, [v], {})
        return v

    def construct(self, ex, args, kwargs):
        if len(args) != 1 or kwargs:
            raise Unsupported("construction of a polynomial from %r" % (args,))
        v = args[0]
        x = self.conv(ex, v)
        if x is not None:
            return x
        s = None
        if isinstance(v, (tuple, Seq)) or isinstance(v, Ref) and v.typ == "list":
            s = ex.seq(v)
        if s is None:
            r = self.construct_other(ex, v)
            if r is not NotImplemented:
                return r
            raise PyRaise("TypeError", None, ex.where)
        if is_lit(T(s.n), 0):
            return T(0, self.sort)
        if is_lit(T(s.n), 1):
            c = T(self.coef(ex, s.get(0)))
            return T(0, self.sort) if is_lit(c, 0) else app("Polynomial.C", self.sort, c)
        m = ex.map_seq(s, lambda c: self.coef(ex, c))
        return pof_seq(m, self.sort)

    def construct_other(self, ex, v):
        if isinstance(v, bytes) or isinstance(v, Term) and v.sort is BYTES:
            b = as_term(v, BYTES)
            ex.safe("byte-length", eq(fmod(app("blen", INT, b), 32), 0))
            return app("pdec", self.sort, b)
        return NotImplemented

    def class_attr(self, ex, name):
        if name == "ring":
            return self.ring.cls
        if name == "operatorPrecedence":
            return 2
        if name in ("__iter__", "iter"):
            return SymFunc(name, lambda ex, a, k: self.coeffs(ex, a[0]))
        return NotImplemented

    def coeffs(self, ex, v):
        return Seq(None, plen(v), lambda i: pc(v, i), ("s", self.ring))

    def getattr(self, ex, v, name):
        S = lambda f: SymFunc(name, lambda ex, a, k: f(*a))
        if name == "__class__":
            return self.cls
        if name == "ring":
            return self.ring.cls
        if name == "to_bytes":
            return SymFunc(name, lambda ex, a, k: app("penc", BYTES, v))
        if name == "coefficients":
            return ex.alloc(self.coeffs(ex, v), "list")
        if name == "operatorPrecedence":
            return 2
        if name == "degree":
            return S(lambda: plen(v) - 1)
        if name in ("__len__", "__abs__"):
            return S(lambda: plen(v))
        if name == "is_zero":
            return S(lambda: eq(v, T(0, self.sort)))
        if name == "leading_coefficient":
            def f():
                ex.safe("leading-coefficient", lt(0, plen(v)))
                return pc(v, plen(v) - 1)
            return S(f)
        if name in ("__iter__", "iter"):
            return S(lambda: self.coeffs(ex, v))
        if name == "powmod":
            def f(n, m):
                n = T(asint(n))
                ex.safe("negative-exponent", le(0, n))
                m = self.conv(ex, m)
                r = ex.fresh("powmod", ("s", self.sort))
                x = app("ipow", self.sort, v, n)
                ex.add_fact("powmod", app("Dvd.dvd", PROP, m, sub(r, x)))
                ex.add_fact("powmod", Imp(And(le(2, n), ne(m, T(0, self.sort))), lt(plen(r), plen(m))))
                return r
            return S(f)
        r = self.getattr_other(ex, v, name)
        return r

    def getattr_other(self, ex, v, name):
        return NotImplemented

    def binop(self, ex, op, a, b):
        if getattr(ex, "loose_eval", False):
            element = lambda v: isint(v) or isinstance(v, (Mix, Term)) and (isinstance(v, Mix) or v.sort is self.ring)
            if op in ("Div", "Mod", "DivMod", "Pow") and isinstance(a, Mix):
                ex.safe("operand-may-be-an-element", FALSE)
            r = self.arith(ex, op, a, b)
            return Mix(r) if element(a) and element(b) and isinstance(r, Term) else r
        return self.arith(ex, op, a, b)

    def arith(self, ex, op, a, b):
        if op == "Pow":
            x = self.conv(ex, a)
            if x is None or not isint(b):
                raise PyRaise("TypeError", None, ex.where)
            ex.safe("negative-exponent", le(0, T(asint(b))))
            return pow_(x, asint(b)) if isinstance(asint(b), int) else app("ipow", self.sort, x, T(b))
        x, y = self.conv(ex, a), self.conv(ex, b)
        if x is None or y is None:
            return NotImplemented
        if op == "Add":
            return add(x, y)
        if op == "Sub":
            return sub(x, y)
        if op == "Mult":
            return mul(x, y)
        if op in ("Div", "Mod", "DivMod"):
            if ex.nofork:
                ex.safe("division-by-zero", ne(y, T(0, self.sort)))
            elif ex.decide(eq(y, T(0, self.sort))):
                raise PyRaise("ZeroDivisionError", None, ex.where)
            q, r = app("pquo", self.sort, x, y), app("prem", self.sort, x, y)
            return (q, r) if op == "DivMod" else q if op == "Div" else r
        return NotImplemented

    def neg(self, ex, v):
        return neg(self.conv(ex, v))

    def eq(self, ex, a, b):
        x, y = self.conv(ex, a), self.conv(ex, b)
        if x is None or y is None:
            return NotImplemented
        return eq(x, y)

    def call_instance(self, ex, f, args):
        x = args[0]
        if isinstance(x, Mix):
            x = x.term
        if isint(x):
            x = cast(T(asint(x)), self.ring)
        if isinstance(x, Term) and x.sort is self.ring:
            return app("Polynomial.eval", self.ring, x, f)
        if isinstance(x, Term) and x.sort is self.sort:
            r = app("Polynomial.comp", self.sort, f, x)
            # (the real method gives a field element when f is constant)
            return Mix(r) if getattr(ex, "loose_eval", False) else r
        raise Unsupported("evaluation of a polynomial at %r" % (x,))


PLY = sealed_class("Polynomial", PolySeal(FLD), "(Polynomial FldT)")


def real_polyclass(ex, ps=None):
    """The real class, built by the real factory over an arbitrary field."""
    return ex.call(ex.module_name("starks.polynomial", "polynomials_over"), [(ps or PLY).cls.seal.ring.cls])


def sealed_polyclass(ex, ps=None):
    """The real class, its instances abstracted by the contract of PolySeal."""
    ps = ps or PLY
    P = real_polyclass(ex, ps)
    P.seal = ps.seal0 if hasattr(ps, "seal0") else ps.cls.seal
    P.seal.cls = P
    ps.cls = P
    return P
