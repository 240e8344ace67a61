"""Multivariate polynomials: keys, dictionaries, and the sealed ring."""
from ..contract import *
from ..sorts import *
from .. import seqops
from ..seqops import SymDict, SymFunc
from ..maps import *


def nvars(ex):
    return T(ex.num_vars)


MV = ("starks.multivariate_polynomial", "multivariates_over")


def mexp(m, i):
    return app("mexp", INT, m, T(i))


class MonSeal(Seal):
    """A tuple of as many non-negative exponents as there are variables."""

    def __init__(self, count=nvars):
        self.count = count

    def exps(self, ex, v):
        return Seq(None, self.count(ex), lambda i: mexp(v, i), ("s", INT))

    def conv(self, ex, v):
        if isinstance(v, Term) and v.sort is self.sort:
            return v
        if isinstance(v, (tuple, Seq)):
            s = ex.seq(v)
            n = self.count(ex)
            ex.safe("monomial-length", eq(T(s.n), n))
            ex.safe("monomial-nonneg", Forall_range(0, n, lambda i: le(0, as_term(s.get(i), INT))))
            return app("monof", self.sort, n, Lam(lambda i: as_term(s.get(i), INT)))
        return None

    def getattr(self, ex, v, name):
        if name == "__len__":
            return SymFunc(name, lambda ex, a, k: self.count(ex))
        if name == "__getitem__":
            return SymFunc(name, lambda ex, a, k: seqops.index_value(ex, self.exps(ex, v), a[0]))
        if name == "__iter__":
            return SymFunc(name, lambda ex, a, k: self.exps(ex, v))
        return NotImplemented

    def convert(self, ex, name, v):
        if name in ("tuple", "list"):
            s = self.exps(ex, v)
            return s if name == "tuple" else ex.alloc(s, "list")
        return Seal.convert(self, ex, name, v)

    def slice(self, ex, v, lo, hi, st):
        return seqops.slice_value(ex, self.exps(ex, v), lo, hi, st)

    def eq(self, ex, a, b):
        x, y = self.conv(ex, a), self.conv(ex, b)
        return NotImplemented if x is None or y is None else eq(x, y)


def sealed_mons(name, count=nvars):
    s = sealed_class(name, MonSeal(count), "Mon", ring=False)
    s.cls.seal.conv2 = lambda ex, k: s.cls.seal.conv(ex, k)
    return s


MON = sealed_mons("Mon")


def mcoef(p, m):
    return app("mcoef", FLD, p, m)


def entry(d, q):
    """the coefficient of q in a dictionary, 0 when it has none"""
    if not isinstance(d, SymDict):
        return T(0, FLD) if not d.items else None
    return ite(T(d.dom(q)), as_term(d.val(q), FLD), T(0, FLD))


def coeffs(p, mon=None):
    mon = mon or MON
    d = SymDict(lambda q: ne(mcoef(p, q), T(0, FLD)), lambda q: mcoef(p, q), mon, ("s", FLD), mon.cls.seal.conv2)
    d.poly = p
    return d


def mmon(m, c, sort=None):
    return app("mmon", sort or MVP, m, c)


class MvSeal(RingSeal):
    """Contract of starks.multivariate_polynomial.MultivariatePolynomial over a
    field (proved in C10)."""
    precedence = 4

    def __init__(self, mon, ring=FLD):
        self.mon, self.ring = mon, ring

    def count(self, ex):
        return self.mon.cls.seal.count(ex)

    def conv(self, ex, v):
        if isinstance(v, Mix):
            v = v.term
        if isint(v):
            return cast(T(asint(v)), self.sort)
        if isinstance(v, Term) and v.sort is self.sort:
            return v
        if isinstance(v, Term) and v.sort is self.ring:
            return app("MvPolynomial.C", self.sort, v)
        return None

    def construct(self, ex, args, kwargs):
        if kwargs and not args and set(kwargs) <= {"c", "coefficients"}:
            args, kwargs = list(kwargs.values()), {}
        if len(args) != 1 or kwargs:
            raise Unsupported("construction of a multivariate polynomial from %r" % (args,))
        v = args[0]
        if isinstance(v, Ref) and v.typ == "dict":
            return self.of_dict(ex, ex.heap[v.addr])
        x = self.conv(ex, v)
        if x is None:
            raise PyRaise("ValueError", None, ex.where)
        return x

    def of_dict(self, ex, d):
        if not isinstance(d, SymDict):
            if d.items:
                raise Unsupported("coefficients with concrete keys")
            return T(0, self.sort)
        if d.ksort is not self.mon:
            raise Unsupported("coefficients with keys of another ring")
        for es in [getattr(d, "entries", None)]:
            if es is None:
                f = Lam(lambda q: entry(d, q), self.mon, "q")
                r = app("mofdict", self.sort, f)
                ex.add_fact("dict", Forall(lambda q: eq(mcoef(r, q), entry(d, q)), self.mon))
                return r
            r = T(0, self.sort)
            for i, (t, v) in enumerate(es):
                for u, _ in es[:i]:
                    ex.safe("distinct-monomials", ne(u, t))
                r = add(r, mmon(t, as_term(v, self.ring), self.sort)) if i else mmon(t, as_term(v, self.ring), self.sort)
            return r

    def class_attr(self, ex, name):
        if name == "ring":
            return self.ring.cls
        if name == "num_vars":
            return self.count(ex)
        if name == "factory":
            return SymFunc(name, lambda ex, a, k: self.construct(ex, a, k))
        if name == "operatorPrecedence":
            return 4
        return NotImplemented

    def items(self, ex, v):
        d = coeffs(v, self.mon)
        ks = enum(ex, d.dom, self.mon)
        return Seq(None, ks.n, lambda i: (ks.get(i), d.val(ks.get(i))), ("tuple", (("s", self.mon), ("s", self.ring))))

    def getattr(self, ex, v, name):
        S = lambda f: SymFunc(name, lambda ex, a, k: f(*a))
        if name == "__class__":
            return self.cls
        if name == "coefficients":
            return ex.alloc(coeffs(v, self.mon), "dict")
        if name == "degree":
            return S(lambda: app("mtotal", INT, v))
        if name == "is_zero":
            return S(lambda: eq(v, T(0, self.sort)))
        if name == "__iter__":
            return S(lambda: self.items(ex, v))
        if name == "__getitem__":
            return S(lambda k: mcoef(v, self.mon.cls.seal.conv(ex, k)))
        if name == "__call__":
            return S(lambda x: self.call_instance(ex, v, [x]))
        if name in ("__add__", "__sub__", "__mul__", "__pow__"):
            op = [k for k, n in seqops.OPNAMES.items() if n == name][0]
            return S(lambda y: self.binop(ex, op, v, y))
        return self.class_attr(ex, name)

    def neg(self, ex, v):
        return neg(self.conv(ex, v))

    def call_instance(self, ex, f, args):
        s = ex.seq(args[0])
        ex.safe("one-value-per-variable", eq(T(s.n), self.count(ex)))
        probe = s.get(var("i?value", INT)) if s.items is None else (s.items[0] if s.items else T(0, FLD))
        if isinstance(probe, Mix):
            probe = probe.term
        k = probe.sort if isinstance(probe, Term) and probe.sort is not INT else FLD
        return app("mval", k, f, Lam(lambda i: as_term(s.get(i), k)))


MVP = sealed_class("MvP", MvSeal(MON), "(MvPolynomial ℕ FldT)")


def mval(p, s, k=None):
    """the value of p at a sequence of elements of sort k"""
    k = k or FLD
    return app("mval", k, p, Lam(lambda i: as_term(s.get(i), k)))


def mvhook(ex, f, a, k):
    """multivariates_over(the field, n) is the sealed ring in ex.num_vars variables"""
    if getattr(ex, "sealedM", None) is None:
        return NotImplemented
    n = a[1] if len(a) > 1 else k["num_vars"]
    ex.safe("ring", TRUE if a[0] is FLD.cls else FALSE)
    ex.safe("number-of-variables", eq(T(n), nvars(ex)))
    return ex.sealedM


def mvhooks(w):
    w.dictkey = (MON, MON.cls.seal.conv2)
    w.call_hooks["starks.multivariate_polynomial:multivariates_over"] = mvhook
