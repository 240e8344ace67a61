"""Fields built by the real factories, over sealed parts."""
from ..contract import *
from ..sorts import *
from .c01 import identity_memoize
from .c03 import Egcd


def hooks(w):
    w.call_hooks["starks.numbertype:memoize"] = identity_memoize
    w.call_hooks["starks.modp:IntegersModP"] = lambda ex, f, a, k: getattr(ex, "sealedK", NotImplemented)
    w.call_hooks["starks.polynomial:polynomials_over"] = lambda ex, f, a, k: getattr(ex, "sealedP", NotImplemented)
    w.call_hooks["starks.poly_utils:is_irreducible"] = lambda ex, f, a, k: True if getattr(ex, "irreducible", None) is not None else NotImplemented


def extfield(ex):
    """The real class FiniteField(p, m, g) for a symbolic prime p, m >= 2 and an
    irreducible g of degree m; Z/p is the sealed field K, Z/p[x] the sealed ring."""
    p, m = ex.fresh("p", ("s", INT)), ex.fresh("m", ("s", INT))
    ex.add_fact("req", lt(1, p))
    ex.add_fact("req", le(2, m))
    P = sealed_polyclass(ex)
    g = ex.fresh("g", ("s", PLY))
    ex.add_fact("req", app("Irreducible", PROP, g))
    ex.add_fact("req", eq(plen(g), m + 1))
    ex.add_fact("req", ne(g, T(0, PLY)))
    ex.add_fact("req", lt(1, plen(g)))
    ex.sealedK, ex.sealedP, ex.irreducible = FLD.cls, P, g
    F = ex.call(ex.module_name("starks.finitefield", "FiniteField"), [p, m], {"polynomialModulus": g})
    return F, P, g


def element(ex, F, g, name):
    """Any element: an instance holding a residue of degree below deg g."""
    o = ex.call(F, [0])
    a = ex.fresh(name, ("s", PLY))
    ex.add_fact("inv", lt(plen(a), plen(g)))
    ex.heap[o.addr]["poly"] = a
    return o, a


def prem(a, g):
    return app("prem", PLY, a, g)


def is_element(ex, label, r, F, g, want):
    if not (isinstance(r, Ref) and r.typ == "obj" and ex.heap[r.addr]["$class"] is F):
        ex.oblige("ensures:%s.type" % label, FALSE)
        return
    v = PLY.cls.seal.conv(ex, ex.heap[r.addr]["poly"])
    if v is None:
        ex.oblige("ensures:%s.poly" % label, FALSE)
        return
    ex.oblige("ensures:%s.reduced" % label, lt(plen(v), plen(g)))
    ex.oblige("ensures:%s.value" % label, eq(v, want))
