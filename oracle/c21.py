"""Affine spaces, their enumeration and vanishing polynomials."""
import contextlib
import io
import itertools
from collections import Counter
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.finitefield import FiniteField
from starks.reedsolomon import AffineSpace
from starks.poly_utils import construct_affine_vanishing_polynomial
from ref import *

MODS = [(2, [1, 1, 1]), (2, [1, 1, 0, 1]), (3, [1, 0, 1]), (3, [1, 2, 0, 1]), (5, [2, 0, 1]), (2, [1, 1, 0, 0, 1])]


def run(t):
    rng = t.rng

    def vec(x):
        """coefficients of a scalar, a polynomial or an extension element"""
        if isinstance(x, int):
            return tuple(pnorm([x], 10 ** 9))
        if hasattr(x, "poly"):
            x = x.poly
        if hasattr(x, "coefficients"):
            return tuple(pnorm([int(c.n) for c in x.coefficients], 10 ** 9))
        return tuple(pnorm([int(x.n)], 10 ** 9))

    def wanted(p, basis, shift):
        out = Counter()
        for s in itertools.product(range(p), repeat=len(basis)):
            v = list(shift)
            for c, b in zip(s, basis):
                v = padd(v, [c * x for x in b], p)
            out[tuple(pnorm(v, p))] += 1
        return out

    def make(p, mod, kind, basis, shift):
        Z = IntegersModP(p)
        P = polynomials_over(Z)
        if kind == "scalar":
            el = lambda c: Z(c[0] if c else 0)
        elif kind == "polynomial":
            el = lambda c: P(list(c))
        else:
            F = FiniteField(p, len(mod) - 1, polynomialModulus=P(mod))
            el = lambda c: F(P(list(c)))
        bs = [el(b) for b in basis]
        return Z, P, bs, (AffineSpace(Z, bs) if shift is None else AffineSpace(Z, bs, el(shift)))

    def enum(p, mod, kind, basis, shift):
        def f():
            Z, P, bs, A = make(p, mod, kind, basis, shift)
            keep = [vec(b) for b in bs]
            got = Counter(vec(x) for x in A)
            want = wanted(p, basis, shift or ())
            if got != want:
                return "the elements are %r, not %r" % (sorted(got.items())[:20], sorted(want.items())[:20])
            if len(A) != p ** len(basis):
                return "the length is %r" % len(A)
            if Counter(vec(x) for x in A) != want or [vec(b) for b in A.basis] != keep:
                return "iterating again gives something else"
            for x, y in itertools.islice(itertools.product(A, A), 1):
                pass
            return True
        t.case("iterate", (p, mod if kind == "extension" else None, kind, basis, shift), f)

    def vanishing(p, mod, kind, basis, shift):
        def f():
            Z, P, bs, A = make(p, mod, kind, basis, shift)
            F = Z if kind == "scalar" else FiniteField(p, len(mod) - 1, polynomialModulus=P(mod))
            with contextlib.redirect_stdout(io.StringIO()):
                V = construct_affine_vanishing_polynomial(F, A)
            want = wanted(p, basis, shift or ())
            roots = Counter()
            for v, n in want.items():
                roots[v if kind == "scalar" else tuple(prem(list(v), mod, p))] += n
            if V.degree() != p ** len(basis) or V.coefficients[-1] != F(1):
                return "degree %r, leading coefficient %r" % (V.degree(), V.coefficients[-1])
            # every element of the field, against the root set
            els = range(p) if kind == "scalar" else itertools.product(range(p), repeat=len(mod) - 1)
            for e in els:
                x = Z(e) if kind == "scalar" else F(P(list(e)))
                z = V(x) == F(0)
                w = roots[vec(x)] > 0
                if z != w:
                    return "%s at %r, which is %sin the space" % ("zero" if z else "not zero", vec(x), "" if w else "not ")
            # multiplicities: dividing by x - a for each element leaves 1
            X = polynomials_over(F)
            rest = V
            for v, n in roots.items():
                a = F(v[0] if v else 0) if kind == "scalar" else F(P(list(v)))
                for _ in range(n):
                    q, r = divmod(rest, X([-a, F(1)]))
                    if r != X([F(0)]):
                        return "%r has too small a multiplicity" % (v,)
                    rest = q
            return rest == X([F(1)]) or "other factors remain"
        t.case("vanishing", (p, mod, kind, basis, shift), f)

    def residues(p):
        t.case("residues", p, lambda: [int(x.n) for x in IntegersModP(p).__iter__()] == list(range(p)) or "wrong elements")

    for p in (2, 3, 5, 7, 13):
        residues(p)
    for _ in t.rounds(0.9, 60, 6000):
        p, mod = rng.choice(MODS)
        m = len(mod) - 1
        kind = rng.choice(["scalar", "polynomial", "extension"])
        d = rng.randint(0, 3 if p == 2 else 2)
        if kind == "extension" and d == 0:
            d = 1
        size = 1 if kind == "scalar" else m if kind == "extension" else m + rng.randint(0, 2)
        v = lambda: tuple(pnorm([rng.randrange(p) for _ in range(size)], p))
        basis = [v() for _ in range(d)]
        shift = v() if rng.random() < 0.7 else None
        enum(p, mod, kind, basis, shift)
        if p ** (d + m) <= 600:
            vanishing(p, mod, kind, basis, shift)
