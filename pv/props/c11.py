"""C11: conversions between univariate, multivariate and functional forms."""
from ..check import Property
from ..contract import *
from ..sorts import *
from ..values import *
from .fields import hooks
from .mvfields import *
from .c19 import GenX, xvar, STATE

MOD = "starks.poly_utils:"
MONI = sealed_mons("MonI", lambda ex: T(ex.width))
MVI = sealed_class("MvI", MvSeal(MONI), "(MvPolynomial ℕ FldT)")


class OverSeal(PolySeal):
    """polynomials whose coefficients are multivariate polynomials: what
    projection needs of starks.polynomial over any commutative ring"""

    def construct(self, ex, args, kwargs):
        if len(args) == 1 and not kwargs:
            x = self.conv(ex, args[0])
            if x is not None:
                return x
            s = ex.seq(args[0])
            if s.items is not None:
                r = T(0, self.sort)
                for i, c in enumerate(s.items):
                    c = self.ring.cls.seal.construct(ex, [c], {})
                    if is_lit(c, 0):
                        continue
                    t = app("Polynomial.C", self.sort, c)
                    if i:
                        x = app("Polynomial.X", self.sort)
                        x = x if i == 1 else pow_(x, i)
                        t = x if is_lit(c, 1) else mul(t, x)
                    r = t if is_lit(r, 0) else add(r, t)
                return r
        raise Unsupported("construction of a polynomial over multivariate polynomials")

    def class_attr(self, ex, name):
        if name == "factory":
            return SymFunc(name, lambda ex, a, k: self.construct(ex, a, k))
        return PolySeal.class_attr(self, ex, name)


OVER = sealed_class("PolyOverMv", OverSeal(MVP), "(Polynomial (MvPolynomial ℕ FldT))")


def ring(ex, n):
    ex.num_vars, ex.sealedM = n, MVP.cls


def ev(x, f):
    return app("Polynomial.eval", FLD, x, f)


def point(ex, w, name="v"):
    v = ex.fresh(name, STATE)
    ex.add_fact("req", eq(T(v.n), w))
    return v


class Variables(Scenarios):
    """the i-th index polynomial evaluates to coordinate i"""
    qual = "starks.utils:generate_Xi_s"
    name = "values of the variables"
    lean_ctx = FLD_CTX
    hints = {"*": "!intro i hi; rw [h_post_1 i (by omega)]; exact mval_xvar hi.1 _"}

    def s_values(self, ex):
        w = ex.fresh("width", ("s", INT))
        ring(ex, w)
        ex.add_fact("req", le(0, w))
        r = freeze_deep(ex, ex.call(ex.get_function(self.qual), [FLD.cls, w]))
        v = point(ex, w)
        ex.oblige("ensures:coordinates", Forall_range(0, w, lambda i: eq(mval(r.get(i), v), as_term(v.get(i), FLD))))


class Lift(Contract):
    """the original's value at coordinate i"""
    qual = MOD + "make_multivar"
    lean_ctx = FLD_CTX
    hints = {"*": "mv_lift"}

    def instances(self, ex):
        def any_(ex):
            p, i, w = ex.fresh("p", ("s", PLY)), ex.fresh("i", ("s", INT)), ex.fresh("width", ("s", INT))
            ring(ex, w)
            ex.ghost_v = point(ex, w)
            return [p, i, FLD.cls, w]
        return {"any": any_}

    def requires(self, ex, p, i, f, w):
        return [("index", And(le(0, T(i)), lt(T(i), T(w))))]

    def ensures(self, ex, r, p, i, f, w):
        v = ex.ghost_v
        if not (isinstance(r, Term) and r.sort is MVP):
            return [("a-polynomial", FALSE)]
        return [("value", eq(mval(r, v), ev(as_term(v.get(i), FLD), p)))]

    loops = [LoopSpec(kind="for", force=True, roles={"out": ("up_poly", ("s", MVP))},
                      inv=lambda s: [("terms-so-far", eq(mval(as_term(s.out, MVP), s.ex.ghost_v),
                                                          app("isum", FLD, s.k, Lam(lambda d: mul(pc(s.args[0], d), app("ipow", FLD, as_term(s.ex.ghost_v.get(s.args[1]), FLD), d))))))])]


class Delta(Contract):
    """1 at the point, 0 at every other point"""
    qual = MOD + "construct_multivariate_dirac_delta"
    lean_ctx = FLD_CTX
    hints = {"*": "mv_delta"}

    def instances(self, ex):
        def any_(ex):
            n = ex.fresh("n", ("s", INT))
            y = ex.fresh("y", STATE)
            ring(ex, n)
            ex.field_size = ex.fresh("q", ("s", INT))
            ex.ghost_v = point(ex, n)
            return [FLD.cls, ex.alloc(y, "list"), n]
        return {"any": any_}

    def requires(self, ex, f, y, n):
        return [("coordinates", eq(T(y.n), T(n))), ("space", le(1, T(n))), ("size", app("fsize", PROP, T(0, FLD), ex.field_size))]

    def value(self, ex, f, y, n):
        return app("mdelta", MVP, T(n), ex.field_size, Lam(lambda i: as_term(y.get(i), FLD)))

    def ensures(self, ex, r, f, y, n):
        v = ex.ghost_v
        r = MVP.cls.seal.conv(ex, r)
        differ = Exists(lambda i: And(le(0, i), And(lt(i, T(n)), ne(as_term(v.get(i), FLD), as_term(y.get(i), FLD)))))
        return [("value", eq(r, self.value(ex, f, y, n))),
                ("one-at-the-point", eq(mval(r, y), T(1, FLD))),
                ("zero-elsewhere", Imp(differ, eq(mval(r, v), T(0, FLD))))]

    loops = [LoopSpec(kind="for", force=True, roles={"base": ("base", ("mix", MVP))},
                      inv=lambda s: [("product", eq(MVP.cls.seal.conv(s.ex, s.base), app("mdelta", MVP, s.k, s.ex.field_size, Lam(lambda i: as_term(s.args[1].get(i), FLD)))))])]


class Interpolate(Contract):
    """over a prime field, in one variable: the function's value at every element"""
    qual = MOD + "construct_multivariate_coefficients"
    lean_ctx = FLD_CTX
    hints = {"*": "mv_interp"}

    def instances(self, ex):
        def prime(ex):
            ring(ex, 1)
            p = ex.field_prime = ex.field_size = ex.fresh("p", ("s", INT))
            ex.field_name = "Z/p"
            ex.ghost_f = f = var("f", FnSort([FLD], FLD))
            ex.ghost_x = ex.fresh("x", ("s", FLD))

            def step(ex, a, k):
                s = ex.seq(a[0])
                ex.safe("one-coordinate", eq(T(s.n), 1))
                return apply(f, as_term(s.get(0), FLD))
            return [FLD.cls, SymFunc("step_fn", step), 1]
        return {"prime": prime}

    def requires(self, ex, f, step, n):
        p = ex.field_prime
        return [("prime", And(app("Prime", PROP, p), lt(1, p))), ("size", app("fsize", PROP, T(0, FLD), p)), ("characteristic", eq(cast(p, FLD), T(0, FLD)))]

    @staticmethod
    def at(ex, p):
        return app("mval", FLD, p, Lam(lambda i: ex.ghost_x))

    @staticmethod
    def partial(ex, k):
        p = ex.field_prime
        return app("isum", FLD, k, Lam(lambda j: mul(apply(ex.ghost_f, cast(j, FLD)), Interpolate.at(ex, app("mdelta", MVP, T(1), p, Lam(lambda i: cast(j, FLD)))))))

    def ensures(self, ex, r, *a):
        if not (isinstance(r, Term) and r.sort is MVP):
            return [("a-polynomial", FALSE)]
        return [("value", eq(self.at(ex, r), apply(ex.ghost_f, ex.ghost_x)))]

    loops = [LoopSpec(kind="for", force=True, roles={"poly": ("poly", ("s", MVP))},
                      inv=lambda s: [("terms-so-far", eq(Interpolate.at(s.ex, as_term(s.poly, MVP)), Interpolate.partial(s.ex, s.k)))])]


def key(s, j):
    x = s.it.get(j)
    while isinstance(x, tuple) and not (isinstance(x[0], Term) and x[0].sort is MONI):
        x = x[1]
    return x[0], as_term(x[1], FLD)


class Project(Contract):
    """the coefficient of every monomial is kept, under its exponents but the i-th"""
    qual = MOD + "project_to_univariate"
    lean_ctx = FLD_CTX
    hints = {"*": "mv_project"}

    def instances(self, ex):
        def any_(ex):
            p, i, w = ex.fresh("p", ("s", MVI)), ex.fresh("i", ("s", INT)), ex.fresh("width", ("s", INT))
            ex.add_fact("inv", app("mvars", PROP, w, p))
            ex.width = w
            ring(ex, sub(w, 1))
            ex.sealedP = OVER.cls
            return [p, i, FLD.cls, w]
        return {"any": any_}

    def requires(self, ex, p, i, f, w):
        return [("index", And(le(0, T(i)), lt(T(i), T(w))))]

    def ensures(self, ex, r, p, i, f, w):
        if not (isinstance(r, Term) and r.sort is OVER):
            return [("a-polynomial", FALSE)]
        at = lambda d: app("ucoef", MVP, r, d)
        return [("regrouped", Forall_range(0, var("top", INT), lambda d: Forall(lambda m: Imp(app("mlen", PROP, sub(w, 1), m), eq(mcoef(at(d), m), mcoef(p, app("minsert", MON, w, i, d, m)))), MON))),
                ("remaining-variables", Forall_range(0, var("top", INT), lambda d: app("mvars", PROP, sub(w, 1), at(d))))]

    @staticmethod
    def term(s, j):
        m, c = key(s, j)
        w, i = s.args[3], s.args[1]
        return app("mproj", OVER, T(w), T(i), m, c)

    loops = [LoopSpec(kind="for", force=True, roles={"out": ("out", ("s", OVER))},
                      inv=lambda s: [("terms-so-far", eq(as_term(s.out, OVER), app("isum", OVER, s.k, Lam(lambda j: Project.term(s, j)))))])]


def product(ex, a, k):
    """of one iterable: its elements, each in a tuple of its own"""
    if len(a) != 1 or k or isinstance(a[0], StarArg):
        raise Unsupported("itertools.product of %d iterables" % len(a))
    s = ex.seq(a[0])
    return Seq(None, s.n, lambda i: (s.get(i),), ("tuple", (s.kind,)))


class C11(Property):
    id = "C11"
    contracts = (GenX, Variables, Lift, Project, Delta, Interpolate)
    lib = ("Pv.Conv",)
    theorems = ("mval_xvar", "mdelta_self", "mdelta_other", "interp_all", "project_coef")
    assumptions = ("multivariate polynomials are those of C10, polynomials over them those of C04 (whose argument uses only ring operations)",
                   "a finite field of size q has exactly q elements; the prime field of p elements has characteristic p",
                   "an integer coefficient 1 in the delta polynomial stands for the field's one (compared by the executions)")

    def setup(self, w):
        hooks(w)
        mvhooks(w)
        w.externals["itertools:product"] = Builtin("product", product)


PROPERTY = C11()
