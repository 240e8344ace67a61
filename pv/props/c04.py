"""C04: univariate polynomials."""
from ..check import Property
from ..contract import *
from ..sorts import *
from .c01 import identity_memoize

def canon(s):
    if is_lit(T(s.n), 0):
        return TRUE
    return app("canon", PROP, T(s.n), Lam(lambda i: as_term(s.get(i), FLD)))


polyclass = real_polyclass


def anypoly(ex, P, name):
    """Any polynomial: an instance satisfying the class invariant."""
    o = ex.call(P, [ex.alloc(Seq([]), "list")])
    s = ex.fresh(name, ("seq", ("s", FLD)))
    ex.add_fact("inv", app("canon", PROP, T(s.n), Lam(lambda i: as_term(s.get(i), FLD))))
    ex.heap[o.addr]["coefficients"] = ex.alloc(s, "list")
    return o, s


def coeffs(ex, o):
    return freeze_deep(ex, ex.heap[o.addr]["coefficients"])


def is_poly(ex, label, r, P, want):
    if not (isinstance(r, Ref) and r.typ == "obj" and ex.heap[r.addr]["$class"] is P):
        ex.oblige("ensures:%s.type" % label, FALSE)
        return
    s = coeffs(ex, r)
    ex.oblige("ensures:%s.canonical" % label, canon(s))
    ex.oblige("ensures:%s.value" % label, eq(pof_seq(s), want))


class Strip(Contract):
    """Drop the maximal run of trailing elements equal to elt."""
    qual = "starks.polynomial:strip"
    lean_ctx = FLD_CTX

    def instances(self, ex):
        return {"field list": lambda ex: [ex.alloc(ex.fresh("L", ("seq", ("s", FLD))), "list"), ex.fresh("e", ("s", FLD))]}

    def apply(self, ex, bound, f):
        L, elt = self.order(bound, f)
        L = freeze_deep(ex, L)
        if L.items is not None and not L.items:
            return ex.alloc(L, "list")
        m = ex.fresh("m", ("s", INT))
        r = Seq(None, m, L.get, L.kind)
        for lab, p in self.ensures(ex, r, L, elt):
            ex.add_fact("strip", p)
        return ex.alloc(r, "list")

    def ensures(self, ex, r, L, elt):
        el = lambda i: as_term(L.get(i), FLD)
        if L.items is not None and not L.items:
            return [("len", eq(T(r.n), 0))]
        out = [("len", And(le(0, T(r.n)), le(T(r.n), T(L.n)))),
               ("dropped", Forall_range(T(r.n), T(L.n), lambda i: eq(el(i), as_term(elt, FLD)))),
               ("last", Or(eq(T(r.n), 0), ne(el(T(r.n) - 1), as_term(elt, FLD))))]
        if r.get is not L.get:
            out.append(("kept", Forall_range(0, T(r.n), lambda i: eq(as_term(r.get(i), FLD), el(i)))))
        return out

    loops = [LoopSpec(kind="while", roles={"i": ("i", None)}, force=True,
                      inv=lambda s: [("i", And(le(-1, T(s.i)), lt(T(s.i), T(s.args[0].n)))),
                                     ("tail", Forall(lambda j: Imp(And(lt(T(s.i), j), lt(j, T(s.args[0].n))), eq(s.args[0].get(j), s.args[1]))))],
                      decreases=lambda s: T(s.i) + 1)]


class Poly(Scenarios):
    qual = "starks.polynomial:polynomials_over"
    lean_ctx = FLD_CTX
    hints = {"*": "poly_auto"}

    def one(self, ex):
        P = polyclass(ex)
        p, a = anypoly(ex, P, "a")
        return P, p, a

    def two(self, ex):
        P = polyclass(ex)
        p, a = anypoly(ex, P, "a")
        q, b = anypoly(ex, P, "b")
        return P, p, a, q, b

    def same(self, ex, o, s):
        now = coeffs(ex, o)
        if now is not s:
            for lab, q in equal_props(ex, now, s, "operand-unchanged"):
                ex.oblige("frame:" + lab, q)

    def binary(self, ex, op, want):
        P, p, a, q, b = self.two(ex)
        r = seqops.binop(ex, op, p, q)
        is_poly(ex, op, r, P, want(pof_seq(a), pof_seq(b)))
        self.same(ex, p, a)
        self.same(ex, q, b)

    def s_init(self, ex):
        P = polyclass(ex)
        L = ex.fresh("L", ("seq", ("s", FLD)))
        r = ex.call(P, [ex.alloc(L, "list")])
        is_poly(ex, "list", r, P, pof_seq(L))

    def s_init_ints(self, ex):
        P = polyclass(ex)
        L = ex.fresh("L", ("seq", ("s", INT)))
        r = ex.call(P, [ex.alloc(L, "list")])
        is_poly(ex, "int-list", r, P, pof(L.n, lambda i: cast(L.get(i), FLD)))

    def s_init_scalar(self, ex):
        P = polyclass(ex)
        c = ex.fresh("c", ("s", FLD))
        is_poly(ex, "field-element", ex.call(P, [c]), P, pof(1, lambda i: c))
        n = ex.fresh("n", ("s", INT))
        is_poly(ex, "int", ex.call(P, [n]), P, pof(1, lambda i: cast(n, FLD)))

    def s_init_copy(self, ex):
        P, p, a = self.one(ex)
        is_poly(ex, "copy", ex.call(P, [p]), P, pof_seq(a))
        self.same(ex, p, a)

    def s_zero(self, ex):
        P = polyclass(ex)
        is_poly(ex, "zero", ex.call(P, [ex.alloc(Seq([]), "list")]), P, T(0, PLY))

    def s_add(self, ex):
        self.binary(ex, "Add", add)

    def s_sub(self, ex):
        self.binary(ex, "Sub", sub)

    def s_mul(self, ex):
        self.binary(ex, "Mult", mul)

    def s_neg(self, ex):
        P, p, a = self.one(ex)
        is_poly(ex, "neg", seqops.unary_neg(ex, p), P, neg(pof_seq(a)))
        self.same(ex, p, a)

    def s_eq(self, ex):
        P, p, a, q, b = self.two(ex)
        r = ex.truth(seqops.obj_eq(ex, "__eq__", p, q))
        ex.oblige("ensures:eq", Iff(prop_of(r), eq(pof_seq(a), pof_seq(b))))

    def s_ne(self, ex):
        P, p, a, q, b = self.two(ex)
        r = ex.truth(seqops.obj_eq(ex, "__ne__", p, q))
        ex.oblige("ensures:ne", Iff(prop_of(r), ne(pof_seq(a), pof_seq(b))))

    def s_measures(self, ex):
        P, p, a = self.one(ex)
        L = app("plen", INT, pof_seq(a))
        ex.oblige("ensures:abs", eq(T(ex.call_method(p, "__abs__", [])), L))
        ex.oblige("ensures:len", eq(T(ex.call_method(p, "__len__", [])), L))
        ex.oblige("ensures:degree", eq(T(ex.call_method(p, "degree", [])), L - 1))
        ex.oblige("ensures:is_zero", Iff(prop_of(ex.truth(ex.call_method(p, "is_zero", []))), eq(pof_seq(a), T(0, PLY))))

    def s_leading(self, ex):
        P, p, a = self.one(ex)
        ex.add_fact("req", lt(0, T(a.n)))
        ex.oblige("ensures:leading", eq(as_term(ex.call_method(p, "leading_coefficient", []), FLD), as_term(a.get(T(a.n) - 1), FLD)))

    def s_iter(self, ex):
        P, p, a = self.one(ex)
        it = ex.seq(p)
        equal(ex, "iter", it, a)

    def s_eval(self, ex):
        P, p, a = self.one(ex)
        x = ex.fresh("x", ("s", FLD))
        r = ex.call(p, [x])
        ex.oblige("ensures:eval", eq(as_term(r, FLD), app("Polynomial.eval", FLD, x, pof_seq(a))))
        self.same(ex, p, a)


def cv(s, v):
    return PLY.cls.seal.conv(s.ex, v)


class EvalPoly(Scenarios):
    """p(x) at a polynomial x."""
    qual = "starks.polynomial:polynomials_over.<locals>.Polynomial.__call__"
    lean_ctx = FLD_CTX
    hints = {"inv-init:*": "simp", "inv-step:power": "rw [h_inv, ipow_succ _ (by omega)]",
             "inv-step:y": "rw [h_inv_1, h_inv, isum_succ _ h_idx]; ring",
             "ensures:eval": "rw [h_inv_1, ← comp_pof, pof_self]"}

    loops = [LoopSpec(kind="for", roles={"y": ("y", ("mix", PLY)), "power_of_x": ("power_of_x", ("mix", PLY))}, force=True,
                      inv=lambda s: [("power", eq(cv(s, s.power_of_x), app("ipow", PLY, s.args[1], s.k))),
                                     ("y", eq(cv(s, s.y), app("isum", PLY, s.k, Lam(lambda i: mul(app("Polynomial.C", PLY, pc(s.args[0], i)), app("ipow", PLY, s.args[1], i))))))])]

    def s_eval_poly(self, ex):
        P = sealed_polyclass(ex)
        p, x = ex.fresh("p", ("s", PLY)), ex.fresh("x", ("s", PLY))
        ex.args = [p, x]
        r = ex.call(P.lookup("__call__"), [p, x])
        ex.oblige("ensures:eval", eq(PLY.cls.seal.conv(ex, r), app("Polynomial.comp", PLY, p, x)))


class C04(Property):
    id = "C04"
    contracts = (Strip, Poly, EvalPoly)
    lib = ("Pv.Poly",)

    def setup(self, w):
        w.call_hooks["starks.numbertype:memoize"] = identity_memoize


PROPERTY = C04()
