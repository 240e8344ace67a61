"""C10: multivariate polynomials."""
import ast
from ..check import Property
from ..contract import *
from ..sorts import *
from ..seqops import SymDict
from ..maps import *
from .fields import hooks
from .mvfields import *

MOD = "starks.multivariate_polynomial:"
CTX = FLD_CTX


def mvclass(ex):
    ex.num_vars = ex.fresh("w", ("s", INT))
    ex.add_fact("req", le(0, ex.num_vars))
    return ex.call(ex.module_name(*MOD_FN), [FLD.cls, ex.num_vars])


MOD_FN = ("starks.multivariate_polynomial", "multivariates_over")


def anypoly(ex, M, name):
    o = ex.call(M, [ex.alloc(DictV(items={}), "dict")])
    p = ex.fresh(name, ("s", MVP))
    ex.add_fact("inv", app("mvars", PROP, ex.num_vars, p))
    ex.heap[o.addr]["coefficients"] = ex.alloc(coeffs(p), "dict")
    return o, p


def is_poly(ex, label, r, M, want):
    if not (isinstance(r, Ref) and r.typ == "obj" and ex.heap[r.addr]["$class"] is M):
        ex.oblige("ensures:%s.type" % label, FALSE)
        return
    d = ex.heap[ex.heap[r.addr]["coefficients"].addr]
    if not isinstance(d, SymDict):
        ok = not d.items
        ex.oblige("ensures:%s.empty" % label, Forall(lambda q: eq(mcoef(want, q), T(0, FLD)), MON) if ok else FALSE)
        return
    ex.oblige("ensures:%s.monomials" % label, Forall(lambda q: Iff(T(d.dom(q)), ne(mcoef(want, q), T(0, FLD))), MON))
    ex.oblige("ensures:%s.coefficients" % label, Forall(lambda q: Imp(T(d.dom(q)), eq(as_term(d.val(q), FLD), mcoef(want, q))), MON))


def same(ex, o, p):
    d = ex.heap[ex.heap[o.addr]["coefficients"].addr]
    ok = isinstance(d, SymDict)
    ex.oblige("frame:operand", Forall(lambda q: And(Iff(T(d.dom(q)), ne(mcoef(p, q), T(0, FLD))), eq(as_term(d.val(q), FLD), mcoef(p, q))), MON) if ok else FALSE)


def at(s):
    return s.it.at


class RemoveZero(Contract):
    """the entries that are not zero, in a new dictionary"""
    qual = MOD + "remove_zero_coefficients"
    lean_ctx = CTX
    hints = {"*": "mv_dict"}

    def instances(self, ex):
        def any_(ex):
            ex.num_vars = ex.fresh("w", ("s", INT))
            d = ex.fresh("c", ("dict", MON, ("s", FLD)))
            ex.ghost_c = d
            return [ex.alloc(d, "dict")]

        def empty(ex):
            ex.num_vars = ex.fresh("w", ("s", INT))
            ex.ghost_c = DictV(items={})
            return [ex.alloc(ex.ghost_c, "dict")]
        return {"any": any_, "empty": empty}

    def apply(self, ex, bound, f):
        c = self.order(bound, f)[0]
        if not (isinstance(c, Ref) and c.typ == "dict"):
            raise Unsupported("remove_zero_coefficients of %r" % (c,))
        d = ex.heap[c.addr]
        if not isinstance(d, SymDict):
            return NotImplemented if d.items else ex.alloc(DictV(items={}), "dict")
        zero = T(0, FLD)
        return ex.alloc(SymDict(lambda q: And(T(d.dom(q)), ne(as_term(d.val(q), FLD), zero)), d.val, d.ksort, d.vkind, d.keyfn), "dict")

    def ensures(self, ex, r, c):
        d = ex.ghost_c
        now = ex.heap[c.addr]
        if not (isinstance(r, Ref) and r.typ == "dict" and r.addr != c.addr):
            return [("new-dictionary", FALSE)]
        e = ex.heap[r.addr]
        if not isinstance(d, SymDict):
            return [("empty", TRUE if e.items is not None and not e.items else FALSE)]
        if not isinstance(e, SymDict):
            return [("dictionary", FALSE)]
        z = T(0, FLD)
        return [("keys", Forall(lambda q: Iff(T(e.dom(q)), And(T(d.dom(q)), ne(as_term(d.val(q), FLD), z))), MON)),
                ("values", Forall(lambda q: Imp(T(e.dom(q)), eq(as_term(e.val(q), FLD), as_term(d.val(q), FLD))), MON)),
                ("unchanged", TRUE if now is d else FALSE)]

    loops = [LoopSpec(kind="for", force=True, roles={"out": ("reduced", ("dict", MON, ("s", FLD)))},
                      inv=lambda s: [("keys", Forall(lambda q: Iff(T(s.out.dom(q)) if isinstance(s.out, SymDict) else FALSE, And(T(s.ex.ghost_c.dom(q)), lt(apply(at(s), q), s.k), ne(as_term(s.ex.ghost_c.val(q), FLD), T(0, FLD)))), MON)),
                                     ("values", Forall(lambda q: Imp(T(s.out.dom(q)), eq(as_term(s.out.val(q), FLD), as_term(s.ex.ghost_c.val(q), FLD))), MON) if isinstance(s.out, SymDict) else TRUE)])]
    loops[0].match = lambda ex, node: isinstance(ex.ghost_c, SymDict)


class AddTuples(Contract):
    """position by position"""
    qual = MOD + "add_power_tuples"

    def instances(self, ex):
        return {"same length": lambda ex: [ex.fresh("a", ("seq", ("s", INT))), ex.fresh("b", ("seq", ("s", INT)))]}

    def seqs(self, ex, a, b):
        return [MON.cls.seal.exps(ex, x) if isinstance(x, Term) and x.sort is MON else ex.seq(x) for x in (a, b)]

    def requires(self, ex, a, b):
        a, b = self.seqs(ex, a, b)
        return [("lengths", eq(T(a.n), T(b.n)))]

    def value(self, ex, a, b):
        a, b = self.seqs(ex, a, b)
        return Seq(None, a.n, lambda i: add(T(a.get(i)), T(b.get(i))), ("s", INT))

    def apply(self, ex, bound, f):
        r = Contract.apply(self, ex, bound, f)
        return ex.seq(r) if isinstance(r, Ref) else r


class SumTuple(Contract):
    """the sum of the exponents"""
    qual = MOD + "sum_power_tuple"

    def instances(self, ex):
        return {"any": lambda ex: [ex.fresh("a", ("seq", ("s", INT)))]}

    def value(self, ex, a):
        s = MON.cls.seal.exps(ex, a) if isinstance(a, Term) and a.sort is MON else ex.seq(a)
        return app("isum", INT, T(s.n), Lam(lambda i: T(s.get(i))))


class MvPoly(Scenarios):
    qual = MOD + "multivariates_over"
    lean_ctx = CTX
    hints = {"*": "mv_dict"}

    def one(self, ex):
        M = mvclass(ex)
        return (M,) + anypoly(ex, M, "p")

    def two(self, ex):
        M = mvclass(ex)
        return (M,) + anypoly(ex, M, "p") + anypoly(ex, M, "q")

    def binary(self, ex, op, want):
        M, x, p, y, q = self.two(ex)
        r = seqops.binop(ex, op, x, y)
        is_poly(ex, op, r, M, want(p, q))
        same(ex, x, p)
        same(ex, y, q)


class Simple(MvPoly):
    name = "construction, sums and negation"

    def s_init(self, ex):
        M = mvclass(ex)
        p = ex.fresh("p", ("s", MVP))
        d = ex.fresh("c", ("dict", MON, ("s", FLD)))
        ex.add_fact("req", Forall(lambda q: eq(entry(d, q), mcoef(p, q)), MON))
        c = ex.alloc(d, "dict")
        r = ex.call(M, [c])
        is_poly(ex, "dict", r, M, p)
        ex.oblige("frame:dict", TRUE if ex.heap[c.addr] is d else FALSE)
        ex.oblige("frame:not-shared", TRUE if ex.heap[r.addr]["coefficients"].addr != c.addr else FALSE)

    def s_init_scalar(self, ex):
        M = mvclass(ex)
        c = ex.fresh("c", ("s", FLD))
        is_poly(ex, "field-element", ex.call(M, [c]), M, app("MvPolynomial.C", MVP, c))
        n = ex.fresh("n", ("s", INT))
        is_poly(ex, "int", ex.call(M, [n]), M, app("MvPolynomial.C", MVP, cast(n, FLD)))

    def s_init_copy(self, ex):
        M, x, p = self.one(ex)
        r = ex.call(M, [x])
        is_poly(ex, "copy", r, M, p)
        same(ex, x, p)
        ex.oblige("frame:not-shared", TRUE if ex.heap[r.addr]["coefficients"].addr != ex.heap[x.addr]["coefficients"].addr else FALSE)

    def s_refused(self, ex):
        M = mvclass(ex)
        expect_raise(ex, ["ValueError"], lambda: ex.call(M, [None]))

    def s_add(self, ex):
        self.binary(ex, "Add", add)

    def s_sub(self, ex):
        self.binary(ex, "Sub", sub)

    def s_neg(self, ex):
        M, x, p = self.one(ex)
        r = seqops.unary_neg(ex, x)
        is_poly(ex, "neg", r, M, neg(p))
        same(ex, x, p)

    def s_getitem(self, ex):
        M, x, p = self.one(ex)
        m = ex.fresh("m", ("s", MON))
        equal(ex, "coefficient", ex.call_method(x, "__getitem__", [m]), mcoef(p, m))

    def s_zero(self, ex):
        M, x, p = self.one(ex)
        ex.oblige("ensures:is_zero", Iff(prop_of(ex.truth(ex.call_method(x, "is_zero", []))), eq(p, T(0, MVP))))


    def s_mixed(self, ex):
        M, x, p = self.one(ex)
        n = ex.fresh("n", ("s", INT))
        c = ex.fresh("c", ("s", FLD))
        for lab, v, t in (("int", n, cast(n, FLD)), ("field-element", c, c)):
            t = app("MvPolynomial.C", MVP, t)
            is_poly(ex, lab + "-right", seqops.binop(ex, "Add", x, v), M, add(p, t))
            is_poly(ex, lab + "-left", seqops.binop(ex, "Add", v, x), M, add(p, t))
            is_poly(ex, lab + "-minus", seqops.binop(ex, "Sub", x, v), M, sub(p, t))
            is_poly(ex, lab + "-minuend", seqops.binop(ex, "Sub", v, x), M, sub(t, p))
        same(ex, x, p)


DEG = LoopSpec(kind="for", force=True, roles={"best": ("max_deg", ("s", INT))},
                    inv=lambda s: [("upper", Forall_range(0, s.k, lambda i: le(mdeg(s.ex, s.it.get(i)), T(s.best)))),
                                   ("nonneg", le(0, T(s.best))),
                                   ("attained", Or(eq(T(s.best), 0), Exists(lambda i: And(le(0, i), lt(i, s.k), eq(mdeg(s.ex, s.it.get(i)), T(s.best))))))])


def mdeg(ex, m):
    return app("isum", INT, nvars(ex), Lam(lambda i: mexp(m, i)))


def mtotal(p):
    return app("mtotal", INT, p)


ATTAINED = """!(try simp only [max_def, min_def]); (split_ifs <;> first
  | (refine Or.inr ⟨_, ?_, ?_, rfl⟩ <;> first | assumption | exact lt_add_one _)
  | (rcases (show best_1 = 0 ∨ _ by assumption) with h | ⟨i, h0, h1, h2⟩
     · exact Or.inl h
     · exact Or.inr ⟨i, h0, (by omega), h2⟩)
  | (rcases (show best = 0 ∨ _ by assumption) with h | ⟨i, h0, h1, h2⟩
     · exact Or.inl h
     · exact Or.inr ⟨i, h0, (by omega), h2⟩))"""
LISTED = "mtotal_of_max ⟨by assumption, by assumption, by assumption⟩ (by assumption) (fun i a b => by first | exact h_inv_1 i ⟨a, b⟩ | exact h_inv_2 i ⟨a, b⟩ | exact h_inv_5 i ⟨a, b⟩) (by assumption)"


class Degree(MvPoly):
    qual = MOD + "multivariates_over.MultivariatePolynomial.degree"
    name = "degree"
    hints = {"inv-step:attained": ATTAINED, "ensures:degree": "!exact " + LISTED, "*": "mv_dict"}
    loops = [DEG]

    def s_degree(self, ex):
        M, x, p = self.one(ex)
        equal(ex, "degree", ex.call_method(x, "degree", []), mtotal(p))
        same(ex, x, p)

    def apply(self, ex, bound, f):
        if ex.root is self:
            return NotImplemented
        d = ex.heap[ex.heap[bound["self"].addr]["coefficients"].addr]
        return mtotal(d.poly) if getattr(d, "poly", None) is not None else NotImplemented


class Equal(MvPoly):
    """two polynomials are equal when their coefficients are"""
    name = "equality"
    hints = {"ensures:eq": """!constructor
· intro h
  refine mv_ext fun m => ?_
  grind
· intro e
  subst e
  grind""", "*": "mv_dict"}

    def s_eq(self, ex):
        M, x, p, y, q = self.two(ex)
        r = ex.truth(seqops.obj_eq(ex, "__eq__", x, y))
        ex.oblige("ensures:eq", Iff(prop_of(r), eq(p, q)))
        same(ex, x, p)
        same(ex, y, q)


def mon(s, i):
    """the monomial and the coefficient a loop over a polynomial is at"""
    x = s.it.get(i)
    while isinstance(x, tuple) and not (isinstance(x[0], Term) and x[0].sort is MON):
        x = x[1]
    return x[0], as_term(x[1], FLD)


def has_loop(node):
    return any(isinstance(n, ast.For) for n in ast.walk(ast.Module(body=node.body, type_ignores=[])))


def stores(node):
    return any(isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) for n in ast.walk(node))


def partial(s, want):
    return [("coefficients", Forall(lambda q: eq(entry(s.out, q), mcoef(want, q)), MON))]


class Mul(MvPoly):
    """one product of monomials after the other"""
    name = "product"
    hints = {"*": "mv_mul"}

    def s_mul(self, ex):
        M, x, p, y, q = self.two(ex)
        ex.ghost_q = q
        r = seqops.binop(ex, "Mult", x, y)
        is_poly(ex, "Mult", r, M, mul(p, q))
        same(ex, x, p)
        same(ex, y, q)

    @staticmethod
    def outer(s):
        def t(i):
            m, c = mon(s, i)
            return mul(mmon(m, c), s.ex.ghost_q)
        s.ex.ghost_done = app("isum", MVP, T(s.k), Lam(t))
        s.ex.ghost_at = s
        return partial(s, s.ex.ghost_done)

    @staticmethod
    def inner(s):
        o = s.ex.ghost_at
        m, c = mon(o, o.k)

        def t(j):
            m2, c2 = mon(s, j)
            return mmon(app("madd", MON, m, m2), mul(c, c2))
        return partial(s, add(s.ex.ghost_done, app("isum", MVP, T(s.k), Lam(t))))


OUT = {"out": ("new_coeffs", ("dict", MON, ("s", FLD)))}
Mul.loops = [LoopSpec(kind="for", force=True, roles=OUT, match=lambda ex, node: has_loop(node), inv=Mul.outer),
             LoopSpec(kind="for", force=True, roles=OUT, match=lambda ex, node: stores(node) and not has_loop(node), inv=Mul.inner)]


class Call(MvPoly):
    """the sum of coefficient times product of powers"""
    name = "evaluation"
    hints = {"*": "mv_call"}

    def values(self, ex, sort):
        v = ex.fresh("v", ("seq", ("s", sort)))
        return Seq(None, nvars(ex), v.get, v.kind)

    def s_at_elements(self, ex):
        M, x, p = self.one(ex)
        v = self.values(ex, FLD)
        r = ex.call(x, [ex.alloc(v, "list")])
        ex.oblige("ensures:value", eq(as_term(r, FLD), app("mval", FLD, p, Lam(lambda i: v.get(i)))))
        same(ex, x, p)

    def s_at_polynomials(self, ex):
        M, x, p = self.one(ex)
        v = self.values(ex, PLY)
        r = ex.call(x, [ex.alloc(v, "list")])
        ex.oblige("ensures:value", eq(as_term(r, PLY), app("mval", PLY, p, Lam(lambda i: v.get(i)))))
        same(ex, x, p)

    def s_at_multivariates(self, ex):
        M, x, p = self.one(ex)
        v = self.values(ex, MVP)
        r = ex.call(x, [ex.alloc(v, "list")])
        ex.oblige("ensures:value", eq(as_term(r, MVP), app("mval", MVP, p, Lam(lambda i: v.get(i)))))
        same(ex, x, p)


class C10(Property):
    id = "C10"
    contracts = (RemoveZero, AddTuples, SumTuple, Simple, Degree, Equal, Mul, Call)
    lib = ("Pv.Mvp",)
    theorems = ("mval_add", "mval_mul", "mcoef_add", "mval_listed", "mtotal_of_max")
    assumptions = ("a coefficient map given to the constructor has coefficients in the field and keys of num_vars non-negative exponents",
                   "powers are DomainElement.__pow__, proved in C02 for every type whose operations are those of a ring")

    def setup(self, w):
        hooks(w)
        w.dictkey = (MON, MON.cls.seal.conv2)


PROPERTY = C10()
