"""C21: affine spaces and their vanishing polynomials."""
from ..check import Property
from ..contract import *
from ..sorts import *
from ..values import *
from ..seqops import StarArg
from .fields import hooks
from .c01 import primefield, identity_memoize
from .c12 import Zpoly, vanish

SPACE = "starks.reedsolomon:AffineSpace"
ITER = sealed_class("scalars", Seal(), "ItT", ring=False)
CTX = FLD_CTX + " {ItT : Type}"
VEC = {"scalars": FLD, "polynomials": PLY}


def scalar_field(ex):
    """the sealed field K with q = p^m elements E 0, ..., E (q-1)"""
    p, m = ex.fresh("p", ("s", INT)), ex.fresh("m", ("s", INT))
    ex.add_fact("req", lt(1, p))
    ex.add_fact("req", le(1, m))
    e = var("E", FnSort([INT], FLD))
    q = app("ipow", INT, p, m)
    ex.add_fact("enum", app("enumerates", PROP, q, e))
    ex.field_prime, ex.field_m, ex.field_iter = p, m, iterator
    ex.ghost_q, ex.ghost_e = q, e
    ex.sealedP = sealed_polyclass(ex)


def iterator(ex):
    """each call makes another generator, distinct from all existing ones"""
    it = ex.fresh("it", ("s", ITER))
    for v in list(ex.heap.values()):
        if isinstance(v, Seq) and v.items is None and v.kind == ("s", ITER):
            ex.add_fact("new", Forall_range(0, T(v.n), lambda i, v=v: ne(v.get(i), it)))
    return it


def product(ex, a, k):
    """d distinct generators of the scalars: all d-tuples, the last entry varying fastest"""
    if len(a) == 1 and isinstance(a[0], StarArg) and not k:
        s = a[0].seq
        if s.kind != ("s", ITER):
            raise Unsupported("product of other things")
        d = T(s.n)
        ex.safe("distinct-generators", Forall_range(0, d, lambda i: Forall_range(0, i, lambda j: ne(s.get(i), s.get(j)))))
    elif len(a) == 1 and isinstance(a[0], Term) and a[0].sort is ITER and list(k) == ["repeat"]:
        d = T(k["repeat"])
    else:
        raise Unsupported("product of other things")
    q, e = ex.ghost_q, ex.ghost_e
    return Seq(None, app("ipow", INT, q, d), lambda j: Seq(None, d, lambda i: apply(e, app("adigit", INT, q, d, T(j), T(i))), ("s", FLD)), ("seq", ("s", FLD)))


def vec(x, V):
    if isinstance(x, Mix):
        x = x.term
    return app("Polynomial.C", PLY, x) if V is PLY and x.sort is FLD else as_term(x, V)


def comb(ex, V, B, j, upto=None):
    """sum over k < upto of scalar k of assignment j times basis vector k"""
    q, e, d = ex.ghost_q, ex.ghost_e, T(B.n)
    f = lambda k: mul(vec(apply(e, app("adigit", INT, q, d, T(j), T(k))), V), T(B.get(k)))
    return app("isum", V, T(d if upto is None else upto), Lam(f, INT, "i"))


def space(ex, kind, shift):
    scalar_field(ex)
    V = VEC[kind]
    B = ex.fresh("B", ("seq", ("s", V)))
    s = ex.fresh("h", ("s", V)) if shift else None
    o = ex.call(ex.get_function(SPACE), [FLD.cls, ex.alloc(B, "list")] + ([s] if shift else []))
    ex.ghost_v, ex.ghost_b, ex.ghost_h = V, B, s if shift else T(0, V)
    return o, B


class Iterate(Contract):
    qual = SPACE + ".__iter__"
    lean_ctx = CTX
    hints = {
        "inv-step:distinct": "!intro i hi j hj; rw [if_pos (show j < its_n by omega)]; split_ifs with e <;> first | exact h_inv_1 i ⟨hi.1, e⟩ j hj | exact fun c => h_new j ⟨hj.1, by omega⟩ c.symm",
        "inv-init:partial": "!simp",
        "inv-step:partial": "!subst h_inv; rw [isum_succ _ (by omega)]; first | (rw [h_inv_4]; done) | (rw [h_inv_4]; ring)",
        "inv-step:elements": "!intro j hj; split_ifs with e <;> first | exact h_inv_3 j ⟨hj.1, by omega⟩ | (obtain rfl : j = k_1 := (by omega); rw [if_pos (by omega)] at h_inv_4; rw [h_inv_4, h_inv])",
        "ensures:length": "!rw [h_inv_2, h_inv]",
        "ensures:elements": "!intro j hj; exact h_inv_3 j ⟨hj.1, by omega⟩",
    }
    loops = [LoopSpec(kind="for", force=True, roles={"its": ("field_iterators", ("seq", ("s", ITER)))},
                      inv=lambda s: [("length", eq(T(s.its.n), T(s.k))),
                                     ("distinct", Forall_range(0, T(s.its.n), lambda i: Forall_range(0, i, lambda j: ne(s.its.get(i), s.its.get(j)))))]),
             LoopSpec(kind="for", force=True, roles={"out": ("$yield", ("make", lambda ex, name: ex.fresh(name, ("seq", ("s", ex.ghost_v)))))},
                      inv=lambda s: (setattr(s.ex, "ghost_j", s.k), lambda out: [("length", eq(T(out.n), T(s.k))), ("elements", Forall_range(0, T(s.k), lambda j: eq(vec(out.get(j), s.ex.ghost_v), element_at(s.ex, j))))])[1](s.ex.seq(s.out))),
             LoopSpec(kind="for", force=True, roles={"elt": ("elt", ("make", lambda ex, name: ex.fresh(name, ("s", ex.ghost_v))))},
                      inv=lambda s: [("partial", eq(vec(s.elt, s.ex.ghost_v), add(s.ex.ghost_h, comb(s.ex, s.ex.ghost_v, s.ex.ghost_b, s.ex.ghost_j, s.k))))])]

    def instances(self, ex):
        out = {}
        for kind in VEC:
            for sh in (True, False):
                if (kind, sh) != ("polynomials", False):
                    out[kind + ("-shifted" if sh else "")] = lambda ex, kind=kind, sh=sh: [space(ex, kind, sh)[0]]
        return out

    def match(self, ex, a):
        return "scalars-shifted"

    def result(self, ex, o):
        return ("seq", ("s", ex.ghost_v))

    def ensures(self, ex, r, o):
        r = ex.seq(r)
        B = ex.ghost_b
        return [("length", eq(T(r.n), app("ipow", INT, ex.ghost_q, T(B.n)))),
                ("elements", Forall_range(0, T(r.n), lambda j: eq(vec(r.get(j), ex.ghost_v), element_at(ex, j))))]


def element_at(ex, j):
    return add(ex.ghost_h, comb(ex, ex.ghost_v, ex.ghost_b, j))


class Space(Scenarios):
    qual = SPACE
    name = "space"
    lean_ctx = CTX
    hints = {
        "ensures:some": "!obtain ⟨j, ⟨⟨hj0, hj1⟩, he⟩, hu⟩ := assignments (d := B_n) h_len h_enum s; exact ⟨j, hj0, (by omega), he, (by rw [h_post_1 j ⟨hj0, by omega⟩]; congr 1; exact isum_congr fun k k0 k1 => (by rw [he k ⟨k0, k1⟩]))⟩",
        "ensures:once": "!obtain ⟨l, ⟨hl, he⟩, hu⟩ := assignments (d := B_n) h_len h_enum s; rintro ⟨i0, i1, j0, j1, h1, h2⟩; rw [hu i ⟨⟨i0, by omega⟩, h1⟩, hu j ⟨⟨j0, by omega⟩, h2⟩]",
    }

    def s_len(self, ex):
        o, B = space(ex, "scalars", True)
        equal(ex, "length", ex.call_method(o, "__len__", []), app("ipow", INT, ex.ghost_q, T(B.n)))

    def s_assignments(self, ex):
        o, B = space(ex, "scalars", True)
        r = ex.seq(o)
        q, e, d, n = ex.ghost_q, ex.ghost_e, T(B.n), T(r.n)
        f = var("s", FnSort([INT], FLD))
        S = lambda k: apply(f, T(k))
        is_ = lambda j: Forall_range(0, d, lambda k: eq(apply(e, app("adigit", INT, q, d, T(j), T(k))), S(k)))
        total = add(ex.ghost_h, app("isum", FLD, d, Lam(lambda k: mul(S(k), T(B.get(k))), INT, "i")))
        ex.oblige("ensures:some", Exists(lambda j: And(le(0, j), lt(j, n), is_(j), eq(T(r.get(j)), total))))
        i, j = ex.fresh("i", ("s", INT)), ex.fresh("j", ("s", INT))
        ex.oblige("ensures:once", Imp(And(And(le(0, i), lt(i, n)), And(le(0, j), lt(j, n)), is_(i), is_(j)), eq(i, j)))


class Vanishing(Scenarios):
    qual = "starks.poly_utils:construct_affine_vanishing_polynomial"
    name = "vanishing"
    lean_ctx = CTX
    hints = {
        "ensures:product": "!subst h_post; exact vanish_congr fun i hi => h_post_1 i hi",
        "ensures:degree": "!rw [vanish_len _ _ h_len_1, h_post]",
        "ensures:monic": "!exact vanish_monic _ _",
        "ensures:roots": "!rw [vanish_congr fun i hi => h_post_1 i hi, vanish_iff, h_post]; simp only [and_assoc]",
    }

    def s_roots(self, ex):
        o, B = space(ex, "scalars", True)
        f = T(ex.call(ex.get_function(self.qual), [FLD.cls, o]))
        N = app("ipow", INT, ex.ghost_q, T(B.n))
        el = lambda j: element_at(ex, j)
        ex.oblige("ensures:product", eq(f, app("vanish", PLY, N, Lam(el, INT, "i"))))
        ex.oblige("ensures:degree", eq(plen(f), add(N, 1)))
        ex.oblige("ensures:monic", app("Polynomial.Monic", PROP, f))
        x = ex.fresh("x", ("s", FLD))
        ex.oblige("ensures:roots", eq(eq(app("Polynomial.eval", FLD, x, f), T(0, FLD)), Exists(lambda j: And(And(le(0, j), lt(j, N)), eq(el(j), x)))))


class Residues(Scenarios):
    qual = "starks.modp:iterate_modp"
    name = "residues"
    lean_ctx = CTX
    hints = {"inv-step:elements": "!intro i hi; split_ifs with e <;> first | exact h_inv_1 i ⟨hi.1, by omega⟩ | (obtain rfl : i = k := (by omega); rfl)"}
    loops = [LoopSpec(kind="for", force=True, roles={"out": ("$yield", ("seq", ("s", FLD)))},
                      inv=lambda s: [("length", eq(T(s.out.n), T(s.k))), ("elements", Forall_range(0, T(s.k), lambda j: eq(as_term(s.out.get(j), FLD), cast(j, FLD))))])]

    def s_all(self, ex):
        ex.sealedK = FLD.cls
        p = ex.fresh("p", ("s", INT))
        ex.add_fact("req", lt(1, p))
        r = ex.seq(ex.call(ex.call(ex.get_function(self.qual), [p]), []))
        ex.oblige("ensures:length", eq(T(r.n), p))
        ex.oblige("ensures:elements", Forall_range(0, p, lambda i: eq(as_term(r.get(i), FLD), cast(i, FLD))))


class C21(Property):
    id = "C21"
    contracts = (Iterate, Space, Vanishing, Residues)
    uses = (Zpoly,)
    lib = ("Pv.Affine",)
    theorems = ("assignments", "vanish_iff", "vanish_monic", "vanish_len", "enum_residues")
    ctx = CTX
    assumptions = ("the field's iterator yields its p^m elements, each once (proved for Z/p: s_all and enum_residues)",
                   "itertools.product over d separate iterators yields every d-tuple once, the last entry varying fastest",
                   "vectors are elements of the field or polynomials over it")

    def setup(self, w):
        hooks(w)
        w.externals["itertools:product"] = Builtin("product", product)


PROPERTY = C21()
