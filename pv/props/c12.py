"""C12: simultaneous inversion and interpolation."""
from ..check import Property
from ..contract import *
from ..sorts import *
from .fields import hooks

MOD = "starks.poly_utils:"


def fn(s):
    return Lam(lambda i: as_term(s.get(i), FLD))


def vanish(n, xs):
    return app("vanish", PLY, T(n), fn(xs))


def nzprod(n, v):
    return app("nzprod", FLD, T(n), fn(v))


class MultiInv(Contract):
    qual = MOD + "multi_inv"
    lean_ctx = FLD_CTX
    hints = {
        'inv-step:products': """!intro i hi
by_cases h : i < partials_n
· rw [if_pos h]; exact h_inv_1 i (by omega)
· rw [if_neg h, show i = k + 1 by omega, nzprod_succ _ (by omega), show partials_n + -1 = k by omega, h_inv_1 k (by omega)]
  try (split_ifs <;> simp_all)""",
        'safe:division-by-zero': """!rw [h_inv_1 _ (by omega)]; exact nzprod_ne _ _""",
        'inv-step:inv': """!split_ifs with h
· rw [nzprod_pred _ (by omega) h] at h_inv_3; linear_combination h_inv_3
· rw [nzprod_pred0 _ (by omega) (not_not.1 h)] at h_inv_3; exact h_inv_3""",
        'inv-step:done': """!intro i hi
split_ifs with h1 h2
· subst h1; rw [h_inv_1 _ (by omega)]
  rw [nzprod_pred _ (by omega) h2] at h_inv_3
  field_simp
  linear_combination h_inv_3
· subst h1; rw [not_not.1 h2, inv_zero]
· exact h_inv_4 i (by omega)""",
        "*": "!interp_auto"}

    def instances(self, ex):
        return {"any": lambda ex: [FLD.cls, ex.alloc(ex.fresh("v", ("seq", ("s", FLD))), "list")]}

    def result(self, ex, field, v):
        return ("seq", ("mix", FLD))

    def ensures(self, ex, r, field, v):
        return [("length", eq(T(r.n), T(v.n))),
                ("inverse", Forall_range(0, T(v.n), lambda i: eq(as_term(r.get(i), FLD), app("Inv.inv", FLD, as_term(v.get(i), FLD)))))]

    loops = [LoopSpec(kind="for", match=None, force=True, roles={"partials": ("partials", ("seq", ("s", FLD)))},
                      inv=lambda s: [("length", eq(T(s.partials.n), s.k + 1)),
                                     ("products", Forall_range(0, s.k + 1, lambda j: eq(as_term(s.partials.get(j), FLD), nzprod(j, s.args[1]))))]),
             LoopSpec(kind="for", force=True, roles={"outputs": ("outputs", ("seq", ("mix", FLD))), "inv": ("inv", ("s", FLD))},
                      inv=lambda s: [("length", eq(T(s.outputs.n), T(s.args[1].n))),
                                     ("inv", eq(mul(T(s.inv), nzprod(T(s.args[1].n) - s.k, s.args[1])), T(1, FLD))),
                                     ("done", Forall_range(T(s.args[1].n) - s.k, T(s.args[1].n), lambda j: eq(as_term(s.outputs.get(j), FLD), app("Inv.inv", FLD, as_term(s.args[1].get(j), FLD)))))])]


class Zpoly(Contract):
    qual = MOD + "zpoly"
    lean_ctx = FLD_CTX
    hints = {
        'inv-init:product': """!rw [vanish_zero]; simp [pof, isum]""",
        'inv-step:product': """!exact zpoly_step root_n v_root xs k (by omega) (by omega) h_inv_1 _ (by intro i hi hi2; grind)""",
        "*": "!interp_auto"}

    def instances(self, ex):
        def one(ex):
            ex.sealedP = sealed_polyclass(ex)
            return [FLD.cls, ex.alloc(ex.fresh("xs", ("seq", ("s", FLD))), "list")]
        return {"any": one}

    def value(self, ex, field, xs):
        return vanish(xs.n, xs)

    loops = [LoopSpec(kind="for", force=True, roles={"root": ("root", ("seq", ("s", FLD)))},
                      inv=lambda s: [("length", eq(T(s.root.n), s.k + 1)),
                                     ("product", eq(pof_seq(s.root), vanish(s.k, s.args[1])))])]


class Lagrange(Contract):
    qual = MOD + "lagrange_interp"
    lean_ctx = FLD_CTX
    hints = {
        "assert": "!rw [vanish_len _ _ (by omega)]; omega",
        "safe:division-by-zero": "!rw [lin_C]; exact Polynomial.X_sub_C_ne_zero _",
        "safe:index": "!first | omega | (rw [basis_def, basis_len _ (by omega) (by omega)]; omega)",
        "inv-init:partial": "!intro i hi; rw [lagp_zero]; simp [pc]",
        "inv-step:partial": """!intro i hi
rw [pc_lagp_succ _ _ _ (by omega), basis_def, h_post_1 _ (by omega), basis_def, h_inv_1 _ hi]
rw [if_pos (by omega)]; ring""",
        "ensures:value": "!rw [h_inv]; exact lagn_of_coefs _ _ (by omega) _ h_inv_1",
        "*": "!interp_auto"}
    size = None

    def points(self, ex, n):
        k = ("seq", ("s", FLD))
        if n is None:
            xs, ys = ex.fresh("xs", k), ex.fresh("ys", k)
            ex.add_fact("req", eq(T(xs.n), T(ys.n)))
        else:
            xs, ys = [Seq([ex.fresh(nm + str(i), ("s", FLD)) for i in range(n)]) for nm in "xy"]
        return xs, ys

    def instances(self, ex):
        def one(ex):
            ex.sealedP = sealed_polyclass(ex)
            xs, ys = self.points(ex, self.size)
            return [FLD.cls, ex.alloc(xs, "list"), ex.alloc(ys, "list")]
        return {"any": one}

    def requires(self, ex, field, xs, ys):
        if self.size:
            return [("distinct", ne(xs.items[i], xs.items[j])) for i in range(self.size) for j in range(i)]
        return [("distinct", app("distinct", PROP, T(xs.n), fn(xs)))]

    def value(self, ex, field, xs, ys):
        if self.size:
            return app("lag%d" % self.size, PLY, *[as_term(t, FLD) for t in list(xs.items) + list(ys.items)])
        return app("lagn", PLY, T(xs.n), fn(xs), fn(ys))

    loops = [LoopSpec(kind="for", force=True, roles={"b": ("b", ("seq", ("mix", FLD)))},
                      inv=lambda s: [("length", eq(T(s.b.n), T(s.args[1].n))),
                                     ("partial", Forall_range(0, T(s.args[1].n), lambda j: eq(as_term(s.b.get(j), FLD), pc(app("lagp", PLY, T(s.args[1].n), fn(s.args[1]), fn(s.args[2]), T(s.k)), j))))])]


class Lagrange2(Lagrange):
    qual = MOD + "lagrange_interp_2"
    size = 2
    loops = []
    hints = {
        'safe:division-by-zero': """!rw [eval_lin x0 x1 _ (by norm_num) (by norm_num), eval_lin x1 x0 _ (by norm_num) (by norm_num)]
repeat' apply mul_ne_zero
all_goals first | exact sub_ne_zero.2 ‹_› | exact sub_ne_zero.2 (Ne.symm ‹_›)""",
        'safe:index': """!rw [plen2 (by norm_num)]; norm_num""",
        'ensures:value': """!rw [lag2_pof]
apply pof2_eq <;> norm_num [pc2_0, pc2_1]
all_goals rw [eval_lin x0 x1 _ (by norm_num) (by norm_num), eval_lin x1 x0 _ (by norm_num) (by norm_num)]
all_goals have := sub_ne_zero.2 h_req
all_goals have := sub_ne_zero.2 h_req.symm
all_goals (field_simp; try ring1)""",
        "*": "!interp_auto"}


class Lagrange4(Lagrange):
    qual = MOD + "lagrange_interp_4"
    size = 4
    loops = []
    hints = {
        'safe:division-by-zero': """!rw [eval_q x0 x1 x2 x3 _ (by norm_num; try ring1) (by norm_num; try ring1) (by norm_num; try ring1) (by norm_num), eval_q x1 x0 x2 x3 _ (by norm_num; try ring1) (by norm_num; try ring1) (by norm_num; try ring1) (by norm_num), eval_q x2 x0 x1 x3 _ (by norm_num; try ring1) (by norm_num; try ring1) (by norm_num; try ring1) (by norm_num), eval_q x3 x0 x1 x2 _ (by norm_num; try ring1) (by norm_num; try ring1) (by norm_num; try ring1) (by norm_num)]
repeat' apply mul_ne_zero
all_goals first | exact sub_ne_zero.2 ‹_› | exact sub_ne_zero.2 (Ne.symm ‹_›)""",
        'safe:index': """!rw [plen4 (by norm_num)]; norm_num""",
        'ensures:value': """!rw [lag4_pof x0 x1 x2 x3 y0 y1 y2 y3 _ _ _ _ rfl rfl rfl rfl]
rw [eval_q x0 x1 x2 x3 _ (by norm_num; try ring1) (by norm_num; try ring1) (by norm_num; try ring1) (by norm_num), eval_q x1 x0 x2 x3 _ (by norm_num; try ring1) (by norm_num; try ring1) (by norm_num; try ring1) (by norm_num), eval_q x2 x0 x1 x3 _ (by norm_num; try ring1) (by norm_num; try ring1) (by norm_num; try ring1) (by norm_num), eval_q x3 x0 x1 x2 _ (by norm_num; try ring1) (by norm_num; try ring1) (by norm_num; try ring1) (by norm_num)]
have a10 := sub_ne_zero.2 h_req; have a20 := sub_ne_zero.2 h_req_1; have a21 := sub_ne_zero.2 h_req_2
have a30 := sub_ne_zero.2 h_req_3; have a31 := sub_ne_zero.2 h_req_4; have a32 := sub_ne_zero.2 h_req_5
have b10 := sub_ne_zero.2 h_req.symm; have b20 := sub_ne_zero.2 h_req_1.symm; have b21 := sub_ne_zero.2 h_req_2.symm
have b30 := sub_ne_zero.2 h_req_3.symm; have b31 := sub_ne_zero.2 h_req_4.symm; have b32 := sub_ne_zero.2 h_req_5.symm
clear h_safe
apply pof4_eq <;> norm_num [pc4_0, pc4_1, pc4_2, pc4_3] <;> field_simp <;> try ring1""",
        "*": "!interp_auto"}


FOUR = ("tuple", (("s", FLD),) * 4)
OTHERS = ((1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2))


def scale(x, c):
    a, b, d = [sub(as_term(x[c], FLD), as_term(x[j], FLD)) for j in OTHERS[c]]
    return mul(mul(a, b), d)


class MultiInterp4(Contract):
    loops = [LoopSpec(kind="for", force=True,
                      roles={"data": ("data", ("seq", ("tuple", (FOUR,) + (("s", PLY),) * 4))), "invtargets": ("invtargets", ("seq", ("s", FLD)))},
                      inv=lambda s: [("length", And(eq(T(s.data.n), s.k), eq(T(s.invtargets.n), mul(4, s.k)))),
                                     ("values", Forall_range(0, s.k, lambda j: And(*[eq(as_term(s.data.get(j)[0][c], FLD), as_term(s.args[2].get(j)[c], FLD)) for c in range(4)]))),
                                     ("basis", Forall_range(0, s.k, lambda j: And(*[eq(s.data.get(j)[1 + c], app("lagb", PLY, *[as_term(s.args[1].get(j)[o], FLD) for o in OTHERS[c]])) for c in range(4)]))),
                                     ("scale", Forall_range(0, s.k, lambda j: And(*[eq(as_term(s.invtargets.get(add(mul(4, j), c)), FLD), scale(s.args[1].get(j), c)) for c in range(4)])))])]
    qual = MOD + "multi_interp_4"
    lean_ctx = FLD_CTX
    hints = {
        "inv-step:basis": """!intro i hi
by_cases h : i < data_n
· simp only [if_pos h]; exact h_inv_3 i (by omega)
· have hik : i = k := by omega
  subst hik; simp only [if_neg h]
  refine ⟨?_, ?_, ?_, ?_⟩ <;> (rw [lagb_pof]; apply pof4_eq <;> norm_num <;> try ring1)""",
        "inv-step:scale": """!intro i hi
by_cases h : i < k
· obtain ⟨t0, t1, t2, t3⟩ := h_inv_4 i (by omega)
  refine ⟨?_, ?_, ?_, ?_⟩ <;> (repeat first | refine (if_pos (by omega)).trans ?_ | refine (if_neg (by omega)).trans ?_) <;> assumption
· have hik : i = k := by omega
  subst hik
  refine ⟨?_, ?_, ?_, ?_⟩ <;> (repeat first | refine (if_pos (by omega)).trans ?_ | refine (if_neg (by omega)).trans ?_) <;> (rw [eval_pof4]; norm_num; ring1)""",
        "safe:index": """!first
  | omega
  | (rw [(h_inv_3 _ (by omega)).1, lagb_len]; norm_num; done)
  | (rw [(h_inv_3 _ (by omega)).2.1, lagb_len]; norm_num; done)
  | (rw [(h_inv_3 _ (by omega)).2.2.1, lagb_len]; norm_num; done)
  | (rw [(h_inv_3 _ (by omega)).2.2.2, lagb_len]; norm_num; done)""",
        "ensures:interpolants": """!intro i hi
have hk : i < data_n := by omega
obtain ⟨t0, t1, t2, t3⟩ := h_inv_4 i (by omega)
obtain ⟨d0, d1, d2, d3⟩ := h_inv_3 i (by omega)
obtain ⟨y0, y1, y2, y3⟩ := h_inv_2 i (by omega)
rw [show (if 4 * i ≤ r_multi_inv_n then 4 * i else r_multi_inv_n) = 4 * i from if_pos (by omega)]
rw [h_post_1 (4 * i) (by omega), h_post_1 (4 * i + 1) (by omega), h_post_1 (4 * i + 2) (by omega), h_post_1 (4 * i + 3) (by omega)]
rw [d0, d1, d2, d3, y0, y1, y2, y3, t0, t1, t2, t3]
rw [lag4_pof _ _ _ _ _ _ _ _ _ _ _ _ rfl rfl rfl rfl]
apply pof4_eq <;> norm_num [lagb_c0, lagb_c1, lagb_c2, lagb_c3] <;> ring1""",
        "*": "!interp_auto"}

    def instances(self, ex):
        def one(ex):
            ex.sealedP = sealed_polyclass(ex)
            four = ("seq", ("tuple", (("s", FLD),) * 4))
            xs, ys = ex.fresh("xsets", four), ex.fresh("ysets", four)
            ex.add_fact("req", eq(T(xs.n), T(ys.n)))
            return [FLD.cls, ex.alloc(xs, "list"), ex.alloc(ys, "list")]
        return {"any": one}

    def requires(self, ex, field, xs, ys):
        return [("distinct", Forall_range(0, T(xs.n), lambda k: And(*[ne(xs.get(k)[i], xs.get(k)[j]) for i in range(4) for j in range(i)])))]

    def result(self, ex, *a):
        return ("seq", ("s", PLY))

    def ensures(self, ex, r, field, xs, ys):
        return [("length", eq(T(r.n), T(xs.n))),
                ("interpolants", Forall_range(0, T(xs.n), lambda k: eq(r.get(k), app("lag4", PLY, *[as_term(t, FLD) for t in tuple(xs.get(k)) + tuple(ys.get(k))]))))]


class C12(Property):
    id = "C12"
    contracts = (MultiInv, Zpoly, Lagrange2, Lagrange4, Lagrange, MultiInterp4)
    lib = ("Pv.Interp",)
    theorems = ("vanish_root", "vanish_len", "lag2_spec", "lag4_spec", "lagn_spec")
    assumptions = ("field elements satisfy the field contract proved in C01 and C07; polynomials the contract proved in C04 and C05",)

    def setup(self, w):
        hooks(w)


PROPERTY = C12()
