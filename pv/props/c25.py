"""C25: zero-knowledge proofs of 3-colorability."""
from ..check import Property
from ..contract import *
from ..sorts import *
from ..values import *
from .c23 import functions, least, image, hard, xor, isbit, FN, MOD as COMMITMENT
from .c24 import graph, lst, three, Vertices, Shuffled, MOD as ZK

MOD = "starks.zkp_3_coloring:"


def bitsof(x, i):
    return app("bitat", INT, T(x), sub(1, i))


def low(S, c, m, ex):
    """the value of the first m opened bits"""
    return app("bitsval", INT, m, Lam(lambda i: xor(c.get(i)[1], hard(ex, S.get(i)))))


class SchemeSeal(Seal):
    """a commitment to a two-bit integer, as its contract (C23) describes it"""

    def getattr(self, ex, v, name):
        def secret(i):
            return app("isecret", INT, v, T(i))
        if name == "reveal":
            return SymFunc(name, lambda ex, a, k: Seq([secret(0), secret(1)]))
        if name == "commit":
            def commit(ex, a, k):
                x = T(a[0])
                ex.safe("pre:commit:low", le(0, x))
                ex.safe("pre:commit:high", lt(x, 4))
                return Seq([(image(ex, secret(i)), xor(hard(ex, secret(i)), bitsof(x, T(i)))) for i in (0, 1)])
            return SymFunc(name, commit)
        return NotImplemented


def opened(ex, S, c):
    return And(eq(T(S.n), 2), eq(T(c.n), 2), *[eq(T(c.get(i)[0]), image(ex, S.get(i))) for i in (0, 1)])


def decoded(ex, S, c):
    """the number that the first bits open to"""
    return app("bitsval", INT, least(T(2), least(T(S.n), T(c.n))), Lam(lambda i: xor(c.get(i)[1], hard(ex, S.get(i)))))


class VerifierSeal(Seal):
    def getattr(self, ex, v, name):
        def ready(ex, a):
            S, c = ex.seq(a[0]), ex.seq(a[1])
            if S.items is not None:
                S = Seq(None, 2, lambda i: merge(eq(T(i), 0), S0[0], S0[1]), ("s", INT)) if (S0 := S.items) and len(S0) == 2 else S
            if c.items is not None:
                c0 = c.items
                if len(c0) != 2:
                    raise Unsupported("commitment of another length")
                c = Seq(None, 2, lambda i: merge(eq(T(i), 0), c0[0], c0[1]), None)
            ex.safe("pre:bits", Forall_range(0, T(c.n), lambda i: isbit(c.get(i)[1])))
            return S, c
        if name == "decode":
            def decode(ex, a, k):
                S, c = ready(ex, a)
                ex.safe("pre:some", And(lt(0, T(S.n)), lt(0, T(c.n))))
                return decoded(ex, S, c)
            return SymFunc(name, decode)
        if name == "verify":
            return SymFunc(name, lambda ex, a, k: opened(ex, *ready(ex, a)))
        return NotImplemented


SCHEME = sealed_class("ColorScheme", SchemeSeal(), "Int", ring=False)
VERIFIER = sealed_class("ColorVerifier", VerifierSeal(), "Int", ring=False)


def hook(seal):
    def h(ex, cls, a, k):
        if not (a and T(a[0]).key == T(2).key):
            return NotImplemented
        ex.oblige("pre:functions", And(*[eq(T(ex.call(g, [var("x", INT)])), apply(w, var("x", INT))) for g, w in zip(a[1:3], (ex.ghost_f, ex.ghost_h))]))
        return ex.fresh(seal.name, ("s", seal))
    return h


COLORS = FnSort([INT], INT)


class Coloring(Scenarios):
    qual = MOD + "ZK3ColProver"
    name = "round"
    EDGE = "!have e1 := h_low _ ⟨h_rnd, h_rnd_1⟩ <;> have e2 := h_high _ ⟨h_rnd, h_rnd_1⟩ <;> "
    COLS = "!have c1 := h_colors pick ⟨by omega, by omega⟩ <;> have c2 := h_colors pick_1 ⟨by omega, by omega⟩ <;> have p1 := h_post_1.1 _ c1.1 (by omega) <;> have p2 := h_post_1.1 _ c2.1 (by omega) <;> "
    hints = {
        "have:high": "!exact fun i hi => maxlabel_ge i hi",
        "have:positive": "!have := h_low 0 ⟨le_rfl, h_req⟩; have := h_high 0 ⟨le_rfl, h_req⟩; omega",
        "safe:index": "!first | exact (h_colors _ ⟨by omega, by omega⟩).1 | exact lt_of_le_of_lt (h_colors _ ⟨by omega, by omega⟩).2 (by omega)",
        "safe:pre:commit:low": "!exact (h_post_1.1 _ (h_colors _ ⟨by omega, by omega⟩).1 (lt_of_le_of_lt (h_colors _ ⟨by omega, by omega⟩).2 (by norm_num))).1",
        "safe:pre:commit:high": "!exact lt_trans (h_post_1.1 _ (h_colors _ ⟨by omega, by omega⟩).1 (lt_of_le_of_lt (h_colors _ ⟨by omega, by omega⟩).2 (by norm_num))).2 (by norm_num)",
        "have:lowest": EDGE + "(split_ifs at h_pick <;> omega)",
        "have:highest": EDGE + "(split_ifs at h_pick_1 <;> omega)",
        "ensures:accepted": COLS + "(intro h; rw [two_bits p1.1 (by omega) (by simp [masked]) (by simp [masked]), two_bits p2.1 (by omega) (by simp [masked]) (by simp [masked])] at h; have e := h_post_1.2.1 _ _ c1.1 (by omega) c2.1 (by omega) h; have e3 := h_proper _ ⟨h_rnd, h_rnd_1⟩; rw [h_pick, h_pick_1] at e; split_ifs at e <;> first | exact e3 e | exact e3 e.symm)",
        "caught|ensures:*": COLS + "(rw [two_bits p1.1 (by omega) (by simp [masked]) (by simp [masked]), two_bits p2.1 (by omega) (by simp [masked]) (by simp [masked]), h_same])",
        "not_an_edge|*": "!(obtain ⟨i, h0, h1, h2, h3⟩ := h_branch) <;> (have := h_req_1 i ⟨h0, h1⟩) <;> exfalso <;> (split_ifs at h2 h3 <;> omega)",
        "no-exception:*": "!exact h_branch ⟨_, h_rnd, h_rnd_1, by split_ifs <;> omega, by split_ifs <;> omega⟩",
        "safe:key": EDGE + "(split_ifs <;> omega)",
        "safe:pre:bits": "!first | (intro i hi; split_ifs <;> exact ixor_bit (h_hard _) bitat_bit) | exact fun i hi => h_bits _ _",
        "safe:pre:some": "!exact h_lens _",
    }

    def start(self, ex):
        f, h = functions(ex)
        G = graph(ex)
        m = app("maxlabel", INT, *three(G))
        ex.add_fact("req", lt(0, T(G.n)))
        ex.add_fact("low", Forall_range(0, T(G.n), lambda i: And(le(1, T(G.get(i)[0])), le(1, T(G.get(i)[1])))))
        have(ex, "high", Forall_range(0, T(G.n), lambda i: And(le(T(G.get(i)[0]), m), le(T(G.get(i)[1]), m))), "high")
        have(ex, "positive", le(1, m))
        ex.ghost_m = m
        return f, h, G, m

    def chosen(self, ex, e):
        """what the entries of the verifier's edge list are"""
        u, w = e
        have(ex, "ordered", le(u, w))
        have(ex, "lowest", le(1, u))
        have(ex, "highest", le(w, ex.ghost_m))

    def coloring(self, ex, m):
        col = ex.ghost_col = var("col", COLORS)
        ex.add_fact("colors", Forall_range(1, add(m, 1), lambda v: And(le(0, apply(col, v)), le(apply(col, v), 2))))
        return ex.alloc(SymDict(lambda q: And(le(1, q), le(q, m)), lambda q: apply(col, q), INT, ("s", INT)), "dict")

    def round(self, ex, premise):
        """an honest prover's answer to the verifier's choice"""
        f, h, G, m = self.start(ex)
        D = self.coloring(ex, m)
        col = ex.ghost_col
        if premise == "proper":
            ex.add_fact("proper", Forall_range(0, T(G.n), lambda i: Not(eq(apply(col, T(G.get(i)[0])), apply(col, T(G.get(i)[1]))))))
        g = lst(ex, G)
        p = ex.call(ex.get_function(MOD + "ZK3ColProver"), [g, D, f, h])
        v = ex.call(ex.get_function(MOD + "ZK3ColVerifier"), [g, f, h])
        c = ex.call_method(p, "commit_to_coloring", [])
        ex.ghost_named_choice = self.chosen
        e = ex.seq(ex.call_method(v, "choose_edge", [c])).items
        if premise == "improper":
            ex.add_fact("same", eq(apply(col, T(e[0])), apply(col, T(e[1]))))
        o = ex.call_method(p, "reveal_colors", list(e))
        return prop_of(ex.truth(ex.call_method(v, "accepts", [o])))

    def s_honest(self, ex):
        ex.oblige("ensures:accepted", self.round(ex, "proper"))

    def s_caught(self, ex):
        ex.oblige("ensures:rejected", Not(self.round(ex, "improper")))

    def s_protocol(self, ex):
        f, h, G, m = self.start(ex)
        ex.ghost_owp = f
        D = self.coloring(ex, m)
        col = ex.ghost_col
        ex.add_fact("proper", Forall_range(0, T(G.n), lambda i: Not(eq(apply(col, T(G.get(i)[0])), apply(col, T(G.get(i)[1]))))))
        ex.ghost_named_choice = self.chosen
        ex.oblige("ensures:accepted", prop_of(ex.truth(ex.call(ex.get_function(MOD + "run_protocol"), [lst(ex, G), D, ex.fresh("bits", ("s", INT))]))))

    def s_exact(self, ex):
        f, h, G, m = self.start(ex)
        ln, im, bt = var("len", COLORS), var("img", FnSort([INT, INT], INT)), var("bit", FnSort([INT, INT], INT))

        def com(q):
            return Seq(None, apply(ln, q), lambda i: (apply(im, q, T(i)), apply(bt, q, T(i))), None)
        C = ex.alloc(SymDict(lambda q: And(le(1, q), le(q, m)), com, INT, None), "dict")
        ex.add_fact("lens", Forall(lambda q: lt(0, apply(ln, q))))
        ex.add_fact("bits", Forall(lambda q: Forall(lambda i: isbit(apply(bt, q, i)))))
        v = ex.call(ex.get_function(MOD + "ZK3ColVerifier"), [lst(ex, G), f, h])
        ex.ghost_named_choice = self.chosen
        e = ex.seq(ex.call_method(v, "choose_edge", [C])).items
        S, Z = ex.fresh("S", ("seq", ("s", INT))), ex.fresh("Z", ("seq", ("s", INT)))
        ex.add_fact("req", And(lt(0, T(S.n)), lt(0, T(Z.n))))
        r = prop_of(ex.truth(ex.call_method(v, "accepts", [(lst(ex, S), lst(ex, Z))])))
        a, b = com(T(e[0])), com(T(e[1]))
        ex.oblige("ensures:exact", eq(r, And(opened(ex, S, a), opened(ex, Z, b), Not(eq(decoded(ex, S, a), decoded(ex, Z, b))))))

    def s_not_an_edge(self, ex):
        f, h, G, m = self.start(ex)
        D = self.coloring(ex, m)
        col = ex.ghost_col
        p = ex.call(ex.get_function(MOD + "ZK3ColProver"), [lst(ex, G), D, f, h])
        ex.call_method(p, "commit_to_coloring", [])
        u, w = ex.fresh("u", ("s", INT)), ex.fresh("w", ("s", INT))
        ex.add_fact("req", Forall_range(0, T(G.n), lambda i: And(*[Not(And(eq(T(G.get(i)[0]), x), eq(T(G.get(i)[1]), y))) for x, y in ((u, w), (w, u))])))
        expect_raise(ex, ["Exception"], lambda: ex.call_method(p, "reveal_colors", [u, w]), "raises")


def have(ex, lab, p, name="have"):
    ex.oblige("have:" + lab, p)
    ex.add_fact(name, p)


class C25(Property):
    id = "C25"
    contracts = (Coloring,)
    uses = (Vertices, Shuffled)
    lib = ("Pv.Perm", "Pv.Bits")
    assumptions = ("random.choice returns an entry of the list; random.shuffle permutes its argument",
                   "the bit commitments behave as C23 proves of them",
                   "the second entry of every commitment is a bit")

    def setup(self, w):
        # any one-way function and predicate with values 0 and 1
        w.call_hooks["starks.blum_blum_shub:blum_blum_shub"] = lambda ex, f, a, k: ex.ghost_owp
        w.call_hooks["starks.blum_blum_shub:parity"] = lambda ex, f, a, k: hard(ex, a[0])
        # defaults of the parameters that every scenario passes
        w.externals[MOD + "ONE_WAY_PERMUTATION"] = Opaque("ONE_WAY_PERMUTATION")
        w.externals[MOD + "HARDCORE_PREDICATE"] = Opaque("HARDCORE_PREDICATE")
        w.new_hooks[COMMITMENT + "BBSIntCommitmentScheme"] = hook(SCHEME)
        w.new_hooks[COMMITMENT + "BBSIntCommitmentVerifier"] = hook(VERIFIER)


PROPERTY = C25()
