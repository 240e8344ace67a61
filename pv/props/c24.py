"""C24: zero-knowledge proofs of graph isomorphism."""
from ..check import Property
from ..contract import *
from ..sorts import *

MOD = "starks.zero_knowledge:"
GRAPH = ("seq", ("tuple", (("s", INT), ("s", INT))))
FN = FnSort([INT], INT)


def side(g, j):
    return Lam(lambda i: T(g.get(i)[j]))


def three(g):
    return T(g.n), side(g, 0), side(g, 1)


def vertex(g, v):
    return app("isvertex", PROP, *three(g), v)


def graph(ex, name="G"):
    return ex.fresh(name, GRAPH)


def lst(ex, s):
    return ex.alloc(s, "list")


def callable_(ex, name):
    """an arbitrary function on integers"""
    f = var(name, FN)
    return f, SymFunc(name, lambda ex, a, k: apply(f, T(a[0])))


def within(g, m):
    return Forall_range(0, T(g.n), lambda i: And(le(T(g.get(i)[0]), m), le(T(g.get(i)[1]), m)))


class Vertices(Contract):
    """the largest label"""
    qual = MOD + "num_vertices"
    hints = {"ensures:value": "!refine (maxlabel_eq (fun i h0 h1 => ⟨by have := h_max (2*i) ⟨by omega, by omega⟩; rwa [if_pos (by omega), show 2*i/2 = i by omega] at this, by have := h_max (2*i+1) ⟨by omega, by omega⟩; rwa [if_neg (by omega), show (2*i+1)/2 = i by omega] at this⟩) ?_).symm <;> (obtain ⟨i, h0, h1, h2⟩ := h_max_1; refine ⟨i/2, by omega, by omega, ?_⟩; split_ifs at h2; exacts [.inl h2.symm, .inr h2.symm])"}

    def instances(self, ex):
        return {"any": lambda ex: [lst(ex, graph(ex))]}

    def requires(self, ex, G):
        return [("edges", lt(0, T(ex.seq(G).n)))]

    def result(self, ex, G):
        return ("s", INT)

    def value(self, ex, G):
        return app("maxlabel", INT, *three(ex.seq(G)))


class Shuffled(Contract):
    """a permutation of 0..n-1"""
    qual = MOD + "random_permutation"
    hints = {}

    def instances(self, ex):
        return {"any": lambda ex: [ex.fresh("n", ("s", INT))]}

    def requires(self, ex, n):
        return [("positive", le(0, T(n)))]

    def result(self, ex, n):
        return ("seq", ("s", INT))

    def ensures(self, ex, r, n):
        r = ex.seq(r)
        return [("length", eq(T(r.n), n)), ("permutation", app("isperm", PROP, T(n), Lam(lambda i: T(r.get(i)))))]


def have(ex, lab, p, name="have"):
    ex.oblige("have:" + lab, p)
    ex.add_fact(name, p)


def pair(ex):
    """a graph with vertices 1..n, a permutation list, and the relabelled graph"""
    G1 = graph(ex, "G")
    n = ex.fresh("n", ("s", INT))
    ref = lst(ex, G1)
    ex.add_fact("req", And(lt(0, T(G1.n)), le(1, n)))
    ex.add_fact("low", Forall_range(0, T(G1.n), lambda i: And(le(1, T(G1.get(i)[0])), le(1, T(G1.get(i)[1])))))
    ex.add_fact("high", Forall_range(0, T(G1.n), lambda i: And(le(T(G1.get(i)[0]), n), le(T(G1.get(i)[1]), n))))
    ex.add_fact("all", Forall_range(1, add(T(n), 1), lambda v: vertex(G1, v)))
    have(ex, "vertices", eq(app("maxlabel", INT, *three(G1)), n))
    P = ex.fresh("P", ("seq", ("s", INT)))
    ex.add_fact("perm", eq(T(P.n), n))
    ex.add_fact("perm", app("isperm", PROP, T(n), Lam(lambda i: T(P.get(i)))))
    L = lst(ex, P)
    f = ex.call(ex.get_function(MOD + "make_permutation_function"), [L])
    G2 = ex.call(ex.get_function(MOD + "apply_isomorphism"), [ref, f])
    S2 = ex.seq(G2)
    have(ex, "relabelled", eq(app("maxlabel", INT, *three(S2)), n))
    have(ex, "range", Forall_range(0, T(S2.n), lambda i: And(le(1, T(S2.get(i)[0])), le(1, T(S2.get(i)[1])))), "low")
    have(ex, "range", Forall_range(0, T(S2.n), lambda i: And(le(T(S2.get(i)[0]), n), le(T(S2.get(i)[1]), n))), "high")
    return G1, ref, n, P, L, G2


class Permutations(Scenarios):
    qual = MOD + "make_permutation_function"
    name = "inverse"
    hints = {
        "ensures:low": "!have := h_req_3.1 (i + -1) (by omega) (by omega); beta_reduce at this; omega",
        "ensures:high": "!have := h_req_3.1 (i + -1) (by omega) (by omega); beta_reduce at this; omega",
        "ensures:back": "!have := h_req_3.2.1 _ (i + -1) h_index_of (by omega) (by omega) (by omega) h_index_of_2; omega",
        "safe:index-of": "!first | exact ⟨i + -1, by omega, by omega, rfl⟩ | (obtain ⟨k, h0, h1, h2⟩ := h_req_3.2.2 (i + -1) (by omega) (by omega); exact ⟨k, h0, by omega, h2⟩)",
    }

    def s_inverse(self, ex):
        n, i = ex.fresh("n", ("s", INT)), ex.fresh("i", ("s", INT))
        P = ex.fresh("P", ("seq", ("s", INT)))
        ex.add_fact("req", And(eq(T(P.n), n), le(1, i), le(i, n)))
        ex.add_fact("req", app("isperm", PROP, T(n), Lam(lambda i: T(P.get(i)))))
        L = lst(ex, P)
        f = ex.call(ex.get_function(MOD + "make_permutation_function"), [L])
        g = ex.call(ex.get_function(MOD + "make_inverse_permutation_function"), [L])
        x = ex.call(f, [i])
        ex.oblige("ensures:low", le(1, T(x)))
        ex.oblige("ensures:high", le(T(x), n))
        ex.oblige("ensures:back", eq(T(ex.call(g, [x])), i))
        ex.oblige("ensures:forth", eq(T(ex.call(f, [ex.call(g, [i])])), i))


class Verify(Scenarios):
    """acceptance is exactly being an isomorphism"""
    qual = MOD + "ZKVerifier"
    name = "accepts"
    hints = {
        "ensures:accepts": "!exact accepted_iff",
        "ensures:isomorphic": "!have a1 := accepted_iff.1 ⟨h_both, h_both_1, h_both_2⟩; have a2 := accepted_iff.1 ⟨h_both_3, h_both_4, h_both_5⟩; exact both_answers a1.1 a2.1 a1.2 a2.2",
    }
    asserts = "raise"

    def verifier(self, ex):
        G1, G2 = graph(ex, "G"), graph(ex, "K")
        ex.add_fact("req", And(lt(0, T(G1.n)), lt(0, T(G2.n))))
        ex.add_fact("req", eq(T(0), T(0)))
        r1, r2 = lst(ex, G1), lst(ex, G2)
        try:
            v = ex.call(ex.get_function(MOD + "ZKVerifier"), [r1, r2])
        except PyRaise as e:
            if e.exc == "AssertionError":
                from ..exec import PathEnd
                raise PathEnd()
            raise
        return G1, G2, v

    def answer(self, ex, v, choice, H, name):
        f, fv = callable_(ex, name)
        r = ex.call_method(v, "accepts", [fv, choice, lst(ex, H)])
        return f, prop_of(ex.truth(r))

    def exact(self, ex, choice):
        G1, G2, v = self.verifier(ex)
        H = graph(ex, "H")
        f, r = self.answer(ex, v, choice, H, "f")
        ok = And(app("maps", PROP, *three(H), *three((G1, G2)[choice - 1]), f), app("onetoone", PROP, *three(H), f))
        ex.oblige("ensures:accepts", eq(r, ok))

    def s_first(self, ex):
        self.exact(ex, 1)

    def s_second(self, ex):
        self.exact(ex, 2)

    def s_sound(self, ex):
        G1, G2, v = self.verifier(ex)
        H = graph(ex, "H")
        f, r = self.answer(ex, v, 1, H, "f")
        g, q = self.answer(ex, v, 2, H, "g")
        ex.add_fact("both", r)
        ex.add_fact("both", q)
        ex.oblige("ensures:isomorphic", app("isomorphic", PROP, *three(G1), *three(G2)))


class Honest(Scenarios):
    """true statements are always accepted"""
    qual = MOD + "ZKProver"
    name = "honest"
    hints = {
        "have:vertices": "!exact maxlabel_eq (fun i h0 h1 => h_high i ⟨h0, h1⟩) (h_all n ⟨by omega, by omega⟩)",
        "have:relabelled": "!exact maxlabel_perm h_req_1 h_low h_high h_all h_perm_1",
        "have:range": "!intro i hi; have := perm_range h_perm_1 h_low h_high i hi; omega",
        "assert": "!rw [h_have, h_have_1]",
        "safe:pre": "!first | (rw [h_have]; omega) | (rw [h_have_1]; omega)",
        "safe:index": "!have q0 := h_low _ ⟨h_idx, h_idx_1⟩; have q1 := h_high _ ⟨h_idx, h_idx_1⟩; first | omega | (rw [h_have] at h_post; omega) | (have q2 := h_low_1 _ ⟨h_idx, h_idx_1⟩; have q3 := h_high_1 _ ⟨h_idx, h_idx_1⟩; rw [h_have_1] at h_post; omega)",
        "safe:index-of": "!have q0 := h_low _ ⟨h_idx, h_idx_1⟩; have q1 := h_high _ ⟨h_idx, h_idx_1⟩; first | (rw [h_have] at h_post; exact ⟨_, by omega, by omega, rfl⟩) | (have q2 := h_low_1 _ ⟨h_idx, h_idx_1⟩; have q3 := h_high_1 _ ⟨h_idx, h_idx_1⟩; rw [h_have_1] at h_post; exact ⟨_, by omega, by omega, rfl⟩)",
        "ensures:accepted": "!first | (rw [h_have] at h_post h_post_1; intro i hi; have e1 := h_post_1.2.1 _ _ (h_index_of i hi) (by have := h_index_of_1 i hi; omega) (by have := h_low i hi; omega) (by have := h_high i hi; omega) (h_index_of_2 i hi); have e2 := h_post_1.2.1 _ _ (h_index_of_3 i hi) (by have := h_index_of_4 i hi; omega) (by have := h_low i hi; omega) (by have := h_high i hi; omega) (h_index_of_5 i hi); constructor <;> first | omega | simp only [e1, e2]) | (rw [h_have_1] at h_post h_post_1; intro i hi; have e1 := h_post_1.2.1 _ _ (h_index_of i hi) (by have := h_index_of_1 i hi; omega) (by have := h_low_1 i hi; omega) (by have := h_high_1 i hi; omega) (h_index_of_2 i hi); have e2 := h_post_1.2.1 _ _ (h_index_of_3 i hi) (by have := h_index_of_4 i hi; omega) (by have := h_low_1 i hi; omega) (by have := h_high_1 i hi; omega) (h_index_of_5 i hi); constructor <;> first | omega | simp only [e1, e2]) | (rw [h_have] at h_post_1; exact distinct_perm h_post_1 h_low h_high) | (rw [h_have] at h_post_1; exact (distinct_perm h_post_1 h_low h_high).trans (distinct_perm h_perm_1 h_low h_high).symm) | (rw [h_have_1] at h_post_1; exact distinct_perm' h_post_1 h_low_1 h_high_1)",
    }

    def go(self, ex, choice):
        G1, ref, n, P, L, G2 = pair(ex)
        p = ex.call(ex.get_function(MOD + "ZKProver"), [ref, G2, L])
        v = ex.call(ex.get_function(MOD + "ZKVerifier"), [ref, G2])
        iso, H = ex.seq(ex.call_method(p, "send_isomorphic_copy", [])).items
        w = ex.call_method(p, "prove_isomorphic_to", [iso, choice])
        ex.oblige("ensures:accepted", prop_of(ex.truth(ex.call_method(v, "accepts", [w, choice, H]))))

    def s_first(self, ex):
        self.go(ex, 1)

    def s_second(self, ex):
        self.go(ex, 2)

    def s_simulated(self, ex):
        G1, ref, n, P, L, G2 = pair(ex)
        v = ex.call(ex.get_function(MOD + "ZKVerifier"), [ref, G2])
        H, choice, w = ex.seq(ex.call(ex.get_function(MOD + "simulate_protocol"), [ref, G2])).items
        ex.oblige("ensures:accepted", prop_of(ex.truth(ex.call_method(v, "accepts", [w, choice, H]))))


class C24(Property):
    id = "C24"
    contracts = (Vertices, Shuffled, Permutations, Verify, Honest)
    lib = ("Pv.Perm",)
    assumptions = ("random.shuffle permutes its argument; random.choice returns an entry",
                   "vertices are integers; the graph's vertices 1..n all lie on edges")


PROPERTY = C24()
