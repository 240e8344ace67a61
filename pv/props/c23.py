"""C23: bit and integer commitments."""
from ..check import Property
from ..contract import *
from ..sorts import *
from ..values import *

MOD = "starks.commitment:"
BBS = "starks.blum_blum_shub:"
FN = FnSort([INT], INT)
COMMIT = ("tuple", (("s", INT), ("s", INT)))


def isbit(x):
    return app("isbit", PROP, T(x))


def xor(a, b):
    return app("ixor", INT, T(a), T(b))


def least(a, b):
    return ite(le(a, b), a, b)


def functions(ex):
    """an arbitrary one-way function and an arbitrary predicate with values 0 and 1"""
    f, h = var("f", FN), var("h", FN)
    ex.ghost_f, ex.ghost_h = f, h
    ex.add_fact("hard", Forall(lambda x: isbit(apply(h, x))))
    return SymFunc("f", lambda ex, a, k: apply(f, T(a[0]))), SymFunc("h", lambda ex, a, k: apply(h, T(a[0])))


def image(ex, s):
    return apply(ex.ghost_f, T(s))


def hard(ex, s):
    return apply(ex.ghost_h, T(s))


class SchemeSeal(Seal):
    """a bit commitment scheme inside an integer one: what the contracts of the class say"""

    def getattr(self, ex, v, name):
        s = app("bsecret", INT, v)
        if name == "secret":
            return s
        if name == "reveal":
            return SymFunc(name, lambda ex, a, k: s)
        if name == "commit":
            def commit(ex, a, k):
                ex.safe("pre:commit:bit", isbit(a[0]))
                return image(ex, s), xor(hard(ex, s), a[0])
            return SymFunc(name, commit)
        return NotImplemented


class VerifierSeal(Seal):
    def getattr(self, ex, v, name):
        if name == "decode":
            def decode(ex, a, k):
                ex.safe("pre:decode:bit", isbit(a[1][1]))
                return xor(a[1][1], hard(ex, a[0]))
            return SymFunc(name, decode)
        if name == "verify":
            def verify(ex, a, k):
                ex.safe("pre:verify:bit", isbit(a[1][1]))
                return eq(T(a[1][0]), image(ex, a[0]))
            return SymFunc(name, verify)
        return NotImplemented


SCHEME = sealed_class("BitScheme", SchemeSeal(), "Int", ring=False)
VERIFIER = sealed_class("BitVerifier", VerifierSeal(), "Int", ring=False)


class Bit(Scenarios):
    """one committed bit"""
    qual = MOD + "BBSBitCommitmentScheme"
    name = "bit"
    hints = {
        "safe:bitop-nonneg": "!first | exact (h_hard _).1 | exact h_req.1 | exact (ixor_bit (h_hard _) h_req).1 | exact (ixor_bit h_req (h_hard _)).1 | exact (ixor_bit (ixor_bit (h_hard _) h_req) (h_hard _)).1",
        "ensures:verifies": "!exact (ixor_back (ixor_bit (h_hard _) h_req).1).symm",
        "ensures:decodes": "!first | exact ixor_ixor h_req.1 | exact ixor_back h_req.1",
        "ensures:exact": "!exact ⟨fun h => h.1, fun h => ⟨h, (ixor_back h_req.1).symm⟩⟩",
        "ensures:consistent": "!exact (ixor_back h_req.1).symm",
        "ensures:bit": "!exact ixor_bit h_req (h_hard _)",
        "ensures:binding": "!rintro ⟨_, _, _, _, h⟩; rw [h]",
    }

    def s_honest(self, ex):
        f, h = functions(ex)
        b, n = ex.fresh("b", ("s", INT)), ex.fresh("n", ("s", INT))
        ex.add_fact("req", And(isbit(b), le(0, n)))
        s = ex.call(ex.get_function(MOD + "BBSBitCommitmentScheme"), [f, h, n])
        v = ex.call(ex.get_function(MOD + "BBSBitCommitmentVerifier"), [f, h])
        c = ex.call_method(s, "commit", [b])
        o = ex.call_method(s, "reveal", [])
        ex.oblige("ensures:image", eq(T(c[0]), image(ex, o)))
        ex.oblige("ensures:masked", eq(T(c[1]), xor(hard(ex, o), b)))
        ex.oblige("ensures:verifies", prop_of(ex.truth(ex.call_method(v, "verify", [o, c]))))
        ex.oblige("ensures:decodes", eq(T(ex.call_method(v, "decode", [o, c])), b))

    def opening(self, ex, v, c, n):
        s = ex.fresh(n, ("s", INT))
        r = prop_of(ex.truth(ex.call_method(v, "verify", [s, c])))
        return s, r, T(ex.call_method(v, "decode", [s, c]))

    def s_opening(self, ex):
        f, h = functions(ex)
        c = ex.fresh("c", COMMIT)
        ex.add_fact("req", isbit(c[1]))
        v = ex.call(ex.get_function(MOD + "BBSBitCommitmentVerifier"), [f, h])
        s, r, d = self.opening(ex, v, c, "s")
        ex.oblige("ensures:exact", eq(r, eq(T(c[0]), image(ex, s))))
        ex.oblige("ensures:value", eq(d, xor(c[1], hard(ex, s))))
        ex.oblige("ensures:consistent", eq(T(c[1]), xor(hard(ex, s), d)))
        ex.oblige("ensures:bit", isbit(d))
        s2, r2, d2 = self.opening(ex, v, c, "z")
        ex.oblige("ensures:binding", Imp(And(r, r2, eq(hard(ex, s), hard(ex, s2))), eq(d, d2)))


class Int(Scenarios):
    """a committed integer"""
    qual = MOD + "BBSIntCommitmentScheme"
    name = "int"
    digit_str = True
    SAME = "!(try subst h_branch) <;> (try subst h_branch_1) <;> (try subst h_branch_2) <;> (try subst h_branch_3) <;> (try simp only [ite_self, le_refl, if_true, true_and] at *) <;> "
    hints = {
        "have:fits": "!exact bitlen_le h_req_1 h_req h_req_2",
        "honest|safe:*": "!(try simp only [pad_eq h_req_1, masked] at *) <;> first | exact bitat_bit | exact ixor_bit (h_hard _) bitat_bit | exact bitat_bit.1 | exact le_trans bitat_bit.2 (by norm_num) | exact fun i hi => bitat_bit | exact h_hard _",
        "honest|ensures:decodes": "!(try simp only [pad_eq h_req_1, masked] at *) <;> exact bitsval_bits (by omega) h_req_1 h_req_2 (fun i h0 h1 => rfl)",
        "honest|ensures:bits": "!intro i hi <;> simp only [pad_eq h_req_1] <;> congr 2 <;> ring",
        "decode|safe:*": "!first | exact h_req_1 _ ⟨h_idx, by split_ifs at h_idx_1 <;> omega⟩ | exact (ixor_bit (h_safe _ ⟨h_idx, h_idx_1⟩) (h_hard _)).1 | exact le_trans (ixor_bit (h_safe _ ⟨h_idx, h_idx_1⟩) (h_hard _)).2 (by norm_num) | exact fun i hi => ixor_bit (h_safe i hi) (h_hard _) | (split_ifs <;> omega)",
        "decode|ensures:value": "!congr 1 <;> split_ifs <;> omega",
        "opening|safe:*": SAME + "first | exact h_req_1 _ ⟨h_idx, h_idx_1⟩ | exact (ixor_bit (h_req_1 _ ⟨h_idx, h_idx_1⟩) (h_hard _)).1 | exact le_trans (ixor_bit (h_req_1 _ ⟨h_idx, h_idx_1⟩) (h_hard _)).2 (by norm_num) | exact fun i hi => ixor_bit (h_req_1 i hi) (h_hard _) | omega",
        "opening|ensures:exact": SAME + "first | done | rfl | exact fun h => h_branch ⟨h.1.symm, h.1.trans h.2.1.symm⟩ | simp",
        "opening|ensures:value": SAME + "first | done | rfl",
        "opening|ensures:low": SAME + "exact (bitsval_range (by omega) (fun i h0 h1 => ixor_bit (h_req_1 i ⟨h0, h1⟩) (h_hard _))).1",
        "opening|ensures:high": SAME + "exact (bitsval_range (by omega) (fun i h0 h1 => ixor_bit (h_req_1 i ⟨h0, h1⟩) (h_hard _))).2",
        "opening|ensures:binding": SAME + "(intro h; exact bitsval_congr fun i h0 h1 => by rw [h i ⟨h0, h1⟩])",
    }

    def start(self, ex):
        f, h = functions(ex)
        ex.ghost_seal = True
        n = ex.fresh("n", ("s", INT))
        ex.add_fact("req", le(1, n))
        return f, h, n

    def s_honest(self, ex):
        f, h, n = self.start(ex)
        x = ex.fresh("x", ("s", INT))
        ex.add_fact("req", And(le(0, x), lt(x, app("ipow", INT, T(2), n))))
        ex.oblige("have:fits", le(app("bitlen", INT, x), n))
        ex.add_fact("have", le(app("bitlen", INT, x), n))
        s = ex.call(ex.get_function(MOD + "BBSIntCommitmentScheme"), [n, f, h])
        v = ex.call(ex.get_function(MOD + "BBSIntCommitmentVerifier"), [n, f, h])
        c = ex.call_method(s, "commit", [x])
        o = ex.call_method(s, "reveal", [])
        C, O = ex.seq(c), ex.seq(o)
        ex.oblige("ensures:commits", And(eq(T(C.n), n), eq(T(O.n), n)))
        ex.oblige("ensures:images", Forall_range(0, n, lambda i: eq(T(C.get(i)[0]), image(ex, O.get(i)))))
        ex.oblige("ensures:bits", Forall_range(0, n, lambda i: eq(T(C.get(i)[1]), xor(hard(ex, O.get(i)), app("bitat", INT, x, sub(sub(n, 1), i))))))
        ex.oblige("ensures:verifies", prop_of(ex.truth(ex.call_method(v, "verify", [o, c]))))
        ex.oblige("ensures:decodes", eq(T(ex.call_method(v, "decode", [o, c])), x))

    def s_decode(self, ex):
        f, h, n = self.start(ex)
        c, S = ex.fresh("c", ("seq", COMMIT)), ex.fresh("S", ("seq", ("s", INT)))
        ex.add_fact("req", Forall_range(0, T(c.n), lambda i: isbit(c.get(i)[1])))
        ex.add_fact("req", And(lt(0, T(c.n)), lt(0, T(S.n))))
        v = ex.call(ex.get_function(MOD + "BBSIntCommitmentVerifier"), [n, f, h])
        d = T(ex.call_method(v, "decode", [ex.alloc(S, "list"), ex.alloc(c, "list")]))
        ex.oblige("ensures:value", eq(d, app("bitsval", INT, least(n, least(T(S.n), T(c.n))), Lam(lambda i: xor(c.get(i)[1], hard(ex, S.get(i)))))))

    def opening(self, ex, v, c, name):
        S = ex.fresh(name, ("seq", ("s", INT)))
        return S, prop_of(ex.truth(ex.call_method(v, "verify", [ex.alloc(S, "list"), ex.alloc(c, "list")])))

    def s_opening(self, ex):
        f, h, n = self.start(ex)
        c = ex.fresh("c", ("seq", COMMIT))
        ex.add_fact("req", Forall_range(0, T(c.n), lambda i: isbit(c.get(i)[1])))
        v = ex.call(ex.get_function(MOD + "BBSIntCommitmentVerifier"), [n, f, h])
        S, r = self.opening(ex, v, c, "S")
        ok = And(eq(T(S.n), n), eq(T(c.n), n), Forall_range(0, n, lambda i: eq(T(c.get(i)[0]), image(ex, S.get(i)))))
        ex.oblige("ensures:exact", eq(r, ok))
        ex.add_fact("ok", r)
        d = T(ex.call_method(v, "decode", [ex.alloc(S, "list"), ex.alloc(c, "list")]))
        ex.oblige("ensures:value", eq(d, app("bitsval", INT, n, Lam(lambda i: xor(c.get(i)[1], hard(ex, S.get(i)))))))
        ex.oblige("ensures:low", le(0, d))
        ex.oblige("ensures:high", lt(d, app("ipow", INT, T(2), n)))
        Z, q = self.opening(ex, v, c, "Z")
        ex.add_fact("ok", q)
        d2 = T(ex.call_method(v, "decode", [ex.alloc(Z, "list"), ex.alloc(c, "list")]))
        ex.oblige("ensures:binding", Imp(Forall_range(0, n, lambda i: eq(hard(ex, S.get(i)), hard(ex, Z.get(i)))), eq(d, d2)))


class Parity(Contract):
    qual = BBS + "parity"
    hints = {"ensures:*": "!refine Eq.trans ?_ (parity_bits h_req) <;> (congr 2; funext i; congr 1; omega)"}

    def instances(self, ex):
        return {"any": lambda ex: [ex.fresh("n", ("s", INT))]}

    def requires(self, ex, n):
        return [("nonneg", le(0, T(n)))]

    def result(self, ex, n):
        return ("s", INT)

    def value(self, ex, n):
        return app("parityOf", INT, T(n))


class Modulus(Contract):
    """only positivity matters here; the primality of the factors is C27's subject"""
    qual = BBS + "make_modulus"
    hints = {"ensures:positive": "!exact mul_pos (by assumption) (by assumption)"}

    def instances(self, ex):
        return {"any": lambda ex: [ex.fresh("bits", ("s", INT))]}

    def requires(self, ex, n):
        return [("bits", le(0, T(n)))]

    def result(self, ex, n):
        return ("s", INT)

    def ensures(self, ex, r, n):
        return [("positive", lt(0, T(r)))]


class GoodPrime(Contract):
    qual = BBS + "find_good_prime"
    hints = {}
    total = False

    def instances(self, ex):
        return {"any": lambda ex: [ex.fresh("bits", ("s", INT))]}

    def requires(self, ex, n):
        return [("bits", le(0, T(n)))]

    def result(self, ex, n):
        return ("s", INT)

    def ensures(self, ex, r, n):
        return [("positive", lt(0, T(r))), ("residue", eq(fmod(T(r), 4), T(3)))]

    loops = [LoopSpec(kind="while", force=True, partial=True, roles={"c": ("candidate", None)}, inv=lambda s: [("nonneg", le(0, T(s.c)))])]


class OneWay(Scenarios):
    qual = BBS + "blum_blum_shub"
    name = "square"
    hints = {"ensures:nonneg": "!exact Int.emod_nonneg _ (by omega)"}

    def s_square(self, ex):
        n, x = ex.fresh("bits", ("s", INT)), ex.fresh("x", ("s", INT))
        ex.add_fact("req", le(0, n))
        f = ex.call(ex.get_function(BBS + "blum_blum_shub"), [n])
        a, b = T(ex.call(f, [x])), T(ex.call(f, [x]))
        ex.oblige("ensures:nonneg", le(0, a))
        ex.oblige("ensures:repeatable", eq(a, b))


def hook(seal):
    def h(ex, cls, a, k):
        if not getattr(ex, "ghost_seal", False):
            return NotImplemented
        return ex.fresh(seal.name, ("s", seal))
    return h


class C23(Property):
    id = "C23"
    contracts = (Bit, Int, Parity, GoodPrime, Modulus, OneWay)
    lib = ("Pv.Bits",)
    assumptions = ("random.getrandbits(n) returns an integer in [0, 2^n)", "the second entry of every commitment is a bit",
                   "termination of the random prime search is not claimed")

    def setup(self, w):
        w.new_hooks[MOD + "BBSBitCommitmentScheme"] = hook(SCHEME)
        w.new_hooks[MOD + "BBSBitCommitmentVerifier"] = hook(VERIFIER)
        w.call_hooks["starks.primality:probablyPrime"] = lambda ex, f, a, k: ex.fresh("prime", ("s", PROP))


PROPERTY = C23()
