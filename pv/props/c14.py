"""C14: Merkle trees and their branches."""
from ..check import Property
from ..contract import *
from ..sorts import *
from .c18 import H_CTX, blen

MOD = "starks.merkle_tree:"
BS = ("seq", ("s", BYTES))


HALF = "!have hp := pidx_range (ispow2_mod4 h_req h_req_1) h_req_3 h_req_4\n"


def bfn(s):
    return Lam(lambda i: as_term(s.get(i), BYTES))


def pidx(n, x):
    return app("pidx", INT, T(n), T(x))


def pinv(n, i):
    return app("pinv", INT, T(n), T(i))


class EncSeal(Seal):
    """A value that is not a plain int or bytes and knows its byte encoding."""

    def getattr(self, ex, v, name):
        if name == "to_bytes":
            return SymFunc(name, lambda ex, a, k: app("enc", BYTES, v))
        return NotImplemented


ELT = sealed_class("El", EncSeal(), "ElT", ring=False)
CTX = "{ElT : Type} (enc : ElT → Bytes) " + H_CTX


def encode(x):
    """The byte encoding of a list entry."""
    if isinstance(x, Term) and x.sort is BYTES or isinstance(x, bytes):
        return as_term(x, BYTES)
    if isinstance(x, Term) and x.sort is ELT:
        return app("enc", BYTES, x)
    return app("toBytesBE", BYTES, T(x), T(32))


KINDS = {"bytes": BYTES, "ints": INT, "elements": ELT}


def entries(ex, kind, name="L"):
    s = ex.fresh(name, ("seq", ("s", KINDS[kind])))
    return s


def entry_ok(s, kind):
    if kind == "ints":
        return [("range", Forall_range(0, T(s.n), lambda i: And(le(0, T(s.get(i))), lt(T(s.get(i)), 2 ** 256))))]
    return []


def kind_of_list(s):
    x = s.get(T(0))
    return "bytes" if not isinstance(x, Term) or x.sort is BYTES else "elements" if x.sort is ELT else "ints"


def size_ok(n):
    return [("size", And(lt(0, T(n)), eq(fmod(T(n), 4), 0)))]


class Permute(Contract):
    qual = MOD + "permute4"
    lean_ctx = CTX
    hints = {"ensures:entries": "!(intro i hi; unfold pinv; split_ifs <;> (congr 1; first | omega | (rw [show i % 4 = 3 by omega]; omega) | (rw [‹i % 4 = _›]; omega)))", "*": "!merkle_auto"}

    def instances(self, ex):
        return {k: (lambda ex, k=k: [ex.alloc(entries(ex, k), "list")]) for k in KINDS}

    def match(self, ex, args):
        return kind_of_list(ex.seq(args[0]))

    def requires(self, ex, L):
        return size_ok(L.n)

    def result(self, ex, L):
        return ("seq", ("s", KINDS[kind_of_list(L)]))

    def ensures(self, ex, r, L):
        return [("length", eq(T(r.n), T(L.n))),
                ("entries", Forall_range(0, T(L.n), lambda i: eq(T(r.get(i)), T(L.get(pinv(L.n, i))))))]


class Position(Contract):
    qual = MOD + "get_index_in_permuted"
    hints = {"ensures:value": "!unfold pidx; ring1", "*": "!merkle_auto"}

    def instances(self, ex):
        return {"any": lambda ex: [ex.fresh("x", ("s", INT)), ex.fresh("L", ("s", INT))]}

    def requires(self, ex, x, L):
        return [("size", le(4, T(L))), ("index", le(0, T(x)))]

    def value(self, ex, x, L):
        return pidx(L, x)


class Merkelize(Contract):
    qual = MOD + "merkelize"
    lean_ctx = CTX
    hints = {
        "safe:to_bytes": "!rw [h_post_1 k (by omega)]; first | exact (h_req_2 _ (pinv_range h_req_1 (by omega) (by omega))).1 | exact (h_req_2 _ (pinv_range h_req_1 (by omega) (by omega))).2",
        "inv-step:leaves": """!intro i hi
first
  | (refine (if_neg (by omega)).trans ?_; exact h_inv_1 i (by omega))
  | (split_ifs with h
     · exact h_inv_1 i (by omega)
     · rw [show i = k by omega, h_post_1 k (by omega)])""",
        "inv-step:inner": """!intro i hi
have hk : 0 ≤ k_1 ∧ k_1 < L_n - 1 := by constructor <;> (try split_ifs at h_idx_2) <;> omega
rw [if_neg (show ¬ (2 * i = r_permute4_n + -k_1 + -1) by omega), if_neg (show ¬ (2 * i + 1 = r_permute4_n + -k_1 + -1) by omega)]
split_ifs with h
· rw [h]; congr 3 <;> ring1
· exact h_inv_4 i (by omega)""",
        "ensures:tree": "!intro i h0 h1; exact h_inv_4 i (by split_ifs <;> omega)",
        "*": "!merkle_auto"}

    def instances(self, ex):
        return {k: (lambda ex, k=k: [ex.alloc(entries(ex, k), "list")]) for k in KINDS}

    def match(self, ex, args):
        return kind_of_list(ex.seq(args[0]))

    def requires(self, ex, L):
        return size_ok(L.n) + entry_ok(L, kind_of_list(L))

    def result(self, ex, L):
        return BS

    def ensures(self, ex, r, L):
        n = T(L.n)
        return [("length", eq(T(r.n), 2 * n)),
                ("leaves", Forall_range(0, n, lambda i: eq(as_term(r.get(n + i), BYTES), encode(L.get(pinv(n, i)))))),
                ("tree", app("mtree H", PROP, n, bfn(r)))]

    loops = [LoopSpec(kind="for", force=True, roles={"nodes": ("nodes", BS)},
                      inv=lambda s: [("length", eq(T(s.nodes.n), T(s.args[0].n) + s.k)),
                                     ("leaves", Forall_range(0, s.k, lambda i: eq(as_term(s.nodes.get(T(s.args[0].n) + i), BYTES), encode(s.args[0].get(pinv(s.args[0].n, i))))))]),
             LoopSpec(kind="for", force=True, roles={"nodes": ("nodes", BS)},
                      inv=lambda s: [("length", eq(T(s.nodes.n), 2 * T(s.args[0].n))),
                                     ("leaves", Forall_range(T(s.args[0].n), 2 * T(s.args[0].n), lambda i: eq(as_term(s.nodes.get(i), BYTES), as_term(s.init.nodes.get(i), BYTES)))),
                                     ("inner", Forall_range(T(s.args[0].n) - s.k, T(s.args[0].n), lambda i: eq(as_term(s.nodes.get(i), BYTES), app("H", BYTES, app("bcat", BYTES, as_term(s.nodes.get(2 * i), BYTES), as_term(s.nodes.get(2 * i + 1), BYTES))))))])]


def start(n, x):
    """tree position of the leaf at index x"""
    return app("mstart", INT, T(n), T(x))


def level(n, x, j):
    """its ancestor j levels up"""
    return app("mlevel", INT, T(n), T(x), T(j))


def sib(x):
    return app("sib", INT, x)


def leaves(s):
    return fdiv(T(s.args[0].n), 2)


class Branch(Contract):
    qual = MOD + "mk_branch"
    lean_ctx = CTX
    hints = {
        "safe:index": HALF + "first | omega | (have := mlevel_lt (n := tree_n / 2) (i := v_index) (j := o_n + -1) (ispow2_mod4 h_req h_req_1) h_req_3 h_req_4; split_ifs <;> omega)",
        "inv-init:level": HALF + "first | (rw [mlevel_zero]; unfold mstart; omega) | omega",
        "inv-init:positive": HALF + "omega",
        "inv-init:leaf": "!unfold mstart; congr 1; omega",
        "inv-step:level": "!rw [h_inv_1]; exact (mlevel_succ _ _ (by omega)).symm.trans (by congr 1; omega)",
        "inv-step:siblings": """!intro i hi
split_ifs with h1 h2 h2
· exact h_inv_4 i (by omega)
· rw [show i = o_n + -1 by omega, ← h_inv_1]; unfold sib; rw [if_pos h2]
· rw [show i = o_n + -1 by omega, ← h_inv_1]; unfold sib; rw [if_neg h2]; congr 1""",
        "ensures:length": "!exact mlevel_root h_req (by omega) h_req_3 h_req_4 (by omega) (by rw [← h_inv_1]; omega)",
        "*": "!merkle_auto"}

    def instances(self, ex):
        return {"any": lambda ex: [ex.alloc(ex.fresh("tree", BS), "list"), ex.fresh("index", ("s", INT))]}

    def requires(self, ex, tree, index):
        n = ex.ghost_n = fdiv(T(tree.n), 2)
        return [("size", And(app("ispow2", PROP, n), le(4, n), eq(T(tree.n), 2 * n))), ("index", And(le(0, T(index)), lt(T(index), n)))]

    def result(self, ex, *a):
        return BS

    def ensures(self, ex, r, tree, index):
        n = fdiv(T(tree.n), 2)
        return [("length", And(lt(0, T(r.n)), eq(app("ipow", INT, T(2), T(r.n) - 1), n))),
                ("leaf", eq(as_term(r.get(0), BYTES), as_term(tree.get(start(n, index)), BYTES))),
                ("siblings", Forall_range(0, T(r.n) - 1, lambda j: eq(as_term(r.get(j + 1), BYTES), as_term(tree.get(sib(level(n, index, j))), BYTES))))]

    loops = [LoopSpec(kind="while", force=True, roles={"o": ("o", BS), "index": ("index", None)},
                      inv=lambda s: [("length", lt(0, T(s.o.n))),
                                     ("level", eq(T(s.index), level(leaves(s), s.args[1], T(s.o.n) - 1))),
                                     ("positive", lt(0, T(s.index))),
                                     ("leaf", eq(as_term(s.o.get(0), BYTES), as_term(s.args[0].get(start(leaves(s), s.args[1])), BYTES))),
                                     ("siblings", Forall_range(0, T(s.o.n) - 1, lambda j: eq(as_term(s.o.get(j + 1), BYTES), as_term(s.args[0].get(sib(level(leaves(s), s.args[1], j))), BYTES))))],
                      decreases=lambda s: T(s.index))]


def fold(p, idx, k):
    return app("mfold H", BYTES, bfn(p), idx, k)


class Verify(Contract):
    qual = MOD + "verify_branch"
    asserts = "raise"
    lean_ctx = CTX
    hints = {
        "safe:pre:get_index_in_permuted:size": "!rw [half_ipow (by omega)]; exact four_le (by omega)",
        "inv-init:level": "!rw [half_ipow (by omega), mlevel_zero]; unfold mstart; omega",
        "inv-step:level": "!rw [h_inv]; exact (mlevel_succ _ _ (by omega)).symm",
        "inv-step:value": "!rw [mfold_succ _ _ _ (by omega), h_inv, h_inv_1]; unfold mlevel; split_ifs <;> first | rfl | omega | contradiction",
        "*": "!merkle_auto"}

    def instances(self, ex):
        def one(*flag):
            return lambda ex: [ex.fresh("root", ("s", BYTES)), ex.fresh("index", ("s", INT)), ex.alloc(ex.fresh("proof", BS), "list")] + list(flag)
        return {"default": one(), "bytes": one(False), "int": one(True)}

    def match(self, ex, args):
        return "default" if len(args) == 3 else "int" if args[3] else "bytes"

    @staticmethod
    def leaves(proof):
        return app("ipow", INT, T(2), T(proof.n) - 1)

    def requires(self, ex, root, index, proof, flag=False):
        return [("size", le(3, T(proof.n))), ("index", And(le(0, T(index)), lt(T(index), self.leaves(proof))))]

    def recomputed(self, index, proof):
        n = self.leaves(proof)
        return fold(proof, start(n, index), T(proof.n) - 1)

    def raises(self, ex, root, index, proof, flag=False):
        return [("AssertionError", ne(self.recomputed(index, proof), as_term(root, BYTES)))]

    def value(self, ex, root, index, proof, flag=False):
        leaf = as_term(proof.get(0), BYTES)
        return app("fromBytesBE", INT, leaf) if flag else leaf

    loops = [LoopSpec(kind="for", force=True, roles={"v": ("v", ("s", BYTES)), "index": ("index", None)},
                      inv=lambda s: [("level", eq(T(s.index), level(Verify.leaves(s.args[2]), s.args[1], s.k))),
                                     ("value", eq(as_term(s.v, BYTES), fold(s.args[2], start(Verify.leaves(s.args[2]), s.args[1]), s.k)))])]


def commit(ex, kind):
    """a list that may be committed to, an index into it and its tree"""
    L = entries(ex, kind)
    i = ex.fresh("i", ("s", INT))
    n = T(L.n)
    for p in (app("ispow2", PROP, n), le(4, n), le(0, i), lt(i, n), *(q for _, q in entry_ok(L, kind))):
        ex.add_fact("req", p)
    # n is a multiple of four
    ex.oblige("aux:multiple-of-4", eq(fmod(n, 4), 0))
    ex.add_fact("aux", eq(fmod(n, 4), 0))
    tree = ex.call(ex.get_function(MOD + "merkelize"), [ex.alloc(L, "list")])
    return L, i, tree


def root_of(ex, tree):
    return ex.seq(tree).get(T(1))


HALVES = "!have e : r_merkelize_n / 2 = L_n := by omega\n"
REWRITE = "rw [e] at h_post_4 h_post_5 h_post_6\n"
LEAF = """rw [h_post_5]; unfold mstart
rw [h_post_1 _ (pidx_range h_aux h_req_2 h_req_3), pinv_pidx h_aux h_req_2 h_req_3]"""


class Opening(Scenarios):
    """Every index of every committed list opens to the encoding of that entry."""
    qual = MOD + "verify_branch"
    name = "opening"
    lean_ctx = CTX
    hints = {
        "aux:multiple-of-4": "!exact ispow2_mod4 h_req h_req_1",
        "safe:pre:*": HALVES + "first | omega | (rw [e]; assumption) | (exact three_le (by rw [h_post_4, e]; assumption)) | (rw [h_post_4, e]; assumption)",
        "no-exception*": HALVES + REWRITE + """rw [h_post_4] at h_branch
exact h_branch (merkle_root h_req h_req_1 h_req_2 h_req_3 h_post_2 h_post_4 (by omega) h_post_5 h_post_6)""",
        "ensures:leaf": HALVES + REWRITE + LEAF,
        "ensures:entry": HALVES + REWRITE + LEAF + """
obtain ⟨a, b⟩ := h_req_4 i (by omega)
exact from_toBytesBE a (lt_of_lt_of_le b (by simp [ipow]))""",
        "*": "!merkle_auto"}

    def branch(self, ex, kind):
        L, i, tree = commit(ex, kind)
        proof = ex.call(ex.get_function(MOD + "mk_branch"), [tree, i])
        return L, i, root_of(ex, tree), proof

    def open(self, ex, kind, *flag):
        L, i, root, proof = self.branch(ex, kind)
        r = ex.call(ex.get_function(MOD + "verify_branch"), [root, i, proof] + list(flag))
        if flag and flag[0]:
            ex.oblige("ensures:entry", eq(T(r), T(L.get(i))))
        else:
            ex.oblige("ensures:leaf", eq(as_term(r, BYTES), encode(L.get(i))))

    def s_bytes(self, ex):
        self.open(ex, "bytes")

    def s_elements(self, ex):
        self.open(ex, "elements")

    def s_ints(self, ex):
        self.open(ex, "ints")

    def s_ints_as_int(self, ex):
        self.open(ex, "ints", True)


class C14(Property):
    id = "C14"
    contracts = (Permute, Position, Merkelize, Branch, Verify, Opening)
    lib = ("Pv.Merkle",)
    theorems = ("pinv_pidx", "pidx_pinv", "mfold_honest")
    assumptions = ("hashlib.blake2s is a fixed function from byte strings to 32-byte strings",)


PROPERTY = C14()
