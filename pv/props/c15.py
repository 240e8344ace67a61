"""C15: binding of Merkle commitments."""
from .c14 import *
from .c14 import HALVES
from ..contract import *
from ..seqops import set_item


def verify(ex, root, i, proof):
    return ex.call(ex.get_function(MOD + "verify_branch"), [root, i, proof])


BIND = """!rw [h_size] at h_branch
have hleaf : r_merkelize (mstart L_n i) = %s := by
  unfold mstart; rw [h_post_1 _ (pidx_range h_aux h_req_2 h_req_3), pinv_pidx h_aux h_req_2 h_req_3]
have e := merkle_binding H_len h_req h_req_1 h_req_2 h_req_3 h_post_2 h_size (by omega) (by rw [hleaf]; exact h_leaf) h_branch
rcases e with e | e
· exact Or.inl (e.trans hleaf)
· exact Or.inr e"""


class Binding(Scenarios):
    """Whatever branch is offered, an accepted opening is the committed entry."""
    qual = MOD + "verify_branch"
    lean_ctx = CTX
    hints = {
        "aux:multiple-of-4": "!exact ispow2_mod4 h_req h_req_1",
        "safe:pre:verify_branch:size": "!exact three_le (by omega)",
        **{k + "|ensures:committed": BIND % leaf for k, leaf in (("bytes", "L i"), ("ints", "toBytesBE (L i) 32"), ("elements", "enc (L i)"))},
        "ensures:rejected": "!have e := merkle_alter (p := proof) (q := fun i => if i = j then other else proof i) h_req_3 (by omega) (by simpa using fun e => h_req_5 e.symm) (fun i hi => (if_neg hi).symm) (h_branch.trans h_branch_1.symm); exact e",
        "*": "!merkle_auto"}

    def opened(self, ex, kind):
        L, i, tree = commit(ex, kind)
        n = T(L.n)
        proof = ex.fresh("proof", BS)
        leaf = encode(L.get(i))
        ex.add_fact("size", eq(app("ipow", INT, T(2), T(proof.n) - 1), n))
        ex.add_fact("leaf", eq(blen(as_term(proof.get(0), BYTES)), blen(leaf)))
        try:
            r = verify(ex, root_of(ex, tree), i, ex.alloc(proof, "list"))
        except PyRaise as e:
            if e.exc == "AssertionError":
                return          # rejected
            raise
        ex.oblige("ensures:committed", Or(eq(as_term(r, BYTES), leaf), app("collides H", PROP)))

    def s_bytes(self, ex):
        self.opened(ex, "bytes")

    def s_ints(self, ex):
        self.opened(ex, "ints")

    def s_elements(self, ex):
        self.opened(ex, "elements")

    def s_altered(self, ex):
        """one entry of an accepted branch is replaced"""
        root, i, j, other = ex.fresh("root", ("s", BYTES)), ex.fresh("i", ("s", INT)), ex.fresh("j", ("s", INT)), ex.fresh("other", ("s", BYTES))
        proof = ex.fresh("proof", BS)
        for p in (le(3, T(proof.n)), le(0, i), lt(i, Verify.leaves(proof)), le(0, j), lt(j, T(proof.n)), ne(other, as_term(proof.get(j), BYTES))):
            ex.add_fact("req", p)
        try:
            verify(ex, root, i, ex.alloc(proof, "list"))
            changed = ex.alloc(proof, "list")
            set_item(ex, changed, j, other)
            verify(ex, root, i, changed)
        except PyRaise as e:
            if e.exc == "AssertionError":
                return
            raise
        ex.oblige("ensures:rejected", app("collides H", PROP))


class C15(Property):
    id = "C15"
    contracts = (Permute, Position, Merkelize, Verify, Binding)
    lib = ("Pv.Merkle",)
    theorems = ("merkle_binding", "merkle_alter")
    assumptions = ("hashlib.blake2s is a fixed function from byte strings to 32-byte strings",)


PROPERTY = C15()
