"""C17: proof compression."""
from ..check import Property
from ..contract import *
from ..sorts import *
from ..seqops import SymDict
from .c18 import blen

MOD = "starks.compression:"
BS = ("seq", ("s", BYTES))
BBS = ("seq", BS)
FN = FnSort([INT], BYTES)
SEP = b"----"


def fn(s):
    return Lam(lambda i: as_term(s.get(i), BYTES))


def sizes(br):
    """block lengths: a branch and its separator"""
    return Lam(lambda b: add(T(br.get(b).n), 1))


def flat(br):
    """the branches one after the other, each followed by a separator"""
    return app("cat", FN, sizes(br), Lam(lambda b: app("seg", FN, T(br.get(b).n), fn(br.get(b)), as_term(SEP, BYTES))))


def total(br, n):
    return app("offs", INT, sizes(br), T(n))


def coded(o, br):
    return app("coded", PROP, T(o.n), fn(o), flat(br))


def indexed(o, d, br):
    if not isinstance(d, SymDict):      # the empty dictionary
        if d.items:
            return FALSE
        d = SymDict(lambda k: FALSE, lambda k: T(0), BYTES, ("s", INT))
    return app("indexed", PROP, T(o.n), Lam(lambda x: T(d.dom(x)), BYTES), Lam(lambda x: T(d.val(x)), BYTES), fn(o), flat(br))


def branches(ex):
    return ex.fresh("br", BBS)


def wellformed(br):
    return [("entries", Forall_range(0, T(br.n), lambda b: Forall_range(0, T(br.get(b).n), lambda p: And(
        ne(as_term(br.get(b).get(p), BYTES), as_term(SEP, BYTES)), ne(blen(as_term(br.get(b).get(p), BYTES)), 2)))))]


def alt(*blocks):
    """the first tactic block that works"""
    return "!first\n" + "\n".join("  | skip\n" + "\n".join("    " + x for x in b.lstrip("!").rstrip().split("\n")) for b in blocks)


BLOCK = """!have hb : o_n < br_n := by
  by_contra h
  have e : o_n = br_n := by omega
  rw [h_inv_1, e, ← h_req_1] at h_cond
  exact lt_irrefl _ h_cond
"""
ENTRY = BLOCK + """have D := dec_at (p := branch_n) h_len_1 h_req_1 h_req_2 h_len_3 hb h_len_5 h_inv_4
rw [← h_inv_1, ← h_inv_3] at D
"""
MORE = ENTRY + """have hp : branch_n < br_e_n o_n := by
  rcases lt_or_eq_of_le h_inv_4 with h | h
  · exact h
  · rw [h, seg_end] at D; exact absurd D.2.2.1 h_cond_2
"""
LAST = ENTRY + """have hp : branch_n = br_e_n o_n := by
  rcases lt_or_eq_of_le h_inv_4 with h | h
  · rw [seg_lt _ _ h] at D
    exact absurd ⟨D.2.1, D.2.2.1.trans_ne (h_req o_n ⟨h_len_3, hb⟩ branch_n ⟨h_len_5, h⟩).1⟩ h_cond_1
  · exact h
"""
END = """!have e : o_n = br_n := by
  by_contra h
  have := (flat_lt (p := 0) (n := br_e_n) h_len_1 h_len_3 (by omega : o_n < br_n) le_rfl (h_len_1 _)).2
  rw [← h_req_1, ← h_inv_1] at this
  omega
"""


class Decompress(Contract):
    qual = MOD + "decompress_branches"
    hints = {"safe:index": ENTRY + "first | exact D.1 | exact D.2.1 | exact (D.2.2.2 (by assumption)).1 | exact (D.2.2.2 (by assumption)).2",
             "inv-init:length": "!exact h_len_1 _",
             "inv-step:length": MORE + "exact hp",
             "inv-step:entries": MORE + """rw [seg_lt _ _ hp] at D
intro i hi
split_ifs with h h'
· exact h_inv_5 i ⟨hi.1, h⟩
· rw [show i = branch_n by omega, ← D.2.2.1, if_pos h']
· rw [show i = branch_n by omega, ← D.2.2.1, if_neg h']""",
             "inv-step:count": BLOCK + "exact hb",
             "inv-step:position": alt("omega", LAST + "rw [offs_succ _ h_len_3, ← h_inv_1, h_inv_3, hp]; ring1"),
             "inv-step:branches": LAST + """intro i hi
by_cases h : i < o_n
· simp only [if_pos h]; exact h_inv_2 i ⟨hi.1, h⟩
· obtain rfl : i = o_n := by omega
  simp only [if_neg h]; exact ⟨hp, fun p hq => h_inv_5 p ⟨hq.1, hq.2.trans_eq hp.symm⟩⟩""",
             "measure-decreases": BLOCK + "omega",
             "ensures:count": END + "exact e",
             "ensures:branches": END + "subst e; exact h_inv_2"}

    def instances(self, ex):
        def any_(ex):
            ex.ghost_br = branches(ex)
            return [ex.alloc(ex.fresh("proof", BS), "list")]
        return {"any": any_}

    def requires(self, ex, proof):
        br = ex.ghost_br
        return wellformed(br) + [("length", eq(T(proof.n), total(br, br.n))), ("coded", coded(proof, br))]

    def result(self, ex, proof):
        return BBS

    @staticmethod
    def same(r, br, n):
        return [("branches", Forall_range(0, n, lambda b: And(eq(T(r.get(b).n), T(br.get(b).n)), Forall_range(0, T(br.get(b).n), lambda p: eq(as_term(r.get(b).get(p), BYTES), as_term(br.get(b).get(p), BYTES))))))]

    def ensures(self, ex, r, proof):
        br = ex.ghost_br
        return [("count", eq(T(r.n), T(br.n)))] + self.same(r, br, T(br.n))

    @staticmethod
    def outer(s):
        br = s.ex.ghost_br
        return [("count", le(T(s.o.n), T(br.n))), ("position", eq(T(s.pos), total(br, s.o.n)))] + Decompress.same(s.o, br, T(s.o.n))

    @staticmethod
    def inner(s):
        br = s.ex.ghost_br
        b = T(s.o.n)
        cur = br.get(b)
        return [("position", eq(T(s.pos), add(T(s.init.pos), T(s.branch.n)))), ("length", le(T(s.branch.n), T(cur.n))),
                ("entries", Forall_range(0, T(s.branch.n), lambda p: eq(as_term(s.branch.get(p), BYTES), as_term(cur.get(p), BYTES))))]

    loops = [LoopSpec(kind="while", force=True, roles={"o": ("o", BBS), "pos": ("pos", ("s", INT))}, inv=lambda s: Decompress.outer(s),
                      decreases=lambda s: sub(T(s.ex.ghost_br.n), T(s.o.n))),
             LoopSpec(kind="while", force=True, roles={"branch": ("branch", BS), "pos": ("pos", ("s", INT))}, keep={"o": ("o", BBS)}, inv=lambda s: Decompress.inner(s),
                      decreases=lambda s: sub(T(s.ex.ghost_br.get(T(s.o.n)).n), T(s.branch.n)))]


class Compress(Contract):
    qual = MOD + "compress_branches"
    NEXT = """!have hF : cat (fun (i1' : Int) => br_e_n i1' + (1 : Int)) (fun (i2' : Int) => seg (br_e_n i2') (fun (i1' : Int) => br_e i2' i1') (([45, 45, 45, 45] : Bytes))) o_1_n = %s := by
  rw [h_inv_3, h_inv]; exact (flat_at h_len_1 h_idx %s).trans (%s)
have l := flat_lt h_len_1 h_idx h_idx_1 %s
rw [← h_inv, ← h_inv_3] at l
"""
    DO = """first
  | exact (index_fits h_inv_5 (by omega) h_branch).1
  | exact (index_fits h_inv_5 (by omega) h_branch).2
  | exact add_old h_len_3 (by omega) h_inv_4 h_inv_5 h_branch hF (fun i _ h => if_pos h) (if_neg (lt_irrefl _))
  | exact index_old h_len_3 h_inv_5 h_branch hF (fun i _ h => if_pos h)
  | exact add_new h_len_3 h_inv_4 h_inv_5 h_branch hF %s (fun i _ h => if_pos h) (if_neg (lt_irrefl _))
  | exact index_new h_len_3 h_inv_5 hF (fun i _ h => if_pos h) (if_neg (lt_irrefl _)) h_branch (fun _ => Iff.rfl) (if_pos rfl) (fun _ h => if_neg h)
"""
    ITEM = NEXT % ("br_e k k_1", "h_idx_2 h_idx_3.le", "seg_lt _ _ h_idx_3", "h_idx_2 h_idx_3.le") + DO % "(h_req k ⟨h_idx, h_idx_1⟩ k_1 ⟨h_idx_2, h_idx_3⟩).2"
    SEPA = NEXT % ("([45, 45, 45, 45] : Bytes)", "(h_len_1 k) le_rfl", "seg_end _ _ _", "(h_len_1 k) le_rfl") + DO % "(by decide)"
    hints = {"inv-init:coded": "!exact coded_zero _ _", "inv-init:indexed": "!exact indexed_zero (fun _ h => h) _ _ _",
             "safe:to_bytes": alt(ITEM, SEPA),
             "inv-step:coded": alt(ITEM, SEPA),
             "inv-step:indexed": alt(ITEM, SEPA),
             "inv-step:length": "!first | omega | (rw [offs_succ _ h_idx, ← h_inv]; omega)",
             "no-exception:*": """!refine h_branch ⟨h_post, fun i hi => ?_⟩
have e := h_post_1 i (by rw [← h_post]; exact hi)
exact ⟨e.1, fun p hp => e.2 p (by rw [← e.1]; exact hp)⟩"""}
    asserts = "raise"

    def instances(self, ex):
        def any_(ex):
            br = ex.ghost_br = branches(ex)
            return [ex.alloc(br, "list")]
        return {"any": any_}

    def requires(self, ex, br):
        return wellformed(br) + [("size", lt(total(br, br.n), 65536))]

    def result(self, ex, br):
        return BS

    def ensures(self, ex, r, br):
        return [("length", eq(T(r.n), total(br, br.n))), ("coded", coded(r, br))]

    @staticmethod
    def inv(s, n):
        br = s.args[0]
        return [("length", eq(T(s.o.n), n)), ("coded", coded(s.o, br)), ("indexed", indexed(s.o, s.index, br))]

    ROLES = {"o": ("o", BS), "index": ("oindex", ("dict", BYTES, ("s", INT)))}
    loops = [LoopSpec(kind="for", force=True, roles=ROLES, inv=lambda s: Compress.inv(s, total(s.args[0], s.k))),
             LoopSpec(kind="for", force=True, roles=ROLES, inv=lambda s: Compress.inv(s, add(T(s.init.o.n), s.k)))]


class C17(Property):
    id = "C17"
    contracts = (Decompress, Compress)
    lib = ("Pv.Compress",)
    assumptions = ("int.to_bytes and int.from_bytes are Python's big-endian encodings",
                   "compress_fri / decompress_fri are checked by execution only (bounded)")


PROPERTY = C17()
