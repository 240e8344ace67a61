"""C26: the blockchain."""
from ..check import Property
from ..contract import *
from ..sorts import *
from ..values import *
from ..seqops import TypedOpaque

MOD = "starks.blockchain:"
CLS = MOD + "Blockchain"


# ---------------------------------------------------------------- strings ----
def txt(v):
    """a string as a term"""
    if isinstance(v, str):
        r = app("tnil", TXT)
        for c in reversed(v):
            r = app("tcons", TXT, T(ord(c)), r)
        return r
    if isinstance(v, Term) and v.sort is TXT:
        return v
    if isinstance(v, int) and not isinstance(v, bool) or isinstance(v, Term) and v.sort is INT:
        return app("shown", TXT, T(v))
    return None


def join(parts):
    ps = [p for p in parts if not (isinstance(p, str) and p == "")]
    if not ps:
        return ""
    if all(isinstance(p, str) for p in ps):
        return "".join(ps)
    r = txt(ps[-1])
    for p in reversed(ps[:-1]):
        r = tcat(txt(p), r)
    return r


def tcat(a, b):
    """concatenation, nested to the right, constants spread out"""
    if a.op == "app" and a.args[0] == "tcat":
        return tcat(a.args[1], tcat(a.args[2], b))
    if a.op == "app" and a.args[0] == "tcons":
        return app("tcons", TXT, a.args[1], tcat(a.args[2], b))
    if a.op == "app" and a.args[0] == "tnil":
        return b
    return app("tcat", TXT, a, b)


def fstring(ex, parts):
    if any(txt(p) is None for p in parts):
        return Opaque("fstring")
    return join(parts)


class TextSeal(Seal):
    def eq(self, ex, a, b):
        x, y = (txt(v) if isinstance(v, (str, Term)) else None for v in (a, b))
        return NotImplemented if x is None or y is None else eq(x, y)

    def binop(self, ex, op, a, b):
        if op == "Add" and all(isinstance(v, str) or isinstance(v, Term) and v.sort is TXT for v in (a, b)):
            return join([a, b])
        return NotImplemented

    def truth(self, ex, v):
        return Not(eq(v, app("tnil", TXT)))

    def slice(self, ex, v, lo, hi, st):
        if lo in (None, 0) and st in (None, 1) and isinstance(hi, int) and hi >= 0:
            return app("ttake", TXT, v, T(hi))
        raise Unsupported("slice of a string")

    def getattr(self, ex, v, name):
        if name == "encode":
            return SymFunc(name, lambda ex, a, k: app("utf8", BYTES, v))
        if name == "startswith":
            return SymFunc(name, lambda ex, a, k: eq(app("ttake", TXT, v, T(len(a[0]))), txt(a[0])))
        if name == "__str__":
            return SymFunc(name, lambda ex, a, k: v)
        return NotImplemented


TXT = sealed_class("Text", TextSeal(), "Txt", ring=False)


class Digest(object):
    def __init__(self, x):
        self.x = x

    def method(self, ex, v, name):
        if name == "hexdigest":
            return Builtin(name, lambda ex, a, k: app("sha", TXT, self.x))
        return None


# ----------------------------------------------------------------- records ---
class RecordSeal(Seal):
    """a dictionary with fixed keys"""
    fields = {}

    def __init__(self, name, fields):
        self.name_, self.fields = name, fields

    def field(self, v, k):
        kind = self.fields[k]
        if kind is None:
            return Opaque(k)
        if kind[0] == "seq":
            return Seq(None, app("len_" + k, INT, v), lambda i: app("at_" + k, kind[1][1], v, T(i)), kind[1])
        return app("get_" + k, kind[1], v)

    def getattr(self, ex, v, name):
        if name == "__getitem__":
            def item(ex, a, k):
                if a[0] not in self.fields:
                    raise PyRaise("KeyError", None, ex.where)
                return self.field(v, a[0])
            return SymFunc(name, item)
        if name == "get":
            return SymFunc(name, lambda ex, a, k: self.field(v, a[0]) if a[0] in self.fields else (a[1] if len(a) > 1 else None))
        return NotImplemented

    def absorb(self, ex, ref):
        """the record that a dictionary literal is"""
        d = ex.heap[ref.addr]
        if d.items is None or sorted(k for k, _ in d.items.values()) != sorted(self.fields):
            raise Unsupported("a %s with other keys" % self.name_)
        b = ex.fresh(self.name_, ("s", self.sort))
        for k, v in d.items.values():
            kind = self.fields[k]
            if kind is None:
                continue
            f = self.field(b, k)
            if kind[0] == "seq":
                s = ex.seq(v)
                if isinstance(v, Ref):
                    ex.mark_shared(v)
                ex.add_fact("field", eq(T(f.n), T(s.n)))
                ex.add_fact("field", Forall_range(0, T(s.n), lambda i: eq(T(f.get(i)), T(s.get(i)))))
            else:
                ex.add_fact("field", eq(f, txt(v) if kind[1] is TXT else T(v)))
        return b


TX = sealed_class("tx", RecordSeal("tx", {"sender": ("s", TXT), "recipient": ("s", TXT), "amount": ("s", INT)}), "TxT", ring=False)
BLOCK = sealed_class("block", RecordSeal("block", {"index": ("s", INT), "timestamp": None, "transactions": ("seq", ("s", TX)), "proof": ("s", INT), "previous_hash": ("s", TXT)}), "BlkT", ring=False)
CTX = ("{TxT : Type} {BlkT : Type} {ChnT : Type} (get_sender get_recipient : TxT → Txt) (get_amount : TxT → Int) "
       "(get_index get_proof len_transactions : BlkT → Int) (get_previous_hash : BlkT → Txt) (at_transactions : BlkT → Int → TxT) "
       "(jsonsorted jsonany : BlkT → Txt) (utf8 : Txt → Bytes) (sha : Bytes → Txt) "
       "(chainlen : ChnT → Int) (chainat : ChnT → Int → BlkT) (status : Txt → Int) (peer : Txt → ChnT) (claimed : Txt → Int)")


class ChainSeal(Seal):
    """a list of blocks received from a peer"""

    def seq(self, v):
        return Seq(None, app("chainlen", INT, v), lambda i: app("chainat", BLOCK, v, T(i)), ("s", BLOCK))

    def getattr(self, ex, v, name):
        if name == "__len__":
            return SymFunc(name, lambda ex, a, k: self.seq(v).n)
        if name == "__iter__":
            return SymFunc(name, lambda ex, a, k: self.seq(v))
        if name == "__getitem__":
            from ..seqops import norm_index
            return SymFunc(name, lambda ex, a, k: self.seq(v).get(norm_index(ex, self.seq(v).n, a[0])))
        return NotImplemented

    def slice(self, ex, v, lo, hi, st):
        from ..seqops import slice_seq
        return ex.alloc(slice_seq(ex, self.seq(v), lo, hi, st), "list")

    def truth(self, ex, v):
        return Not(eq(self.seq(v).n, T(0)))


CHAIN = sealed_class("chain", ChainSeal(), "ChnT", ring=False)


# ------------------------------------------------------------ specification --
def hashed(b):
    return app("sha", TXT, app("utf8", BYTES, app("jsonsorted", TXT, b)))


def proved(last, p, h):
    return eq(app("ttake", TXT, app("sha", TXT, app("utf8", BYTES, join([T(last), T(p), h]))), T(4)), txt("0000"))


def proof(b):
    return app("get_proof", INT, b)


def linked(b, c):
    """block c may follow block b"""
    return And(eq(app("get_previous_hash", TXT, c), hashed(b)), proved(proof(b), proof(c), hashed(b)))


def valid(c):
    return Forall_range(1, T(c.n), lambda i: linked(c.get(sub(i, 1)), c.get(i)))


class Base:
    lean_ctx = CTX


class Hash(Base, Contract):
    qual = CLS + ".hash"
    hints = {}

    def instances(self, ex):
        return {"block": lambda ex: [ex.fresh("b", ("s", BLOCK))]}

    def match(self, ex, a):
        return "block"

    def result(self, ex, b):
        return ("s", TXT)

    def value(self, ex, b):
        if isinstance(b, Ref):
            b = BLOCK.cls.seal.absorb(ex, b)
        return hashed(b)


class ValidProof(Base, Contract):
    qual = CLS + ".valid_proof"
    hints = {}

    def instances(self, ex):
        return {"any": lambda ex: [ex.fresh("last", ("s", INT)), ex.fresh("p", ("s", INT)), ex.fresh("h", ("s", TXT))]}

    def result(self, ex, *a):
        return ("s", PROP)

    def value(self, ex, last, p, h):
        return proved(last, p, txt(h))


def chain_obj(ex):
    o = ex.call(ex.get_function(CLS), [])
    c = ex.fresh("C", ("seq", ("s", BLOCK)))
    ex.add_fact("req", le(1, T(c.n)))
    ex.setattr(o, "chain", ex.alloc(c, "list"))
    t = ex.fresh("P", ("seq", ("s", TX)))
    ex.setattr(o, "current_transactions", ex.alloc(t, "list"))
    nodes = ex.fresh("N", ("seq", ("s", TXT)))
    ex.setattr(o, "nodes", ex.alloc(nodes, "set"))
    return o, c, t, nodes


class Mine(Base, Scenarios):
    qual = CLS + ".proof_of_work"
    name = "mining"
    hints = {"inv-step:none-before": "!exact all_step h_inv_1 h_cond", "*": "!grind"}
    loops = [LoopSpec(kind="while", force=True, partial=True, roles={"p": ("proof", ("s", INT))},
                      inv=lambda s: [("nonneg", le(0, T(s.p))), ("none-before", Forall_range(0, T(s.p), lambda q: Not(s.ex.ghost_ok(q))))])]

    def s_first(self, ex):
        o, c, t, nodes = chain_obj(ex)
        b = ex.fresh("b", ("s", BLOCK))
        ex.ghost_ok = lambda q: proved(proof(b), q, hashed(b))
        r = T(ex.call_method(o, "proof_of_work", [b]))
        ex.oblige("ensures:nonneg", le(0, r))
        ex.oblige("ensures:proof", ex.ghost_ok(r))
        ex.oblige("ensures:first", Forall_range(0, r, lambda q: Not(ex.ghost_ok(q))))


class Valid(Base, Contract):
    qual = CLS + ".valid_chain"
    hints = {
        "ensures:value": "!first | (subst h_inv_2; exact fun h => h_branch (h _ ⟨h_inv, h_cond⟩).1) | (subst h_inv_2; exact fun h => h_branch_1 (h _ ⟨h_inv, h_cond⟩).2) | exact fun j hj => h_inv_3 j ⟨hj.1, by omega⟩ | grind",
        "inv-step:linked": "!first | (subst h_inv_2; exact all_step h_inv_3 ⟨h_branch, h_branch_1⟩) | grind",
    }
    loops = [LoopSpec(kind="while", force=True, roles={"last": ("last_block", ("s", BLOCK)), "i": ("current_index", ("s", INT))},
                      decreases=lambda s: sub(T(seq_of(s.ex, s.args[1]).n), T(s.i)),
                      inv=lambda s: (lambda c: [("low", le(1, T(s.i))), ("high", le(T(s.i), T(c.n))), ("last", eq(s.last, c.get(sub(T(s.i), 1)))),
                                                ("linked", Forall_range(1, T(s.i), lambda j: linked(c.get(sub(j, 1)), c.get(j))))])(seq_of(s.ex, s.args[1])))]

    def instances(self, ex):
        def obj(ex):
            return ex.call(ex.get_function(CLS), [])
        return {"list": lambda ex: [obj(ex), ex.alloc(ex.fresh("c", ("seq", ("s", BLOCK))), "list")],
                "received": lambda ex: [obj(ex), ex.fresh("c", ("s", CHAIN))]}

    def match(self, ex, a):
        return "received" if isinstance(a[1], Term) else "list"

    def requires(self, ex, o, c):
        return [("some", le(1, T(seq_of(ex, c).n)))]

    def result(self, ex, o, c):
        return ("s", PROP)

    def value(self, ex, o, c):
        return valid(seq_of(ex, c))


def seq_of(ex, c):
    return CHAIN.cls.seal.seq(c) if isinstance(c, Term) else ex.seq(c)


class Books(Base, Scenarios):
    qual = CLS + ".new_block"
    name = "books"
    hints = {
        "ensures:*kept": "!intro i hi; rw [if_pos hi.2]",
        "ensures:links": "!rintro ⟨h1, h2⟩ i ⟨hi, hj⟩ <;> by_cases e : i < C_n <;> [(rw [if_pos e, if_pos (by omega)]; exact h1 i ⟨hi, e⟩); (obtain rfl : i = C_n := by omega)] <;> simp only [if_neg e, if_pos (show i + -1 < i by omega)] <;> exact ⟨h_field_4, by rw [h_field_3]; exact h2⟩",
    }

    def s_genesis(self, ex):
        o = ex.call(ex.get_function(CLS), [])
        c = ex.seq(ex.getattr(o, "chain"))
        ex.oblige("ensures:one", eq(T(c.n), 1))
        b = c.get(0)
        it = {k: v for k, v in ex.heap[b.addr].items.values()}
        ex.oblige("ensures:index", eq(T(it["index"]), 1))
        ex.oblige("ensures:proof", eq(T(it["proof"]), 100))
        ex.oblige("ensures:previous", eq(txt(it["previous_hash"]), txt("1")))
        ex.oblige("ensures:transactions", eq(T(ex.seq(it["transactions"]).n), 0))
        ex.oblige("ensures:pending", eq(T(ex.seq(ex.getattr(o, "current_transactions")).n), 0))

    def block(self, ex, given):
        o, c, t, nodes = chain_obj(ex)
        p = ex.fresh("p", ("s", INT))
        if given:
            h = ex.fresh("h", ("s", TXT))
            ex.add_fact("req", Not(eq(h, app("tnil", TXT))))
        else:
            h = None
        r = ex.call_method(o, "new_block", [p, h])
        it = {k: v for k, v in ex.heap[r.addr].items.values()}
        want = h if given else hashed(c.get(sub(T(c.n), 1)))

        def lists(lab, a, b):
            ex.oblige("ensures:%s.length" % lab, eq(T(a.n), T(b.n)))
            ex.oblige("ensures:%s.entries" % lab, Forall_range(0, T(b.n), lambda i: eq(T(a.get(i)), T(b.get(i)))))
        ex.oblige("ensures:index", eq(T(it["index"]), add(T(c.n), 1)))
        ex.oblige("ensures:proof", eq(T(it["proof"]), p))
        ex.oblige("ensures:previous", eq(txt(it["previous_hash"]), want))
        lists("transactions", ex.seq(it["transactions"]), t)
        ex.oblige("ensures:pending", eq(T(ex.seq(ex.getattr(o, "current_transactions")).n), 0))
        d = ex.seq(ex.getattr(o, "chain"))
        ex.oblige("ensures:chain.length", eq(T(d.n), add(T(c.n), 1)))
        ex.oblige("ensures:chain.kept", Forall_range(0, T(c.n), lambda i: eq(d.get(i), c.get(i))))
        b = d.get(T(c.n))
        ex.oblige("ensures:last.index", eq(app("get_index", INT, b), add(T(c.n), 1)))
        ex.oblige("ensures:last.proof", eq(proof(b), p))
        ex.oblige("ensures:last.previous", eq(app("get_previous_hash", TXT, b), want))
        lists("last.transactions", BLOCK.cls.seal.field(b, "transactions"), t)
        # a block that is mined links to its predecessor
        if not given:
            last = c.get(sub(T(c.n), 1))
            ex.oblige("ensures:links", Imp(And(valid(c), proved(proof(last), p, hashed(last))), valid(d)))

    def s_given(self, ex):
        self.block(ex, True)

    def s_default(self, ex):
        self.block(ex, False)

    def s_transaction(self, ex):
        o, c, t, nodes = chain_obj(ex)
        a, b, m = ex.fresh("a", ("s", TXT)), ex.fresh("b", ("s", TXT)), ex.fresh("m", ("s", INT))
        r = ex.call_method(o, "new_transaction", [a, b, m])
        ex.oblige("ensures:index", eq(T(r), add(app("get_index", INT, c.get(sub(T(c.n), 1))), 1)))
        q = ex.seq(ex.getattr(o, "current_transactions"))
        ex.oblige("ensures:length", eq(T(q.n), add(T(t.n), 1)))
        ex.oblige("ensures:kept", Forall_range(0, T(t.n), lambda i: eq(q.get(i), t.get(i))))
        x = q.get(T(t.n))
        ex.oblige("ensures:sender", eq(app("get_sender", TXT, x), a))
        ex.oblige("ensures:recipient", eq(app("get_recipient", TXT, x), b))
        ex.oblige("ensures:amount", eq(app("get_amount", INT, x), m))
        d = ex.seq(ex.getattr(o, "chain"))
        ex.oblige("ensures:chain.length", eq(T(d.n), T(c.n)))
        ex.oblige("ensures:chain.kept", Forall_range(0, T(c.n), lambda i: eq(d.get(i), c.get(i))))


def url(node):
    return join(["http://", node, "/chain"])


def received(node):
    return CHAIN.cls.seal.seq(app("peer", CHAIN, url(node)))


def good(node):
    """a node answers with a valid chain"""
    return And(eq(app("status", INT, url(node)), 200), valid(received(node)))


def maybe_chain(ex, name):
    if ex.decide(ex.fresh("none", ("s", PROP))):
        return None
    return ex.fresh("nc", ("s", CHAIN))


class Consensus(Base, Scenarios):
    qual = CLS + ".resolve_conflicts"
    name = "consensus"
    hints = {
        "inv-step*": "!have gk := h_good k; clear h_good; have pk := h_peer k; simp only [← h_peer] at *; (try clear h_safe); first | (refine all_step h_inv fun hg => ?_; have gv := gk.1 hg; first | omega | (by_contra hc; exact h_branch_1 ⟨by omega, gv.2⟩) | (exact absurd gv.1 h_branch)) | grind",
        "ensures*": "!clear h_good h_peer; grind",
    }

    def inv(s):
        ex, mine = s.ex, s.ex.ghost_mine
        G, W, m = ex.ghost_good, ex.ghost_peer, T(s.m)
        size = lambda c: app("chainlen", INT, c)
        out = [("seen", Forall_range(0, T(s.k), lambda i: Imp(G(i), le(size(W(i)), m)))), ("least", le(mine, m))]
        if s.best is None:
            out.append(("same", eq(m, mine)))
        else:
            out.append(("longest", eq(size(s.best), m)))
            out.append(("longer", lt(mine, m)))
            out.append(("from", Exists(lambda i: And(le(0, i), lt(i, T(s.k)), eq(W(i), s.best), G(i)))))
        return out

    loops = [LoopSpec(kind="for", force=True, roles={"m": ("max_length", ("s", INT)), "best": ("new_chain", ("make", maybe_chain))}, inv=inv)]

    def s_longest(self, ex):
        o, c, t, N = chain_obj(ex)
        # shorthands: node i answers with a valid chain, and that chain
        g, w = var("G", FnSort([INT], PROP)), var("W", FnSort([INT], CHAIN))
        G, W = (lambda i: apply(g, T(i))), (lambda i: apply(w, T(i)))
        size = lambda c: app("chainlen", INT, c)
        ex.add_fact("good", Forall(lambda i: eq(G(i), good(N.get(i)))))
        ex.add_fact("peer", Forall(lambda i: eq(W(i), app("peer", CHAIN, url(N.get(i))))))
        ex.add_fact("lens", Forall(lambda i: le(0, size(W(i)))))
        ex.ghost_mine, ex.ghost_good, ex.ghost_peer = T(c.n), G, W
        r = prop_of(ex.truth(ex.call_method(o, "resolve_conflicts", [])))
        d = ex.getattr(o, "chain")
        better = Exists(lambda i: And(le(0, i), lt(i, T(N.n)), G(i), lt(T(c.n), size(W(i)))))
        ex.oblige("ensures:replaced", eq(r, better))
        if isinstance(d, Term):
            ex.oblige("ensures:adopted", Exists(lambda i: And(le(0, i), lt(i, T(N.n)), G(i), eq(W(i), d))))
            ex.oblige("ensures:longer", lt(T(c.n), size(d)))
            ex.oblige("ensures:longest", Forall_range(0, T(N.n), lambda i: Imp(G(i), le(size(W(i)), size(d)))))
            ex.oblige("ensures:told", r)
        else:
            d = ex.seq(d)
            ex.oblige("ensures:told", Not(r))
            ex.oblige("ensures:kept.length", eq(T(d.n), T(c.n)))
            ex.oblige("ensures:kept", Forall_range(0, T(c.n), lambda i: eq(d.get(i), c.get(i))))


class Response:
    def __init__(self, u):
        self.u = u

    def method(self, ex, v, name):
        if name == "status_code":
            return app("status", INT, self.u)
        if name == "ok":
            raise Unsupported("response.ok")
        if name == "json":
            def js(ex, a, k):
                return ex.alloc(DictV(items={("c", "chain"): ("chain", app("peer", CHAIN, self.u)), ("c", "length"): ("length", app("claimed", INT, self.u))}), "dict")
            return Builtin(name, js)
        return None


def dumps(ex, a, k):
    b = a[0]
    if isinstance(b, Ref):
        b = BLOCK.cls.seal.absorb(ex, b)
    return app("jsonsorted" if k.get("sort_keys") is True else "jsonany", TXT, b)


class C26(Property):
    id = "C26"
    contracts = (Hash, ValidProof, Mine, Valid, Books, Consensus)
    lib = ("Pv.Chain",)
    ctx = CTX
    assumptions = ("hashlib.sha256 and json.dumps(sort_keys=True) are functions of their argument",
                   "requests.get answers each URL with one response during one call of resolve_conflicts",
                   "termination of the proof-of-work search is not claimed", "chains have at least the genesis block")

    def setup(self, w):
        w.externals["$fstring"] = fstring
        w.externals["json:dumps"] = Builtin("dumps", dumps)
        w.externals["hashlib:sha256"] = Builtin("sha256", lambda ex, a, k: TypedOpaque("hash", Digest(a[0])))
        w.externals["requests:get"] = Builtin("get", lambda ex, a, k: TypedOpaque("response", Response(txt(a[0]))))


PROPERTY = C26()
