"""C29: floating-point numbers over binary fields."""
from ..check import Property
from ..contract import *
from ..sorts import *
from ..values import *
from ..seqops import TypedOpaque
from .fields import *
from .c23 import isbit, xor

FF = "starks.finitefield:"
FP = "starks.floatingpoint:"


class Digits:
    """the text of a coefficient; only its first character is looked at"""

    def __init__(self, t):
        self.t = t

    def getitem(self, ex, v, i):
        if i != 0:
            raise Unsupported("another digit of a coefficient")
        return app("digit", CHR, self.t)


class ChrSeal(Seal):
    def eq(self, ex, a, b):
        if isinstance(b, str) and len(b) == 1:
            return eq(app("code", INT, a), T(ord(b)))
        if isinstance(a, str) and len(a) == 1:
            return eq(app("code", INT, b), T(ord(a)))
        if all(isinstance(x, Term) and x.sort is CHR for x in (a, b)):
            return eq(a, b)
        return NotImplemented

    def getattr(self, ex, v, name):
        f = {"__gt__": lambda x, y: lt(y, x), "__lt__": lt, "__ge__": lambda x, y: le(y, x), "__le__": le}.get(name)
        if f:
            c = lambda x: T(ord(x)) if isinstance(x, str) else app("code", INT, x)
            return SymFunc(name, lambda ex, a, k: f(c(v), c(a[0])))
        return NotImplemented


CHR = sealed_class("Chr", ChrSeal(), "ChT", ring=False)
CTX = FLD_CTX + " {ChT : Type} (digit : FldT → ChT) (code : ChT → Int)"


def fstring(ex, parts):
    if len(parts) == 1 and isinstance(parts[0], Term) and parts[0].sort is FLD:
        return TypedOpaque("digits", Digits(parts[0]))
    return Opaque("text")


def poly(ex, o):
    return PLY.cls.seal.conv(ex, ex.heap[o.addr]["poly"])


def unchanged(ex, label, o, a):
    ok = isinstance(o, Ref) and o.typ == "obj"
    ex.oblige("frame:" + label, eq(poly(ex, o), a) if ok else FALSE)


def anyelement(ex, F, g, name="e"):
    return element(ex, F, g, name)[0]


class ToBits(Contract):
    """the digits themselves do not matter here, only that the function answers"""
    qual = FP + "num_to_binary_list"
    lean_ctx = CTX
    loops = [LoopSpec(kind="while", force=True, roles={"n": ("index", ("s", INT)), "L": ("output_list", ("seq", ("s", INT)))},
                      inv=lambda s: [], decreases=lambda s: T(s.n))]

    def instances(self, ex):
        return {"any": lambda ex: [ex.fresh("n", ("s", INT))]}

    def result(self, ex, n):
        return ("seq", ("s", INT))


class PowBits(Contract):
    qual = FF + "num_to_binary_list_pow"
    lean_ctx = CTX
    loops = [LoopSpec(kind="for", force=True, roles={"L": ("output_list", ("seq", ("s", INT)))}, inv=lambda s: [("length", eq(T(s.L.n), T(s.k)))])]

    def instances(self, ex):
        return {"any": lambda ex: [ex.fresh("n", ("s", INT))]}

    def requires(self, ex, n):
        return [("nonneg", le(0, T(n)))]

    def result(self, ex, n):
        return ("seq", ("s", INT))

    def ensures(self, ex, r, n):
        return [("length", eq(T(ex.seq(r).n), add(T(n), 1)))]


class Elements(Scenarios):
    """comparison and powers of two of field elements"""
    qual = FF + "FiniteField.LT"
    name = "elements"
    lean_ctx = CTX
    hints = {"less|safe:index": "!(rw [prem_self (add_lt h_inv h_inv_1)] at *); first | (have := (plen_eq_zero (p := a + b)).not.2 h_branch_2; have := plen_nonneg (a + b); omega) | (have := plen_add_le a b; have : plen (a + b) ≤ plen a := le_trans this (max_le (by omega) (by omega)); omega)",
             "*": "quot_auto"}
    loops = [LoopSpec(kind="for", force=True, roles={"num": ("num", ("make", lambda ex, name: ex.ghost_make(name)))}, inv=lambda s: [])]

    def s_less(self, ex):
        F, P, g = extfield(ex)
        x, a = element(ex, F, g, "a")
        y, b = element(ex, F, g, "b")
        r = ex.call_method(x, "LT", [y])
        ex.oblige("ensures:bit", Or(eq(T(r), 0), eq(T(r), 1)))
        unchanged(ex, "left", x, a)
        unchanged(ex, "right", y, b)

    def s_two_pow(self, ex):
        F, P, g = extfield(ex)
        x, a = element(ex, F, g, "a")
        ex.ghost_make = lambda name: anyelement(ex, F, g, name)
        r = ex.call_method(x, "two_pow", [])
        is_element(ex, "power", r, F, g, poly(ex, r))
        ex.oblige("ensures:new", TRUE if r.addr != x.addr else FALSE)
        unchanged(ex, "operand", x, a)


class Float(Scenarios):
    qual = FP + "FloatingPoint"
    name = "float"
    lean_ctx = CTX
    hints = {"safe:bitop-nonneg": "!exact (show isbit _ by assumption).1",
             "sub|ensures:s": "!(have hb : isbit ys := by assumption); unfold isbit at hb; obtain rfl | rfl : ys = 0 ∨ ys = 1 := (by omega) <;> decide",
             "no-exception:ZeroDiv*": "!first | (rw [prem_self (by rw [plen_zero]; omega)] at h_branch_1; exact h_req_8 h_branch_1) | quot_auto",
             "*": "quot_auto"}

    def number(self, ex, C, name, zero=None):
        F, P, g = self.field
        v, a = element(ex, F, g, name + "v")
        p, b = element(ex, F, g, name + "p")
        if zero is None:
            zero = 1 if ex.decide(ex.fresh(name + "zero", ("s", PROP))) else 0
        s = ex.fresh(name + "s", ("s", INT))
        ex.add_fact("req", isbit(s))
        o = ex.call(C, [v, p, zero, s])
        return o, (v, p, a, b, zero, s)

    def start(self, ex):
        self.field = F, P, g = extfield(ex)
        ex.ghost_float = lambda name: anyelement(ex, F, g, name)
        return ex.call(ex.get_function(FP + "FloatingPoint"), [F])

    def same(self, ex, lab, o, parts):
        v, p, a, b, z, s = parts
        unchanged(ex, lab + ".v", ex.getattr(o, "v"), a)
        unchanged(ex, lab + ".p", ex.getattr(o, "p"), b)
        unchanged(ex, lab + ".v-object", v, a)
        unchanged(ex, lab + ".p-object", p, b)
        ex.oblige("frame:%s.z" % lab, eq(T(ex.getattr(o, "z")), T(z)))
        ex.oblige("frame:%s.s" % lab, eq(T(ex.getattr(o, "s")), T(s)))

    def fresh_number(self, ex, r, C, *ops):
        ok = isinstance(r, Ref) and r.typ == "obj" and ex.heap[r.addr]["$class"] is C and all(r.addr != o.addr for o in ops)
        ex.oblige("ensures:new", TRUE if ok else FALSE)
        return ok

    def value(self, ex, r, parts, sign=None):
        v, p, a, b, z, s = parts
        for k, w in (("v", a), ("p", b)):
            x = ex.getattr(r, k)
            ex.oblige("ensures:%s" % k, eq(poly(ex, x), w))
        ex.oblige("ensures:z", eq(T(ex.getattr(r, "z")), T(z)))
        ex.oblige("ensures:s", eq(T(ex.getattr(r, "s")), T(s) if sign is None else sign))

    def linear(self, ex, op):
        C = self.start(ex)
        x, px = self.number(ex, C, "x")
        y, py = self.number(ex, C, "y")
        r = seqops.binop(ex, op, x, y)
        if self.fresh_number(ex, r, C, x, y):
            if px[4] == 1:
                self.value(ex, r, py, None if op == "Add" else xor(py[5], T(1)))
            elif py[4] == 1:
                self.value(ex, r, px)
        self.same(ex, "left", x, px)
        self.same(ex, "right", y, py)

    def s_add(self, ex):
        self.linear(ex, "Add")

    def s_sub(self, ex):
        self.linear(ex, "Sub")

    def s_mul(self, ex):
        C = self.start(ex)
        x, px = self.number(ex, C, "x")
        y, py = self.number(ex, C, "y")
        r = seqops.binop(ex, "Mult", x, y)
        if self.fresh_number(ex, r, C, x, y):
            ex.oblige("ensures:sign", eq(T(ex.getattr(r, "s")), xor(px[5], py[5])))
        self.same(ex, "left", x, px)
        self.same(ex, "right", y, py)

    def s_div(self, ex):
        C = self.start(ex)
        x, px = self.number(ex, C, "x")
        y, py = self.number(ex, C, "y", 0)
        ex.add_fact("req", ne(py[2], T(0, PLY)))
        r = seqops.binop(ex, "Div", x, y)
        if self.fresh_number(ex, r, C, x, y):
            ex.oblige("ensures:sign", eq(T(ex.getattr(r, "s")), xor(px[5], py[5])))
        self.same(ex, "left", x, px)
        self.same(ex, "right", y, py)

    def s_div_zero(self, ex):
        C = self.start(ex)
        x, px = self.number(ex, C, "x")
        y, py = self.number(ex, C, "y", 1)
        expect_raise(ex, ["ZeroDivisionError"], lambda: seqops.binop(ex, "Div", x, y))
        self.same(ex, "left", x, px)
        self.same(ex, "right", y, py)

    def s_fixed(self, ex):
        C = self.start(ex)
        x, px = self.number(ex, C, "x")
        r = ex.call_method(x, "Float_to_Fix", [])
        v, s = ex.seq(r).items
        F, P, g = self.field
        is_element(ex, "fixed", v, F, g, poly(ex, v))
        ex.oblige("ensures:new", TRUE if v.addr not in (px[0].addr, px[1].addr) else FALSE)
        ex.oblige("ensures:sign", eq(T(s), T(0) if px[4] == 1 else px[5]))
        self.same(ex, "operand", x, px)


def less(ex, f, a, k):
    if not hasattr(ex, "ghost_float"):
        return NotImplemented
    r = ex.fresh("less", ("s", INT))
    ex.add_fact("less", isbit(r))
    return r


def power(ex, f, a, k):
    return ex.ghost_float("power") if hasattr(ex, "ghost_float") else NotImplemented


class C29(Property):
    id = "C29"
    contracts = (ToBits, PowBits, Elements, Float)
    uses = (Egcd,)
    lib = ("Pv.Quot", "Pv.Bits")
    ctx = CTX
    assumptions = ("the modulus is irreducible (documented precondition)", "arithmetic in Z/p and Z/p[x] is the one discharged in C01, C04 and C05, extended gcd the one of C03",
                   "the text of a coefficient has a first character")

    def setup(self, w):
        hooks(w)
        w.externals["$fstring"] = fstring
        w.call_hooks[FF + "FiniteField.Fq.LT"] = less
        w.call_hooks[FF + "FiniteField.Fq.two_pow"] = power


PROPERTY = C29()
