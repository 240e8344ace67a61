"""C19: algebraic executions."""
import ast
from ..check import Property
from ..contract import *
from ..sorts import *
from .fields import hooks
from .mvfields import *

MOD = "starks.air:"
STATE = ("seq", ("s", FLD))
MONS = sealed_mons("MonS", lambda ex: T(ex.width))
STEP = sealed_class("StepPoly", MvSeal(MONS), "(MvPolynomial ℕ FldT)")
MVS = ("seq", ("s", MVP))


def xvar(i):
    return app("xvar", MVP, T(i))


class GenX(Contract):
    """the variables themselves, one per index"""
    qual = "starks.utils:generate_Xi_s"
    lean_ctx = FLD_CTX
    hints = {"*": "mv_conv"}

    def instances(self, ex):
        def any_(ex):
            w = ex.num_vars = ex.fresh("width", ("s", INT))
            ex.sealedM = MVP.cls
            ex.add_fact("req", le(0, w))
            return [FLD.cls, w]
        return {"any": any_}

    def result(self, ex, *a):
        return MVS

    def ensures(self, ex, r, field, w):
        return [("length", eq(T(r.n), w)), ("variables", Forall_range(0, w, lambda i: eq(r.get(i), xvar(i))))]

    loops = [LoopSpec(kind="for", force=True, roles={"out": ("Xi_s", MVS)},
                      inv=lambda s: [("length", eq(T(s.out.n), s.k)), ("variables", Forall_range(0, s.k, lambda i: eq(as_term(s.out.get(i), MVP), xvar(i))))])]


def computation(ex):
    """a width, an input and the step polynomials in as many variables"""
    w = ex.width = ex.fresh("width", ("s", INT))
    ex.num_vars = mul(T(2), w)
    ex.sealedM = MVP.cls
    inp, steps = ex.fresh("inp", STATE), ex.fresh("step", ("seq", ("s", STEP)))
    ex.add_fact("req", le(0, w))
    ex.add_fact("req", eq(T(inp.n), w))
    ex.add_fact("req", eq(T(steps.n), w))
    ex.add_fact("inv", Forall_range(0, w, lambda i: app("mvars", PROP, w, steps.get(i))))
    return w, inp, steps


def follows(s, t, w, steps):
    """every component of t is its step polynomial at the complete state s"""
    return And(eq(T(t.n), w), Forall_range(0, w, lambda j: eq(as_term(t.get(j), FLD), mval(steps.get(j), s))))


class Trace(Contract):
    """starts at the input; each next state is the step polynomials at the whole previous one"""
    qual = MOD + "get_computational_trace"
    lean_ctx = FLD_CTX
    hints = {"*": "mv_conv"}

    def instances(self, ex):
        def any_(ex):
            w, inp, steps = computation(ex)
            n = ex.fresh("steps", ("s", INT))
            ex.add_fact("req", le(1, n))
            return [ex.alloc(inp, "list"), n, w, ex.alloc(steps, "list")]
        return {"any": any_}

    def requires(self, ex, inp, n, w, steps):
        return [("steps", le(1, T(n))), ("width", eq(T(inp.n), T(w))), ("polynomials", eq(T(steps.n), T(w)))]

    def result(self, ex, *a):
        return ("tuple", (("seq", STATE), STATE))

    @staticmethod
    def good(trace, upto, inp, w, steps):
        return [("input", And(eq(T(trace.get(0).n), w), Forall_range(0, w, lambda j: eq(as_term(trace.get(0).get(j), FLD), as_term(inp.get(j), FLD))))),
                ("width", Forall_range(0, upto, lambda i: eq(T(trace.get(i).n), w))),
                ("transitions", Forall_range(0, sub(T(upto), 1), lambda i: Forall_range(0, w, lambda j: eq(as_term(trace.get(add(i, 1)).get(j), FLD), mval(steps.get(j), trace.get(i))))))]

    def ensures(self, ex, r, inp, n, w, steps):
        trace, last = r
        return [("one-state-per-step", eq(T(trace.n), n))] + self.good(trace, n, inp, T(w), steps) + [
            ("output-length", eq(T(last.n), w)),
            ("output", Forall_range(0, w, lambda j: eq(as_term(last.get(j), FLD), as_term(trace.get(sub(T(n), 1)).get(j), FLD))))]

    loops = [LoopSpec(kind="for", force=True, roles={"trace": ("computational_trace", ("seq", STATE))},
                      inv=lambda s: [("length", eq(T(s.trace.n), s.k + 1))] + Trace.good(s.trace, add(T(s.k), 1), s.args[0], T(s.args[2]), s.args[3]))]


def air(ex, **attrs):
    """an instance with these attributes"""
    w, inp, steps = computation(ex)
    n = ex.fresh("steps", ("s", INT))
    ex.add_fact("req", le(1, n))
    c = ex.module_name("starks.air", "AIR")
    trace = ex.fresh("trace", ("seq", STATE))
    ex.ghost = (w, inp, steps, n, trace)
    for lab, p in [("length", eq(T(trace.n), n))] + Trace.good(trace, n, inp, w, steps)[:2]:
        ex.add_fact("req", p)
    d = {"$class": c, "field": FLD.cls, "F": FLD.cls, "width": w, "w": w, "steps": n, "T": n, "inp": ex.alloc(inp, "list"),
         "step_polys": ex.alloc(steps, "list"), "computational_trace": ex.alloc(trace, "list")}
    return ex.alloc(d, "obj")


class Method(Contract):
    """a method of an AIR instance whose trace and polynomials are arbitrary"""
    lean_ctx = FLD_CTX
    hints = {"*": "mv_conv"}

    def instances(self, ex):
        return {"any": lambda ex: [air(ex)]}

    def apply(self, ex, bound, f):
        """in the constructor, the calls are only recorded: the object must be ready by then"""
        if not isinstance(ex.root, Init):
            return NotImplemented
        o, *rest = self.order(bound, f)
        ready(ex, self.qual.split(".")[-1], o)
        r = ex.ghost_calls[type(self)] = self.opaque(ex)
        for a in rest:
            ex.oblige("ensures:constraints-of-this-instance", TRUE if a is ex.ghost_calls.get(Polys) else FALSE)
        return r

    def opaque(self, ex):
        return ex.alloc(ex.fresh("r_" + type(self).__name__, MVS), "list")


class Witness(Method):
    """per dimension, that dimension's value at every step"""
    qual = MOD + "AIR.generate_witness"

    def ensures(self, ex, r, o):
        w, inp, steps, n, trace = ex.ghost
        return [("dimensions", eq(T(r.n), w)), ("steps", Forall_range(0, w, lambda j: eq(T(r.get(j).n), n))),
                ("values", Forall_range(0, w, lambda j: Forall_range(0, n, lambda i: eq(as_term(r.get(j).get(i), FLD), as_term(trace.get(i).get(j), FLD)))))]


class Boundary(Method):
    """each input component, at step 0"""
    qual = MOD + "AIR.generate_boundary_constraints"

    def ensures(self, ex, r, o):
        w, inp, steps, n, trace = ex.ghost
        return [("length", eq(T(r.n), w)), ("pinned", Forall_range(0, w, lambda j: And(eq(T(r.get(j)[0]), 0), And(eq(T(r.get(j)[1]), j), eq(as_term(r.get(j)[2], FLD), as_term(inp.get(j), FLD))))))]

    loops = [LoopSpec(kind="for", force=True, roles={"out": ("boundary_constraints", ("seq", ("tuple", (("s", INT), ("s", INT), ("s", FLD)))))},
                      inv=lambda s: [("length", eq(T(s.out.n), s.k)),
                                     ("pinned", Forall_range(0, s.k, lambda j: And(eq(T(s.out.get(j)[0]), 0), And(eq(T(s.out.get(j)[1]), j), eq(as_term(s.out.get(j)[2], FLD), as_term(s.ex.ghost[1].get(j), FLD))))))])]


def pair(p, w, s, t):
    """the value of p at one state followed by another"""
    return app("mpair", FLD, p, w, *[Lam(lambda i: as_term(v.get(i), FLD)) for v in (s, t)])


class Polys(Method):
    """constraint i vanishes exactly when component i of the next state is step polynomial i of the first"""
    qual = MOD + "AIR.generate_constraint_polynomials"

    def result(self, ex, *a):
        return MVS

    hints = {"inv-step:values": """!intro i hi; by_cases c : i < out_n
· rw [if_pos c]; apply_assumption; omega
· rw [if_neg c]; obtain rfl : i = k := (by omega)
  mv_constraint s""",
             "ensures:values": "!intro i hi; first | (apply_assumption; omega) | mv_constraint s",
             "ensures:vanishes": "!intro i hi; apply vanish_iff_of; first | (apply_assumption; omega) | mv_constraint s", "*": "mv_conv"}

    def instances(self, ex):
        def one(ex):
            o = air(ex)
            w = ex.ghost[0]
            ex.ghost_s, ex.ghost_t = [ex.fresh(v, STATE) for v in "st"]
            for v in (ex.ghost_s, ex.ghost_t):
                ex.add_fact("req", eq(T(v.n), w))
            return [o]
        return {"any": one}

    @staticmethod
    def good(ex, r, upto):
        w, inp, steps, n, trace = ex.ghost
        s, t = ex.ghost_s, ex.ghost_t
        return [("values", Forall_range(0, upto, lambda i: eq(pair(as_term(r.get(i), MVP), w, s, t), sub(as_term(t.get(i), FLD), mval(steps.get(i), s)))))]

    def ensures(self, ex, r, o):
        w, inp, steps, n, trace = ex.ghost
        return [("one-per-component", eq(T(r.n), w))] + self.good(ex, r, w) + [
            ("vanishes", Forall_range(0, w, lambda i: Iff(eq(pair(as_term(r.get(i), MVP), w, ex.ghost_s, ex.ghost_t), T(0, FLD)), eq(as_term(ex.ghost_t.get(i), FLD), mval(steps.get(i), ex.ghost_s)))))]

    loops = [LoopSpec(kind="for", force=True, roles={"out": ("constraints", MVS)},
                      inv=lambda s: [("length", eq(T(s.out.n), s.k))] + Polys.good(s.ex, s.out, s.k))]


class Circuit(Method):
    """true exactly when every constraint vanishes on every consecutive pair of the trace"""
    qual = MOD + "AIR.generate_monotone_circuit"
    hints = {"*": "mv_circuit"}

    def instances(self, ex):
        def one(ex):
            o = air(ex)
            ps = ex.fresh("polys", MVS)
            ex.add_fact("req", eq(T(ps.n), ex.ghost[0]))
            return [o, ex.alloc(ps, "list")]
        return {"any": one}

    @staticmethod
    def val(ex, i, j):
        w, inp, steps, n, trace = ex.ghost
        return pair(ex.args[1].get(j), w, trace.get(i), trace.get(add(T(i), 1)))

    @staticmethod
    def rows(ex, out, upto):
        w = ex.ghost[0]
        return [("length", eq(T(out.n), upto)),
                ("widths", Forall_range(0, upto, lambda i: eq(T(out.get(i).n), w))),
                ("values", Forall_range(0, upto, lambda i: Forall_range(0, w, lambda j: eq(as_term(out.get(i).get(j), FLD), Circuit.val(ex, i, j)))))]

    @staticmethod
    def holds(ex, i, upto):
        return Forall_range(0, upto, lambda j: eq(Circuit.val(ex, i, j), T(0, FLD)))

    def ensures(self, ex, r, o, ps):
        w, inp, steps, n, trace = ex.ghost
        return [("all-vanish", Iff(prop_of(ex.truth(r)), Forall_range(0, sub(T(n), 1), lambda i: self.holds(ex, i, w))))]

    @staticmethod
    def row(s):
        return [("length", eq(T(s.temp.n), s.k)), ("values", Forall_range(0, s.k, lambda j: eq(as_term(s.temp.get(j), FLD), Circuit.val(s.ex, s.ex.ghost_i, j))))]


def calls(node):
    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Subscript) for x in ast.walk(node))


def nested(node):
    return any(isinstance(x, ast.For) for b in node.body for x in ast.walk(b))


def leaves(node):
    return any(isinstance(x, ast.Return) for x in ast.walk(node))


def inside(ex, node):
    """is the loop within another one that may leave the function?"""
    f = ex.get_function(Circuit.qual).node
    return any(node in list(ast.walk(x)) for x in ast.walk(f) if isinstance(x, ast.For) and x is not node)


def outer_rows(s):
    s.ex.ghost_i = s.k
    return Circuit.rows(s.ex, s.out, s.k)


def outer_flags(s):
    s.ex.ghost_i = s.k
    return [("length", eq(T(s.out.n), s.k)),
            ("flags", Forall_range(0, s.k, lambda i: Iff(prop_of(s.ex.truth(s.out.get(i))), Circuit.holds(s.ex, i, s.ex.ghost[0]))))]


BOOL = ("s", PROP)
def so_far(s):
    s.ex.ghost_i = s.k
    return [("so-far", Forall_range(0, s.k, lambda i: Circuit.holds(s.ex, i, s.ex.ghost[0])))]


def row_so_far(s):
    return [("row-so-far", Circuit.holds(s.ex, s.ex.ghost_i, s.k))]


Circuit.loops = [
    LoopSpec(kind="for", force=True, roles={}, match=lambda ex, node: leaves(node) and not inside(ex, node), inv=so_far),
    LoopSpec(kind="for", force=True, roles={}, match=lambda ex, node: leaves(node) and inside(ex, node), inv=row_so_far),
    LoopSpec(kind="for", force=True, roles={"out": ("output_eval", ("seq", STATE))}, match=lambda ex, node: calls(node) and nested(node), inv=outer_rows),
    LoopSpec(kind="for", force=True, roles={"temp": ("temp", STATE)}, match=lambda ex, node: calls(node) and not nested(node), inv=Circuit.row),
    LoopSpec(kind="for", force=True, roles={"out": ("output", ("seq", BOOL))}, match=lambda ex, node: not calls(node) and nested(node), inv=outer_flags),
    LoopSpec(kind="for", force=True, roles={"flag": ("t_temp", BOOL)}, match=lambda ex, node: not calls(node) and not nested(node) and not leaves(node),
             inv=lambda s: [("flag", Iff(prop_of(s.ex.truth(s.flag)), Circuit.holds(s.ex, s.ex.ghost_i, s.k)))])]


class Degree(Method):
    """(its value matters to no claim of C19)"""
    qual = MOD + "AIR.C_degree"

    def opaque(self, ex):
        return ex.fresh("degree", ("s", INT))


def ready(ex, label, o):
    """the object has the attributes that air() gives an instance"""
    w, inp, steps, n = ex.ghost
    d = ex.heap[o.addr]
    for a in ("width", "w"):
        equal(ex, label + "." + a, d.get(a), w)
    for a in ("steps", "T"):
        equal(ex, label + "." + a, d.get(a), n)
    for a in ("field", "F"):
        ex.oblige("ensures:%s.%s" % (label, a), TRUE if d.get(a) is FLD.cls else FALSE)
    equal(ex, label + ".inp", d.get("inp"), inp)
    equal(ex, label + ".step_polys", d.get("step_polys"), steps)
    trace = freeze_deep(ex, d.get("computational_trace"))
    for lab, p in [("one-state-per-step", eq(T(trace.n), n))] + Trace.good(trace, n, inp, w, steps):
        ex.oblige("ensures:%s.trace.%s" % (label, lab), p)


class Init(Scenarios):
    """an instance holds the trace of its computation, its constraints and its circuit"""
    qual = MOD + "AIR.__init__"
    asserts = "raise"
    lean_ctx = FLD_CTX
    hints = {"*": "mv_conv"}

    def s_init(self, ex):
        w, inp, steps = computation(ex)
        n = ex.fresh("steps", ("s", INT))
        ex.add_fact("req", le(1, n))
        ex.ghost, ex.ghost_calls = (w, inp, steps, n), {}
        try:
            o = ex.call(ex.module_name("starks.air", "AIR"), [FLD.cls, w, ex.alloc(inp, "list"), n, ex.alloc(steps, "list"), ex.fresh("e", ("s", INT))])
        except PyRaise as e:
            if e.exc != "AssertionError":
                raise
            return
        ready(ex, "init", o)
        d = ex.heap[o.addr]
        for name, c in (("Polys", Polys), ("C", Circuit), ("B", Boundary)):
            ex.oblige("ensures:" + name, TRUE if d.get(name) is ex.ghost_calls.get(c, 0) else FALSE)
        last = freeze_deep(ex, d.get("output"))
        ex.oblige("ensures:output", And(eq(T(last.n), w), Forall_range(0, w, lambda j: eq(as_term(last.get(j), FLD), as_term(freeze_deep(ex, d.get("computational_trace")).get(sub(T(n), 1)).get(j), FLD)))))


class C19(Property):
    id = "C19"
    contracts = (GenX, Trace, Witness, Boundary, Polys, Circuit, Init)
    uses = (Degree,)
    lib = ("Pv.Conv",)
    theorems = ("mval_mval", "mval_congr", "mval_vars")
    assumptions = ("states are lists of field elements; step polynomial i is a polynomial in as many variables as the state is wide",
                   "the constructor's bounds on steps (511) and on the degree are assertions: a refused instance is outside the claim")

    def setup(self, w):
        hooks(w)
        mvhooks(w)


PROPERTY = C19()
