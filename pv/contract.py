"""Contracts, path enumeration and obligation generation."""
import fnmatch
import os
from .values import *
from .exec import *
from .loops import LoopSpec


class Contract:
    """Base class.  Subclasses define

    qual                  'module:function' or 'module:Class.method'
    instances(ex)         -> dict name -> callable(ex) returning the argument list
    match(ex, args)       -> True when this contract describes the call
    requires(ex, *args)   -> [(label, Prop)]
    raises(ex, *args)     -> [(exception, Prop)]
    value(ex, *args)      -> the result as a pure value, or NotImplemented
    result(ex, *args)     -> kind of a fresh result (when there is no value)
    ensures(ex, r, *args) -> [(label, Prop)]
    loops                 -> [LoopSpec]
    measure(*args)        -> Int term, for recursive functions
    hints                 -> {pattern: tactic}
    """
    qual = None
    loops = ()
    hints = {}
    asserts = "oblige"
    prop_ctx = ""          # extra Lean binders
    fork_ifs = False
    total = True           # termination obligations are generated for recursion
    lean_ctx = ""
    setup_world = None

    def __init__(self, world=None):
        self.w = world

    def match(self, ex, args):
        return True

    def instances(self, ex):
        raise NotImplementedError

    def requires(self, ex, *args):
        return []

    def raises(self, ex, *args):
        return []

    def value(self, ex, *args):
        return NotImplemented

    def result(self, ex, *args):
        return None

    def ensures(self, ex, r, *args):
        v = self.value(ex, *args)
        if v is NotImplemented:
            return []
        return equal_props(ex, r, v)

    def measure(self, *args):
        return None

    def getfunc(self, ex):
        return ex.get_function(self.qual)

    # -- call sites ----------------------------------------------------------
    def order(self, bound, f):
        a = f.node.args
        names = [x.arg for x in a.args] + ([a.vararg.arg] if a.vararg else []) + [x.arg for x in a.kwonlyargs]
        return [bound[n] for n in names if n in bound]

    def apply(self, ex, bound, f):
        args = self.order(bound, f)
        if not self.match(ex, args):
            return NotImplemented
        pargs = [freeze_deep(ex, a) for a in args]
        short = self.qual.split(":")[-1]
        for lab, p in self.requires(ex, *pargs):
            ex.safe("pre:%s:%s" % (short, lab), p)
        for exc, c in self.raises(ex, *pargs):
            if ex.decide(c):
                raise PyRaise(exc, None, ex.where)
        if ex.root is self and self.total:
            m = self.measure(*pargs)
            if m is not None:
                m0 = self.measure(*[freeze_deep(ex, a) for a in ex.args])
                ex.oblige("recursion-decreases", And(le(0, T(m)), lt(T(m), T(m0))))
            else:
                raise Unsupported("recursive call of %s without a measure" % short)
        v = self.value(ex, *pargs)
        if v is NotImplemented:
            kd = self.result(ex, *pargs)
            v = ex.fresh("r_" + short.split(".")[-1].strip("_"), kd) if kd is not None else None
            for lab, p in self.ensures(ex, v, *pargs):
                ex.add_fact("post", p)
        if isinstance(v, Seq):
            return ex.alloc(v, "list")
        if isinstance(v, tuple):
            return tuple(ex.alloc(x, "list") if isinstance(x, Seq) else x for x in v)
        return v


def freeze_deep(ex, v):
    if isinstance(v, Ref) and v.typ == "list":
        return ex.heap[v.addr]
    if isinstance(v, tuple):
        return tuple(freeze_deep(ex, x) for x in v)
    return v


def thaw(ex, v):
    """Pure value -> run-time value (lists become heap lists)."""
    if isinstance(v, Seq):
        return ex.alloc(v, "list")
    return v


def equal_props(ex, r, v, lab="value"):
    """Propositions stating that two pure values are equal."""
    r, v = freeze_deep(ex, r), freeze_deep(ex, v)
    if isinstance(r, Mix) or isinstance(v, Mix):
        s = (r if isinstance(r, Mix) else v).term.sort
        return [(lab, eq(as_term(r, s), as_term(v, s)))]
    if isinstance(r, bool) or isinstance(v, bool) or (isinstance(r, Term) and r.sort is PROP):
        a, b = prop_of(r), prop_of(v)
        return [(lab, eq(a, b))]
    if isinstance(r, (int, Term, bytes)) and isinstance(v, (int, Term, bytes)):
        a, b = as_term(r), as_term(v)
        return [(lab, eq(a, b))]
    if isinstance(r, (tuple,)) and isinstance(v, tuple):
        if len(r) != len(v):
            return [(lab, FALSE)]
        out = []
        for i, (x, y) in enumerate(zip(r, v)):
            out += equal_props(ex, x, y, "%s.%d" % (lab, i))
        return out
    if isinstance(r, tuple):
        r = Seq(list(r))
    if isinstance(v, tuple):
        v = Seq(list(v))
    if isinstance(r, Seq) and isinstance(v, Seq):
        if r.items is not None and v.items is not None:
            if len(r.items) != len(v.items):
                return [(lab + ".len", FALSE)]
            out = []
            for i, (x, y) in enumerate(zip(r.items, v.items)):
                out += equal_props(ex, x, y, "%s[%d]" % (lab, i))
            return out
        out = [(lab + ".len", eq(T(r.n), T(v.n)))]
        i = var("i?eq", INT)
        if is_lit(T(r.n), 0) or is_lit(T(v.n), 0):
            return out
        for l2, p in equal_props(ex, r.get(i), v.get(i), lab + "[i]"):
            out.append((l2, Forall(lambda x, p=p: Imp(And(le(0, x), lt(x, T(v.n))), subst(p, {"i?eq": x})))))
        return out
    if r is v or (type(r) is type(v) and not isinstance(r, (Term, Mix)) and r == v):
        return []
    if isinstance(r, Ref) or isinstance(v, Ref):
        raise Unsupported("equality of %r and %r" % (r, v))
    return [(lab + ": %r is not %r" % (r, v), FALSE)]


def prop_of(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, Term) and v.sort is PROP:
        return v
    raise Unsupported("a boolean was expected, got %r" % (v,))


class Scenarios(Contract):
    """Contracts stated as short programs: each scenario(ex) sets up symbolic
    arguments satisfying the precondition, calls the real function and states
    the postcondition with ex.oblige."""
    own = ()

    def scenarios(self, ex):
        """name -> fn(ex)"""
        return {n[2:]: getattr(self, n) for n in dir(self) if n.startswith("s_")}

    def instances(self, ex):
        return {n: (lambda ex: []) for n in self.scenarios(ex)}

    def getfunc(self, ex):
        return None

    def run(self, ex, iname):
        self.scenarios(ex)[iname](ex)
        return None

    def apply(self, ex, bound, f):
        return NotImplemented


def expect_raise(ex, names, fn, label="raises"):
    """fn must raise one of the named exceptions."""
    try:
        fn()
    except PyRaise as e:
        if any(exc_is(e.exc, n) for n in names):
            return
        ex.oblige("%s:%s-instead" % (label, e.exc), FALSE)
        return
    ex.oblige(label, FALSE)


def equal(ex, label, r, v):
    for lab, p in equal_props(ex, freeze_deep(ex, r), v, label):
        ex.oblige("ensures:" + lab, p)


# ---------------------------------------------------------------- driver -----
class Outcome:
    def __init__(self, contract, inst):
        self.contract, self.inst = contract, inst
        self.obls = []
        self.errors = []       # constructs the executor could not interpret
        self.paths = 0
        self.touched = set()
        self.used = set()


def verify(world, contract, maxpaths=400):
    """All obligations of one contract."""
    outs = []
    ex0 = Exec(world)
    ex0.root = contract
    try:
        insts = contract.instances(ex0)
    except (Unsupported, SourceError, PyRaise, KeyError, AttributeError) as e:
        o = Outcome(contract, "?")
        o.errors.append("%s: %s" % (type(e).__name__, e))
        return [o]
    for iname in insts:
        o = Outcome(contract, iname)
        outs.append(o)
        seen = set()
        stack = [[]]
        while stack:
            choices = stack.pop()
            o.paths += 1
            if o.paths > maxpaths:
                o.errors.append("too many paths")
                break
            ex = Exec(world, choices)
            ex.root = contract
            try:
                run_path(ex, contract, iname)
            except (Unsupported, SourceError) as e:
                o.errors.append("%s [%s]" % (e, ex.where))
            except NeedFork as e:
                if os.environ.get("PV_TB"):
                    import traceback
                    traceback.print_exc()
                o.errors.append("cannot follow: %s [%s]" % (e, ex.where))
            except RecursionError:
                o.errors.append("recursion too deep")
            except (TypeError, KeyError, AttributeError, IndexError, ValueError, AssertionError) as e:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)[-1]
                if os.environ.get("PV_TB"):
                    traceback.print_exc()
                    os.environ.pop("PV_TB")
                o.errors.append("executor: %s: %s at %s:%d [%s]" % (type(e).__name__, e, tb.filename.split("/")[-1], tb.lineno, ex.where))
            for ob in ex.obls:
                k = ob.key()
                if k not in seen:
                    seen.add(k)
                    o.obls.append(ob)
            o.touched |= world.touched
            # next alternatives
            for i in range(len(choices), len(ex.pending)):
                for alt in range(1, ex.pending[i]):
                    stack.append(ex.choices[:i] + [alt])
        o.used |= world.used_contracts
    return outs


def run_path(ex, contract, iname):
    if isinstance(contract, Scenarios):
        try:
            contract.run(ex, iname)
        except PyRaise as e:
            ex.oblige("no-exception:%s [%s]" % (e.exc, e.where), FALSE)
        except (PathEnd, Infeasible):
            pass
        return
    f = contract.getfunc(ex)
    args = contract.instances(ex)[iname](ex)
    pargs = [freeze_deep(ex, a) for a in args]
    for lab, p in contract.requires(ex, *pargs):
        ex.add_fact("req", p)
    ex.args = pargs
    rcs = contract.raises(ex, *pargs)
    short = contract.qual.split(":")[-1]
    try:
        r = contract.invoke(ex, f, args) if hasattr(contract, "invoke") else call_root(ex, f, args)
    except PyRaise as e:
        cs = [c for exc, c in rcs if exc == e.exc or exc_is(e.exc, exc)]
        ex.oblige("no-exception:%s" % e.exc, Or(*cs) if cs else FALSE)
        return
    except (PathEnd, Infeasible):
        return
    for exc, c in rcs:
        ex.oblige("raises:%s" % exc, Not(c))
        ex.add_fact("noraise", Not(c))
    r = freeze_deep(ex, r)
    for lab, p in contract.ensures(ex, r, *pargs):
        ex.oblige("ensures:" + lab, p)
    after = getattr(contract, "frame", None)
    if after is not None:
        for lab, p in after(ex, r, args, pargs):
            ex.oblige("frame:" + lab, p)
    elif not getattr(contract, "mutates", False):
        for a, p in zip(args, pargs):
            if isinstance(a, Ref) and a.typ == "list":
                now = ex.heap[a.addr]
                if now is not p and not same_value(now, p):
                    for lab, q in equal_props(ex, now, p, "argument-unchanged"):
                        ex.oblige("frame:" + lab, q)


def call_root(ex, f, args):
    if isinstance(f, Bound):
        return ex.call_func(f.func, [f.self_] + list(args), {}, root=True)
    if isinstance(f, Func):
        return ex.call_func(f, list(args), {}, root=True)
    return ex.call(f, list(args))
