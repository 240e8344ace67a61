"""Finite dictionaries and sets over the keys of one scalar sort.

A dictionary is a domain and a value function; iterating over it runs through
an enumeration of the domain in an unknown order, without repetition (a Python
dictionary is finite and has each key once)."""
from .seqops import *
from .values import *
from .terms import *


def enum(ex, dom, ksort):
    """The keys in some order."""
    n = ex.fresh("keys_n", ("s", INT))
    kname, iname = ex.newname("keys"), ex.newname("at")
    keys, at = var(kname, FnSort([INT], ksort)), var(iname, FnSort([ksort], INT))
    ex.add_fact("enum", le(0, n))
    ex.add_fact("enum", Forall_range(0, n, lambda i: T(dom(apply(keys, i)))))
    ex.add_fact("enum", Forall(lambda q: Imp(T(dom(q)), And(le(0, apply(at, q)), lt(apply(at, q), n), eq(apply(keys, apply(at, q)), q))), ksort))
    ex.add_fact("enum", Forall_range(0, n, lambda i: eq(apply(at, apply(keys, i)), i)))
    r = Seq(None, n, lambda i: apply(keys, T(i)), ("s", ksort))
    r.member, r.at = dom, at
    if not hasattr(ex, "enums"):
        ex.enums = {}
    ex.enums[kname] = (dom, at, n)
    return r


def replace_at(t, kname, z, q, at):
    """In t, the z-th key of the enumeration becomes q, and z its position."""
    memo = {}

    def go(t):
        if not isinstance(t, Term):
            return t
        if z not in freevars(t):
            return t
        if t.key in memo:
            return memo[t.key]
        if t.op == "fapp" and t.args[0].op == "var" and t.args[0].args[0] == kname and len(t.args) == 2 and t.args[1].op == "var" and t.args[1].args[0] == z:
            r = q
        elif t.op == "var":
            r = apply(at, q)
        else:
            r = None
            try:
                r = rebuild(t, [go(a) for a in t.args])
            except Exception:
                raise Unsupported("dictionary comprehension value %s" % (t,))
        memo[t.key] = r
        return r
    return go(t)


def comp_dict(ex, pairs, ksort, keyfn=None):
    """The dictionary of a comprehension whose keys enumerate a domain."""
    zn = "i?key"
    z = var(zn, INT)
    k, v, *cond = pairs.get(z)
    if not (isinstance(k, Term) and k.op == "fapp" and k.args[0].op == "var" and k.args[0].args[0] in getattr(ex, "enums", {})
            and k.args[1].op == "var" and k.args[1].args[0] == zn):
        return None
    kname = k.args[0].args[0]
    dom, at, n = ex.enums[kname]
    if T(pairs.n).key != T(n).key:
        return None
    if not isinstance(v, Term):
        return None
    if cond:
        c = cond[0] if isinstance(cond[0], bool) else ex.truth(cond[0])
        if not isinstance(c, bool) and not (isinstance(c, Term) and c.sort is PROP):
            return None
        all_ = dom
        dom = lambda q: And(T(all_(q)), replace_at(T(c), kname, zn, q, at))
    return SymDict(dom, lambda q: replace_at(v, kname, zn, q, at), ksort, kind_of(v), keyfn)


class View(TypedOpaque):
    """A set of keys (also the keys of a dictionary)."""

    def __init__(self, member, ksort, keyfn=None):
        TypedOpaque.__init__(self, "set", self)
        self.member, self.ksort, self.keyfn = member, ksort, keyfn

    def key(self, ex, x):
        return self.keyfn(ex, x) if self.keyfn else T(x, self.ksort)

    def contains(self, ex, x):
        return simp(T(self.member(self.key(ex, x))))

    def seq(self, ex):
        return enum(ex, self.member, self.ksort)

    def eq(self, ex, a, b):
        return Forall(lambda q: Iff(T(a.member(q)), T(b.member(q))), self.ksort)

    def binop(self, ex, op, o):
        if not isinstance(o, View):
            return NotImplemented
        f = {"BitOr": Or, "BitAnd": And, "Sub": lambda x, y: And(x, Not(y))}.get(op)
        return NotImplemented if f is None else View(lambda q: f(T(self.member(q)), T(o.member(q))), self.ksort, self.keyfn)

    def method(self, ex, v, name):
        if name in ("union", "intersection", "difference"):
            def m(ex, a, k):
                r = self
                for x in a:
                    x = as_view(ex, x)
                    if x is None:
                        raise Unsupported("union with a list")
                    r = r.binop(ex, {"union": "BitOr", "intersection": "BitAnd", "difference": "Sub"}[name], x)
                return r
            return SymFunc(name, m)
        if name == "copy":
            return SymFunc(name, lambda ex, a, k: self)
        return NotImplemented


def as_view(ex, x):
    if isinstance(x, View):
        return x
    if isinstance(x, Ref) and x.typ == "dict" and isinstance(ex.heap[x.addr], SymDict):
        d = ex.heap[x.addr]
        return View(d.dom, d.ksort, d.keyfn)
    if isinstance(x, (Seq, Ref)) and not (isinstance(x, Ref) and x.typ not in ("list",)):
        s = ex.seq(x)
        if getattr(s, "member", None) is not None:
            return View(s.member, s.kind[1])
    return None
