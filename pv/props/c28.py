"""C28: memoization."""
from ..check import Property
from ..contract import *
from ..sorts import *
from ..values import *
from ..seqops import SymDict, StarArg

CTX = "{V : Type} {Res : Type} (F : List V → Kw V → Res) (F_perm : ∀ a k k', k.Perm k' → F a k = F a k')"


class CallSeal(Seal):
    """Positional arguments, keyword arguments and their items, as opaque values."""
    star = True

    def __init__(self, what):
        self.what = what

    def getattr(self, ex, v, name):
        if self.what == "kw" and name in ("items", "keys", "values"):
            s = {"items": ITEMS, "keys": NAMES, "values": VALS}[name]
            fn = {"items": None, "keys": "kwNames", "values": "kwVals"}[name]
            return Builtin(name, lambda ex, a, k: app(fn, s, v) if fn else app("kwItems", ITEMS, v))
        raise Unsupported("attribute %s of call arguments" % name)

    def convert(self, ex, name, v):
        if name == "sorted" and self.what in ("items",):
            return app("kwSorted", ITEMS, v)
        if name in ("tuple", "list") and self.what != "kw":
            return v
        raise Unsupported("%s of call arguments" % name)

    def truth(self, ex, v):
        raise Unsupported("truth of call arguments")


def _sort(what, lean):
    return sealed_class(what, CallSeal(what), lean, ring=False)


ARGS, KW, ITEMS, NAMES, VALS = _sort("args", "List V"), _sort("kw", "Kw V"), _sort("items", "Kw V"), _sort("names", "List String"), _sort("vals", "List V")
KEY, RES = Sort("PyKey", "PyKey V"), sealed_class("res", CallSeal("res"), "Res", ring=False)

DOM, VAL = var("dom0", FnSort([KEY], PROP)), var("val0", FnSort([KEY], RES))


def keyof(ex, k):
    if isinstance(k, tuple):
        r = app("PyKey.none", KEY)
        for x in reversed(k):
            kx = keyof(ex, x)
            r = kx if x is k[-1] and r.op == "app" and r.args[0] == "PyKey.none" else app("PyKey.pair", KEY, kx, r)
        return r
    if isinstance(k, Term):
        n = {"args": "args", "items": "items", "kw": "items", "names": "names", "vals": "vals"}.get(k.sort.name)
        if n:
            return app("PyKey." + n, KEY, k)
    raise Unsupported("cache key %r" % (k,))


class Memoize(Scenarios):
    qual = "starks.numbertype:memoize"
    lean_ctx = CTX
    hints = {"ensures:invariant": "!(first | assumption | exact memo_step F_perm key_inj h_req _ _)", "ensures:*": "!(memo_auto2 F_perm)", "*": "!memo_auto"}

    def world(self, ex):
        """The memoized version of f, where f maps call arguments to F and counts its calls."""
        count = ex.alloc({"$class": ClassVal("Count", [], {}, "Count"), "n": T(0)}, "obj")

        def f(ex, a, k):
            if len(a) == 1 and isinstance(a[0], StarArg) and list(k) == ["**"]:
                d = dict(ex.heap[count.addr])
                d["n"] = T(d["n"]) + 1
                ex.heap[count.addr] = d
                return app("F", RES, a[0].seq, k["**"])
            raise Unsupported("call of the function with other arguments")
        before = set(ex.heap)
        g = ex.call(ex.get_function(self.qual), [Builtin("f", f)])
        if not isinstance(g, Func):
            raise Unsupported("memoize returns %r" % (g,))
        self.caches = [a for a in ex.heap if a not in before and isinstance(ex.heap[a], DictV)]
        if len(self.caches) != 1 or ex.heap[self.caches[0]].items != {}:
            raise Unsupported("memoize keeps its results in %d tables" % len(self.caches))
        return g, count, self.caches[0]

    def invoke(self, ex, g, a, k):
        env = ex.new_env(g.env, **{g.node.args.vararg.arg: a, g.node.args.kwarg.arg: k})
        from ..exec import _Return
        if g.node.args.args or g.node.args.kwonlyargs:
            raise Unsupported("signature of the memoized function")
        try:
            ex.exec_block(g.node.body, env)
        except _Return as e:
            return e.v
        return None

    def key(self, ex, g, cache):
        """The key under which the real code stores a result (run once on an empty cache)."""
        a, k = ex.fresh("a", ("s", ARGS)), ex.fresh("k", ("s", KW))
        self.invoke(ex, g, a, k)
        d = ex.heap[cache]
        if d.items is None or len(d.items) != 1:
            raise Unsupported("a first call stores %r entries" % (d.items and len(d.items),))
        t = keyof(ex, list(d.items.values())[0][0])
        return lambda x, y: subst(t, {a.args[0]: x, k.args[0]: y})

    def inv(self, key, d):
        K = Lam(lambda x: Lam(lambda y: key(x, y), KW, "k"), ARGS, "a")
        if d.items is not None:
            raise Unsupported("cache")
        return app("memoInv", PROP, K, Lam(lambda x: Lam(lambda y: app("F", RES, x, y), KW, "k"), ARGS, "a"), Lam(lambda q: d.dom(q), KEY, "q"), Lam(lambda q: as_term(d.val(q)), KEY, "q"))

    def havoc(self, ex):
        g, count, cache = self.world(ex)
        key = self.key(ex, g, cache)
        d = SymDict(lambda q: apply(DOM, q), lambda q: apply(VAL, q), KEY, ("s", RES), keyof)
        ex.heap[cache] = d
        ex.add_fact("req", self.inv(key, d))
        return g, count, cache, key

    def s_any_history(self, ex):
        """after any earlier calls, the result is the function's and the invariant is kept"""
        g, count, cache, key = self.havoc(ex)
        a, k = ex.fresh("args", ("s", ARGS)), ex.fresh("kw", ("s", KW))
        r = self.invoke(ex, g, a, k)
        ex.oblige("ensures:result", eq(as_term(r), app("F", RES, a, k)))
        ex.oblige("ensures:invariant", self.inv(key, ex.heap[cache]))

    def s_first(self, ex):
        """with an empty cache: the result is the function's, and the cache satisfies the invariant"""
        g, count, cache = self.world(ex)
        key = self.key(ex, g, cache)
        ex.heap[cache] = SymDict(lambda q: FALSE, lambda q: apply(VAL, q), KEY, ("s", RES), keyof)
        ex.oblige("ensures:initial", self.inv(key, ex.heap[cache]))
        a, k = ex.fresh("args", ("s", ARGS)), ex.fresh("kw", ("s", KW))
        r = self.invoke(ex, g, a, k)
        ex.oblige("ensures:result", eq(as_term(r), app("F", RES, a, k)))

    def s_identical(self, ex):
        """asking again, keywords in any order, returns the stored object: the function is not called again"""
        g, count, cache, key = self.havoc(ex)
        a, k, k2 = ex.fresh("args", ("s", ARGS)), ex.fresh("kw", ("s", KW)), ex.fresh("kw", ("s", KW))
        ex.add_fact("req", app("List.Perm", PROP, k, k2))
        ex.add_fact("req", app("List.Nodup", PROP, app("kwNames", NAMES, k)))
        r = self.invoke(ex, g, a, k)
        n = T(ex.heap[count.addr]["n"])
        r2 = self.invoke(ex, g, a, k2)
        ex.oblige("ensures:not-called-again", eq(T(ex.heap[count.addr]["n"]), n))
        ex.oblige("ensures:same-result", eq(as_term(r2), as_term(r)))


class Factories(Scenarios):
    """Every type constructor the statement speaks of is the memoized function."""
    qual = "starks.numbertype:memoize@factories"
    NAMES = [("starks.modp", "IntegersModP"), ("starks.polynomial", "polynomials_over"), ("starks.finitefield", "FiniteField"),
             ("starks.rationals_modp", "RationalsModP"), ("starks.multivariate_polynomial", "multivariates_over"), ("starks.floatingpoint", "FloatingPoint")]

    def s_decorated(self, ex):
        ex.memo = []

        def hook(ex, f, args, kw):
            b = Builtin("memoized", lambda ex, a, k: None)
            ex.memo.append(b)
            return b
        ex.w.call_hooks["starks.numbertype:memoize"] = hook
        for mod, name in self.NAMES:
            v = ex.module_name(mod, name)
            ex.oblige("ensures:%s" % name, TRUE if any(v is b for b in ex.memo) else FALSE)


class C28(Property):
    id = "C28"
    contracts = (Memoize, Factories)
    lib = ("Pv.Memo",)
    assumptions = ("argument values compare and hash consistently, and arguments that compare equal count as the same argument (as for any dictionary key)",
                   "the memoized function's result depends only on its positional arguments and the set of its keyword arguments (determinism; the order of keywords does not matter)")


PROPERTY = C28()
