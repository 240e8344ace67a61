"""Semantics of built-in types and operators."""
import ast
from .values import *


class TypeName:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, TypeName) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "<type %s>" % self.name


class SymFunc:
    """An uninterpreted (or specially modelled) callable."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<symfunc %s>" % self.name


class ExcVal:
    def __init__(self, name, args):
        self.name, self.args = name, args


class StrV:
    """A string as a sequence of characters (DigitCh values or 1-char str)."""

    def __init__(self, seq):
        self.seq = seq


class BinV(StrV):
    """bin(x): '0b' and the digits"""

    def __init__(self, digits):
        StrV.__init__(self, digits)
        self.digits = digits

        def get(i):
            raise Unsupported("characters of bin()")
        self.seq = Seq(None, add(T(digits.n), 2), get, ("const", "char"))


class DigitCh:
    """The decimal digit character of a (symbolic) digit."""

    def __init__(self, term):
        self.term = term

    def merged(self, c, o):
        return DigitCh(ite(c, self.term, o.term))


class TypedOpaque:
    def __init__(self, typ, data=None, truth=None):
        self.typ, self.data, self.truth = typ, data, truth


class StarArg:
    def __init__(self, seq):
        self.seq = seq


class _NotImpl:
    def __repr__(self):
        return "NotImplemented"


NOTIMPL = _NotImpl()


# ------------------------------------------------------------------- lists ---
def norm_index(ex, n, i):
    """Python index -> non-negative index (obligation: in range)."""
    if isinstance(i, bool) or not isinstance(i, (int, Term)):
        raise Unsupported("index %r" % (i,))
    if isinstance(i, Term) and i.sort is not INT:
        raise Unsupported("index of sort %s" % i.sort)
    if isinstance(n, int) and isinstance(i, int):
        if not -n <= i < n:
            raise PyRaise("IndexError", None, ex.where)
        return i % n if n else i
    if isinstance(i, Term) and i.op == "int":
        i = i.args[0]
    if isinstance(i, int):
        if i < 0:
            ex.safe("index", le(-i, T(n)))
            return add(n, i)
        ex.safe("index", lt(i, T(n)))
        return i
    # symbolic index: provably non-negative, or provably in -n..-1 ?
    if ex.known(lt(i, 0)) and not ex.known(le(0, i)):
        ex.safe("index", le(neg(T(n)), i))
        return add(n, i)
    ex.safe("index", And(le(0, i), lt(i, T(n))))
    return i


def index_value(ex, v, i):
    if isinstance(v, Ref) and v.typ == "dict":
        return dict_get(ex, v, i)
    if isinstance(v, Ref) and v.typ == "obj":
        m = ex.heap[v.addr]["$class"].lookup("__getitem__")
        if m is not None:
            return ex.call(m, [v, i])
        raise Unsupported("indexing an object")
    if isinstance(v, Term):
        if v.sort is BYTES:
            n = app("blen", INT, v)
            j = norm_index(ex, n, i)
            return app("bget", INT, v, T(j))
        if v.sort.cls is not None:
            return ex.call_method(v, "__getitem__", [i])
    if isinstance(v, (str, bytes)) and isinstance(i, int):
        try:
            return v[i]
        except IndexError:
            raise PyRaise("IndexError", None, ex.where)
    if isinstance(v, StrV):
        return v.seq.get(norm_index(ex, v.seq.n, i))
    if isinstance(v, TypedOpaque) and v.data is not None and hasattr(v.data, "getitem"):
        return v.data.getitem(ex, v, i)
    s = ex.seq(v)
    if s.items is not None and isinstance(i, Term) and i.op != "int":
        if len(s.items) == 0:
            ex.safe("index", FALSE)
            raise Unsupported("index into an empty list")
        norm_index(ex, s.n, i)
        # small concrete list, symbolic index
        return s.get(i)
    return s.get(norm_index(ex, s.n, i))


def clampi(ex, x, n):
    """min(max(x,0),n) after Python's negative-index adjustment; x int or Term."""
    n = T(n)
    if isinstance(x, int):
        if x >= 0:
            if ex.nonneg(n - x):
                return T(x)
            return ite(le(x, n), T(x), n)
        r = n + x
        if ex.nonneg(r):
            return r
        return ite(le(0, r), r, T(0))
    if ex.nonneg(x):
        if ex.nonneg(n - x):
            return x
        return ite(le(x, n), x, n)
    adj = ite(lt(x, 0), x + n, x)
    return ite(lt(adj, 0), T(0), ite(lt(n, adj), n, adj))


def max0(ex, t):
    t = T(t)
    if t.op == "int":
        return lit(t.args[0] if t.args[0] > 0 else 0)
    if ex.nonneg(t):
        return t
    return ite(le(0, t), t, T(0))


def slice_seq(ex, s, lo, hi, st):
    if st is None:
        st = 1
    if not isinstance(st, int):
        raise Unsupported("symbolic slice step")
    if s.items is not None and all(x is None or isinstance(x, int) for x in (lo, hi)):
        return Seq(s.items[lo:hi:st], None, None, s.kind)
    n = T(s.n)
    for x in (lo, hi):
        if not (x is None or isinstance(x, int) or (isinstance(x, Term) and x.sort is INT)):
            raise Unsupported("slice bound %r" % (x,))
    if st > 0:
        a = T(0) if lo is None else clampi(ex, lo, n)
        b = n if hi is None else clampi(ex, hi, n)
        cnt = max0(ex, b - a)
        if st > 1:
            cnt = fdiv(cnt + (st - 1), st)
        return Seq(None, unlit(cnt), lambda i: s.get(a + i * st), kind_of(s)[1])
    # negative step: start/stop defaults and clamping differ
    if lo is None:
        a = n - 1
    else:
        a = clampi(ex, lo, n)
        if not (isinstance(lo, int) and lo < 0):
            a = ite(le(n, a), n - 1, a) if not ex.known(lt(a, n)) else a
    if hi is None:
        b = T(-1)
    elif isinstance(hi, int) and hi >= 0:
        b = T(hi) if ex.nonneg(n - 1 - hi) else ite(le(hi, n - 1), T(hi), n - 1)
    else:
        raise Unsupported("slice with negative step and this stop")
    cnt = max0(ex, a - b)
    if st < -1:
        cnt = fdiv(cnt + (-st - 1), -st)
    return Seq(None, unlit(cnt), lambda i: s.get(a + i * st), kind_of(s)[1])


def unlit(t):
    return t.args[0] if isinstance(t, Term) and t.op == "int" else t


def slice_value(ex, v, lo, hi, st):
    lo, hi, st = [unlit(x) if isinstance(x, Term) else x for x in (lo, hi, st)]
    if isinstance(v, Term) and v.sort is BYTES:
        if st not in (None, 1):
            raise Unsupported("bytes slice with a step")
        n = app("blen", INT, v)
        a = T(0) if lo is None else clampi(ex, lo, n)
        b = n if hi is None else clampi(ex, hi, n)
        return app("bslice", BYTES, v, a, b)
    if isinstance(v, (bytes, str)):
        if all(x is None or isinstance(x, int) for x in (lo, hi, st)):
            return v[lo:hi:st]
        raise Unsupported("slice of a constant")
    if sealof(v) is not None and hasattr(sealof(v), "slice"):
        return sealof(v).slice(ex, v, lo, hi, st)
    if isinstance(v, BinV) and lo == 2 and hi is None and st is None:
        return StrV(v.digits)
    if isinstance(v, StrV):
        return StrV(slice_seq(ex, v.seq, lo, hi, st))
    if isinstance(v, tuple):
        r = slice_seq(ex, Seq(v), lo, hi, st)
        return tuple(r.items) if r.items is not None else r
    if isinstance(v, Ref) and v.typ == "list":
        return ex.alloc(slice_seq(ex, ex.heap[v.addr], lo, hi, st), "list")
    if isinstance(v, Seq):
        return slice_seq(ex, v, lo, hi, st)
    if isinstance(v, TypedOpaque) and v.data is not None and hasattr(v.data, "slice"):
        return v.data.slice(ex, v, lo, hi, st)
    raise Unsupported("slice of %r" % (v,))


def set_item(ex, v, i, x):
    if isinstance(v, Ref) and v.typ == "dict":
        return dict_set(ex, v, i, x)
    if not (isinstance(v, Ref) and v.typ == "list"):
        raise Unsupported("item assignment on %r" % (v,))
    check_unshared(ex, v)
    s = ex.heap[v.addr]
    j = norm_index(ex, s.n, i)
    x = ex.freeze_in(x)
    ex.heap[v.addr] = seq_set(s, j, x)


def seq_set(s, j, x):
    if isinstance(j, Term) and j.op == "int":
        j = j.args[0]
    if s.items is not None and isinstance(j, int):
        items = list(s.items)
        items[j] = x
        r = Seq(items)
    else:
        jt = T(j)
        k = join_kind(kind_of(s)[1], kind_of(x))

        def get(i, s=s, jt=jt, x=x):
            c = eq(i, jt)
            if c.op == "true":
                return x
            if c.op == "false":
                return s.get(i)
            return merge(c, x, s.get(i))
        r = Seq(None, s.n, get, k)
    r.prov = ("set", s, T(j), x)
    return r


def check_unshared(ex, ref):
    if ref.addr in ex.heap.get("$shared", {}):
        raise Unsupported("mutation of a list that is also stored inside another value")


def list_append(ex, ref, x):
    check_unshared(ex, ref)
    s = ex.heap[ref.addr]
    if isinstance(x, Ref) and x.typ == "dict" and s.items is None:
        k = kind_of(s)[1]
        seal = k[1].cls.seal if k is not None and k[0] == "s" and k[1].cls is not None else None
        if hasattr(seal, "absorb"):
            ex.mark_shared(x)
            x = seal.absorb(ex, x)
    ex.heap[ref.addr] = seq_append(s, [ex.freeze_in(x)])


def seq_append(s, xs):
    if s.items is not None:
        r = Seq(list(s.items) + list(xs))
    else:
        n = T(s.n)
        k = kind_of(s)[1]
        for x in xs:
            k = join_kind(k, kind_of(x))

        def get(i, s=s, xs=xs, n=n):
            r = None
            for j in range(len(xs) - 1, -1, -1):
                c = eq(i, n + j)
                if c.op == "true":
                    return xs[j]
                r = xs[j] if r is None else merge(c, xs[j], r)
            c = lt(i, n)
            if c.op == "true":
                return s.get(i)
            if c.op == "false":
                return r
            if kind_of(s)[1] is None:
                return r
            return merge(c, s.get(i), r)
        r = Seq(None, n + len(xs), get, k)
    r.prov = ("append", s, list(xs))
    return r


def concat(ex, a, b):
    if a.items is not None and b.items is not None:
        r = Seq(a.items + b.items)
        r.prov = ("append", a, list(b.items))
        return r
    if b.items is not None:
        return seq_append(a, b.items)
    if a.items is not None and not a.items:
        return b
    na = T(a.n)
    k = join_kind(kind_of(a)[1], kind_of(b)[1])

    def get(i):
        c = lt(i, na)
        if c.op == "true":
            return a.get(i)
        if c.op == "false":
            return b.get(i - na)
        return merge(c, a.get(i), b.get(i - na))
    r = Seq(None, na + T(b.n), get, k)
    if a.items is not None:
        r.prov = ("prepend", b, list(a.items))
    return r


def merge_seq_prov(c, a, b):
    """Merge two versions of a list, keeping loop provenance when possible."""
    if a is b:
        return a
    for x, y, pos in ((a, b, True), (b, a, False)):
        # x = set(y, j, v)  ->  set(y, j, ite c v y[j])
        if x.prov and x.prov[0] == "set" and x.prov[1] is y:
            _, base, j, v = x.prov
            old = base.get(j)
            return seq_set(base, j, merge(c, v, old) if pos else merge(c, old, v))
    if a.prov and b.prov and a.prov[0] == b.prov[0] == "set" and a.prov[1] is b.prov[1] and T(a.prov[2]).key == T(b.prov[2]).key:
        return seq_set(a.prov[1], a.prov[2], merge(c, a.prov[3], b.prov[3]))
    if a.prov and b.prov and a.prov[0] == b.prov[0] == "append" and a.prov[1] is b.prov[1] and len(a.prov[2]) == len(b.prov[2]):
        return seq_append(a.prov[1], [merge(c, x, y) for x, y in zip(a.prov[2], b.prov[2])])
    return merge(c, a, b)


def repeat(ex, s, n):
    if isinstance(n, Term) and n.op == "int":
        n = n.args[0]
    if isinstance(n, int):
        if s.items is not None:
            return Seq(s.items * n)
    if s.items is not None and len(s.items) == 1:
        x = s.items[0]
        return Seq(None, max0(ex, n), lambda i: x, kind_of(x))
    raise Unsupported("list repetition")


# ------------------------------------------------------------- dictionaries --
def dict_key(ex, k):
    if isinstance(k, Term):
        return ("t", k.key)
    if isinstance(k, tuple):
        return ("tup",) + tuple(dict_key(ex, x) for x in k)
    if isinstance(k, (int, str, bytes, bool)) or k is None:
        return ("c", k)
    raise Unsupported("dictionary key %r" % (k,))


def dict_get(ex, ref, k):
    d = ex.heap[ref.addr]
    if d.items is not None:
        kk = dict_key(ex, k)
        if kk in d.items:
            return d.items[kk][1]
        if all(x[0] == "c" for x in list(d.items) + [kk]):
            raise PyRaise("KeyError", None, ex.where)
        raise Unsupported("symbolic key in a concrete dict")
    t = d.key_term(ex, k)
    ex.safe("key", d.dom(t))
    return d.val(t)


def dict_set(ex, ref, k, v):
    check_unshared(ex, ref)
    d = ex.heap[ref.addr]
    if d.items is not None and getattr(ex.w, "dictkey", None) is not None:
        t = symbolic_key(ex, k)
        if t is not None and not d.items:
            d = SymDict(lambda q: FALSE, lambda q: v, t.sort, kind_of(v), ex.w.dictkey[1])
            d.entries = []
    if d.items is not None:
        items = dict(d.items)
        items[dict_key(ex, k)] = (k, v)
        ex.heap[ref.addr] = DictV(items=items)
        return
    ex.heap[ref.addr] = d.store(ex, d.key_term(ex, k), v)


def symbolic_key(ex, k):
    """The term of a key of the sort w.dictkey names, or None."""
    dk = getattr(ex.w, "dictkey", None)
    if dk is None or isinstance(k, (str, int, bytes)) or k is None:
        return None
    return dk[1](ex, k)


class SymDict(DictV):
    """dom/val over Term keys of one sort."""

    def __init__(self, dom, val, ksort, vkind, keyfn=None):
        DictV.__init__(self, items=None, dom=dom, val=val, kkind=("s", ksort), vkind=vkind)
        self.ksort = ksort
        self.keyfn = keyfn

    def key_term(self, ex, k):
        if self.keyfn is not None:
            return self.keyfn(ex, k)
        dk = getattr(ex.w, "dictkey", None)
        if dk is not None and dk[0] is self.ksort:
            return dk[1](ex, k)
        return T(bytes_term(k) if isinstance(k, bytes) else k, self.ksort)

    def store(self, ex, t, v):
        old = self

        def dom(k):
            return Or(eq(k, t), old.dom(k))

        def val(k):
            c = eq(k, t)
            if c.op == "true":
                return v
            return merge(c, v, old.val(k))
        r = SymDict(dom, val, self.ksort, self.vkind, self.keyfn)
        if getattr(old, "entries", None) is not None:
            r.entries = old.entries + [(t, v)]
        return r


def dict_comp(ex, e, env):
    cenv = ex.new_env(env)
    g = e.generators[0]
    if len(e.generators) != 1:
        raise Unsupported("nested dict comprehension")
    src = ex.eval(g.iter, env)
    h = ex.w.externals.get("$dictcomp")
    if h is not None:
        r = h(ex, e, src, cenv)
        if r is not NotImplemented:
            return r
    it = ex.seq(src)
    if it.items is not None:
        items = {}
        for x in it.items:
            ex.assign(g.target, x, cenv)
            if all(ex.decide(ex.eval_cond(c, cenv)) for c in g.ifs):
                k = ex.eval(e.key, cenv)
                items[dict_key(ex, k)] = (k, ex.eval(e.value, cenv))
        return ex.alloc(DictV(items=items), "dict")
    # the pairs in order, and the index of a key where the keys are i + c
    keyed = bool(g.ifs) and getattr(ex.w, "dictkey", None) is not None
    cond = [ast.BoolOp(ast.And(), list(g.ifs)) if len(g.ifs) > 1 else g.ifs[0]] if keyed else []
    node = ast.ListComp(elt=ast.Tuple(elts=[e.key, e.value] + cond, ctx=ast.Load()),
                        generators=[ast.comprehension(g.target, ast.Name("$source", ast.Load()), [] if keyed else g.ifs, 0)])
    ex.setname(cenv, "$source", it)
    pairs = ex.comp(ast.fix_missing_locations(ast.copy_location(node, e)), cenv)
    z = var("i?key", INT)
    k = pairs.get(z)[0]
    if isinstance(k, Term) and k.sort is not INT:
        from .maps import comp_dict
        d = comp_dict(ex, pairs, k.sort, (getattr(ex.w, "dictkey", None) or (None, None))[1])
        if d is not None:
            return ex.alloc(d, "dict")
    if keyed or not (isinstance(k, Term) and k.sort is INT):
        raise Unsupported("dict comprehension over a symbolic sequence")
    off = sub(k, z)
    if "i?key" in freevars(off):
        raise Unsupported("dict comprehension whose keys are not consecutive")
    n = T(pairs.n)
    d = SymDict(lambda q: And(le(off, q), lt(sub(q, off), n)), lambda q: pairs.get(sub(q, off))[1], INT, kind_of(pairs.get(z)[1]))
    d.pairs = pairs
    d.size = Seq(None, pairs.n, lambda i: pairs.get(i)[0], ("s", INT))
    return ex.alloc(d, "dict")


# --------------------------------------------------------------- operators ---
OPNAMES = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__", "FloorDiv": "__floordiv__",
           "Mod": "__mod__", "Pow": "__pow__", "BitXor": "__xor__", "BitAnd": "__and__", "BitOr": "__or__",
           "LShift": "__lshift__", "RShift": "__rshift__", "DivMod": "__divmod__"}
ROPS = {k: "__r" + v[2:] for k, v in OPNAMES.items()}


def sealof(v):
    if isinstance(v, Term) and v.sort.cls is not None and v.sort.cls.seal is not None:
        return v.sort.cls.seal
    if isinstance(v, Mix) and v.term.sort.cls is not None:
        return v.term.sort.cls.seal
    return None


def isint(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (isinstance(v, Term) and v.sort is INT) or isinstance(v, bool)


def asint(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, Term) and v.sort is PROP:
        return ite(v, T(1), T(0))
    return v


def positive(ex, b):
    if isinstance(b, int):
        return b > 0
    return ex.nonneg(T(b) - 1) or (ex.known(ne(T(b), 0)) and ex.nonneg(T(b)))


def int_op(ex, op, a, b):
    a, b = asint(a), asint(b)
    if isinstance(a, Term) and a.op == "int":
        a = a.args[0]
    if isinstance(b, Term) and b.op == "int":
        b = b.args[0]
    conc = isinstance(a, int) and isinstance(b, int)
    if op == "Add":
        return a + b if conc else unlit(add(a, b))
    if op == "Sub":
        return a - b if conc else unlit(sub(a, b))
    if op == "Mult":
        return a * b if conc else unlit(mul(a, b))
    if op in ("FloorDiv", "Mod"):
        if conc:
            if b == 0:
                raise PyRaise("ZeroDivisionError", None, ex.where)
            return a // b if op == "FloorDiv" else a % b
        if not (isinstance(b, int) and b):
            ex.safe("zerodiv", ne(T(b), 0))
        elif b == 0:
            raise PyRaise("ZeroDivisionError", None, ex.where)
        p = positive(ex, b)
        return unlit(fdiv(a, b, pos=p) if op == "FloorDiv" else fmod(a, b, pos=p))
    if op == "Div":
        if not (isinstance(b, int) and b):
            ex.safe("zerodiv", ne(T(b), 0))
        return FloatDiv(T(a), T(b))
    if op == "Pow":
        if conc:
            if b < 0:
                raise Unsupported("negative integer power")
            return a ** b
        ex.safe("negpow", le(0, T(b)))
        if isinstance(b, int):
            return Term("app", ("ipow", T(a), T(b)), INT) if b > 3 else unlit(mulpow(T(a), b))
        return app("ipow", INT, T(a), T(b))
    if op == "LShift":
        if isinstance(b, int):
            return int_op(ex, "Mult", a, 1 << b)
        ex.safe("shift", le(0, T(b)))
        return int_op(ex, "Mult", a, app("ipow", INT, T(2), T(b)))
    if op == "RShift":
        if isinstance(b, int):
            return int_op(ex, "FloorDiv", a, 1 << b)
        raise Unsupported("symbolic right shift")
    if op in ("BitAnd", "BitXor", "BitOr"):
        if conc:
            return {"BitAnd": a & b, "BitXor": a ^ b, "BitOr": a | b}[op]
        if op == "BitAnd":
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and y == 1:
                    return fmod(x, 2)
        if op == "BitXor":
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and y == 1:
                    return ite(eq(fmod(x, 2), 0), add(T(x), 1), sub(T(x), 1))
        ex.safe("bitop-nonneg", And(le(0, T(a)), le(0, T(b))))
        return app({"BitAnd": "iand", "BitXor": "ixor", "BitOr": "ior"}[op], INT, T(a), T(b))
    if op == "DivMod":
        return (int_op(ex, "FloorDiv", a, b), int_op(ex, "Mod", a, b))
    raise Unsupported("integer operator %s" % op)


def mulpow(a, n):
    r = T(1, a.sort)
    for _ in range(n):
        r = mul(r, a)
    return r


def binop(ex, op, a, b):
    if isinstance(a, TypedOpaque) and hasattr(a.data, "binop"):
        r = a.data.binop(ex, op, b)
        if r is not NotImplemented:
            return r
    if isint(a) and isint(b):
        return int_op(ex, op, a, b)
    if isinstance(a, Term) and a.sort is PROP and isint(b) or isinstance(b, Term) and b.sort is PROP and isint(a):
        return int_op(ex, op, asint(a), asint(b))
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque("op")
    # bytes
    if isbytes(a) and isbytes(b) and op == "Add":
        if isinstance(a, bytes) and isinstance(b, bytes):
            return a + b
        return bcat(bytes_term(a), bytes_term(b))
    if isinstance(a, str) and isinstance(b, str) and op == "Add":
        return a + b
    if isinstance(a, str) and op == "Mod":
        f = ex.w.externals.get("$fstring")
        parts = a.split("%s") if f is not None and a.count("%") == a.count("%s") else None
        vals = b if isinstance(b, tuple) else (b,)
        if parts is not None and len(parts) == len(vals) + 1:
            return f(ex, [p for q in zip(parts, tuple(vals) + ("",)) for p in q if not (isinstance(p, str) and p == "")])
        return Opaque("str")
    if isinstance(a, StrV) and isinstance(b, StrV) and op == "Add":
        return StrV(concat(ex, a.seq, b.seq))
    # sequences
    sa, sb = listlike(ex, a), listlike(ex, b)
    if op == "Add" and sa is not None and sb is not None:
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        r = concat(ex, sa, sb)
        return ex.alloc(r, "list") if isinstance(a, Ref) or isinstance(b, Ref) else r
    if op == "Mult" and (sa is not None and isint(b) or sb is not None and isint(a)):
        s, n = (sa, b) if sa is not None else (sb, a)
        o = a if sa is not None else b
        r = repeat(ex, s, n)
        if isinstance(o, tuple):
            return tuple(r.items) if r.items is not None else r
        return ex.alloc(r, "list")
    # objects
    if isobj(a) or isobj(b):
        return obj_binop(ex, op, a, b)
    # sealed abstract values
    s1, s2 = sealof(a), sealof(b)
    if s1 is not None or s2 is not None:
        cand = [s for s in (s1, s2) if s is not None]
        cand.sort(key=lambda s: -s.precedence)
        for s in cand:
            r = s.binop(ex, op, a, b)
            if r is not NotImplemented:
                return r
        raise PyRaise("TypeError", None, ex.where)
    if (sa is not None or sb is not None) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        raise PyRaise("TypeError", None, ex.where)
    raise Unsupported("operator %s on %r and %r" % (op, a, b))


def isobj(v):
    return isinstance(v, Ref) and v.typ == "obj"


def isbytes(v):
    return isinstance(v, bytes) or (isinstance(v, Term) and v.sort is BYTES)


def bcat(a, b):
    if a.op == "app" and a.args[0] == "bcat":
        return app("bcat", BYTES, a.args[1], bcat(a.args[2], b))
    return app("bcat", BYTES, a, b)


def listlike(ex, v):
    if isinstance(v, Seq):
        return v
    if isinstance(v, tuple):
        return Seq(v)
    if isinstance(v, Ref) and v.typ == "list":
        return ex.heap[v.addr]
    return None


def clsof(ex, v):
    if isobj(v):
        return ex.heap[v.addr]["$class"]
    if isinstance(v, Term) and v.sort.cls is not None:
        return v.sort.cls
    return None


def obj_binop(ex, op, a, b):
    ca, cb = clsof(ex, a), clsof(ex, b)
    for (o, name, other, c) in ((a, OPNAMES[op], b, ca), (b, ROPS[op], a, cb)):
        if c is None:
            continue
        if o is b and ca is cb and ca is not None:
            break
        if isinstance(o, Term):
            # sealed value first operand, object second
            r = c.seal.binop(ex, op, a, b)
            if r is not NotImplemented and r is not NOTIMPL:
                return r
            continue
        m = c.lookup(name)
        if m is None:
            continue
        r = ex.call(m, [o, other])
        if r is not NOTIMPL:
            return r
    raise PyRaise("TypeError", None, ex.where)


def inplace(ex, op, a, b):
    if op == "Add" and isinstance(a, Ref) and a.typ == "list":
        check_unshared(ex, a)
        s, t = ex.heap[a.addr], ex.seq(b)
        ex.heap[a.addr] = concat(ex, s, t)
        return a
    return binop(ex, op, a, b)


def unary_neg(ex, v):
    if isint(v):
        v = asint(v)
        return -v if isinstance(v, int) else neg(v)
    if isobj(v):
        m = ex.heap[v.addr]["$class"].lookup("__neg__")
        if m is None:
            raise PyRaise("TypeError", None, ex.where)
        return ex.call(m, [v])
    s = sealof(v)
    if s is not None:
        return s.neg(ex, v)
    if isinstance(v, Opaque):
        return v
    if v is None or isinstance(v, (str, bytes)):
        raise PyRaise("TypeError", None, ex.where)
    raise Unsupported("negation of %r" % (v,))


def value_eq(ex, a, b):
    """Python == as bool/Prop."""
    if isinstance(a, FloatDiv) or isinstance(b, FloatDiv):
        raise Unsupported("float comparison")
    if isint(a) and isint(b):
        a, b = asint(a), asint(b)
        return a == b if isinstance(a, int) and isinstance(b, int) else eq(a, b)
    if isinstance(a, Term) and a.sort is PROP and (isinstance(b, bool) or isinstance(b, Term) and b.sort is PROP):
        return eq(a, T(b))
    if isinstance(b, Term) and b.sort is PROP and isinstance(a, bool):
        return eq(b, T(a))
    if isinstance(a, Term) and a.sort is PROP and isint(b):
        return eq(asint(a), asint(b))
    if isinstance(b, Term) and b.sort is PROP and isint(a):
        return eq(asint(b), asint(a))
    if a is None or b is None:
        return a is None and b is None
    if isbytes(a) and isbytes(b):
        if isinstance(a, bytes) and isinstance(b, bytes):
            return a == b
        return eq(bytes_term(a), bytes_term(b))
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isobj(a) or isobj(b):
        return obj_eq(ex, "__eq__", a, b)
    s1, s2 = sealof(a), sealof(b)
    if s1 is not None or s2 is not None:
        cand = sorted([s for s in (s1, s2) if s is not None], key=lambda s: -s.precedence)
        for s in cand:
            r = s.eq(ex, a, b)
            if r is not NotImplemented:
                return r
        raise PyRaise("TypeError", None, ex.where)
    la, lb = listlike(ex, a), listlike(ex, b)
    if la is not None and lb is not None:
        return seq_eq(ex, la, lb)
    if isinstance(a, Ref) and isinstance(b, Ref) and a.typ == b.typ == "dict":
        da, db = ex.heap[a.addr], ex.heap[b.addr]
        if da.items is not None and db.items is not None and not da.items and not db.items:
            return True
        return dict_eq(ex, da, db)
    if isinstance(a, (TypeName, ClassVal)) or isinstance(b, (TypeName, ClassVal)):
        return ident(a, b)
    if isinstance(a, Ref) and isinstance(b, Ref) and a == b:
        return True
    if isinstance(a, TypedOpaque) and isinstance(b, TypedOpaque) and hasattr(a.data, "eq"):
        return a.data.eq(ex, a, b)
    if (isinstance(a, str) and isinstance(b, DigitCh)) or (isinstance(b, str) and isinstance(a, DigitCh)):
        s, d = (a, b) if isinstance(a, str) else (b, a)
        return eq(d.term, int(s)) if s.isdigit() and len(s) == 1 else False
    types = {type(a), type(b)}
    if types <= {int, str, bytes, bool, tuple} and len(types) == 2:
        return False
    # different built-in kinds never compare equal
    if (isint(a) or isbytes(a) or isinstance(a, str)) and (isint(b) or isbytes(b) or isinstance(b, str)):
        return False
    if (listlike(ex, a) is None) != (listlike(ex, b) is None):
        return False
    raise Unsupported("comparison of %r and %r" % (a, b))


def seq_eq(ex, a, b):
    if a.items is not None and b.items is not None:
        if len(a.items) != len(b.items):
            return False
        acc = []
        for x, y in zip(a.items, b.items):
            v = value_eq(ex, x, y)
            if v is False:
                return False
            if v is not True:
                acc.append(v)
        return And(*acc) if acc else True
    if isinstance(a.n, int) and a.n == 0:
        return simp(eq(T(b.n), 0))
    if isinstance(b.n, int) and b.n == 0:
        return simp(eq(T(a.n), 0))
    depth = ex.eqdepth = getattr(ex, "eqdepth", 0) + 1
    nm = "i?e%d" % depth
    i = var(nm, INT)
    try:
        v = T(value_eq(ex, a.get(i), b.get(i)))
    finally:
        ex.eqdepth = depth - 1
    return simp(And(eq(T(a.n), T(b.n)), Forall(lambda x: Imp(And(le(0, x), lt(x, T(a.n))), subst(v, {nm: x})))))


def dict_eq(ex, a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SymDict) and y.items is not None and not y.items:
            return Forall(lambda q: Not(T(x.dom(q))), x.ksort)
    if isinstance(a, SymDict) and isinstance(b, SymDict):
        return Forall(lambda q: And(Iff(T(a.dom(q)), T(b.dom(q))), Imp(T(a.dom(q)), T(value_eq(ex, a.val(q), b.val(q))))), a.ksort)
    raise Unsupported("dictionary comparison")


def simp(t):
    return True if t.op == "true" else False if t.op == "false" else t


def obj_eq(ex, name, a, b):
    ca = clsof(ex, a)
    cb = clsof(ex, b)
    for o, other, c in ((a, b, ca), (b, a, cb)):
        if c is None:
            continue
        if isinstance(o, Term):
            r = c.seal.eq(ex, a, b)
            if r is not NotImplemented:
                return r if name == "__eq__" else bnot(r)
            continue
        m = c.lookup(name)
        if m is None:
            continue
        r = ex.call(m, [o, other])
        if r is not NOTIMPL:
            return r
    if name == "__ne__":
        r = obj_eq(ex, "__eq__", a, b)
        return bnot(ex.truth(r))
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a == b
    return False


def bnot(v):
    return (not v) if isinstance(v, bool) else simp(Not(v))


def ident(a, b):
    if isinstance(a, TypeName) or isinstance(b, TypeName):
        return a == b
    if isinstance(a, Term) and isinstance(b, Term):
        raise Unsupported("identity of symbolic values")
    if a is None or b is None:
        return a is b
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a == b
    if isinstance(a, (bool,)) or isinstance(b, (bool,)):
        return a is b
    return a is b


def compare(ex, op, a, b):
    if op == "Eq":
        return value_eq(ex, a, b)
    if op == "NotEq":
        if isobj(a) or isobj(b):
            return obj_eq(ex, "__ne__", a, b)
        return bnot(value_eq(ex, a, b))
    if op == "Is" or op == "IsNot":
        if (isinstance(a, bool) or isinstance(b, bool)) and (isinstance(a, Term) or isinstance(b, Term)):
            r = value_eq(ex, a, b)
        elif isinstance(a, Term) and b is None or isinstance(b, Term) and a is None:
            r = False
        else:
            r = ident(a, b)
        return r if op == "Is" else bnot(r)
    if op in ("Lt", "LtE", "Gt", "GtE"):
        if op in ("Gt", "GtE"):
            a, b, op = b, a, {"Gt": "Lt", "GtE": "LtE"}[op]
        if isint(a) and isint(b):
            a, b = asint(a), asint(b)
            if isinstance(a, int) and isinstance(b, int):
                return a < b if op == "Lt" else a <= b
            return simp(lt(a, b) if op == "Lt" else le(a, b))
        if isinstance(a, FloatDiv) or isinstance(b, FloatDiv):
            return float_cmp(ex, op, a, b)
        for x, y, n in ((a, b, {"Lt": "__lt__", "LtE": "__le__"}[op]), (b, a, {"Lt": "__gt__", "LtE": "__ge__"}[op])):
            if isinstance(x, Term) and x.sort.cls is not None and x.sort.cls.seal is not None:
                r = x.sort.cls.seal.getattr(ex, x, n)
                if isinstance(r, SymFunc):
                    return ex.call(r, [y])
        raise Unsupported("ordering of %r and %r" % (a, b))
    if op in ("In", "NotIn"):
        r = contains(ex, b, a)
        return r if op == "In" else bnot(r)
    raise Unsupported("comparison %s" % op)


def float_cmp(ex, op, a, b):
    # x/y < z/w with positive denominators (exact rationals; floats treated as exact)
    def nd(v):
        return (v.a, v.b) if isinstance(v, FloatDiv) else (T(v), T(1))
    (p, q), (r, s) = nd(a), nd(b)
    if not (positive(ex, q) and positive(ex, s)):
        raise Unsupported("float comparison")
    return simp(lt(p * s, r * q) if op == "Lt" else le(p * s, r * q))


def contains(ex, c, x):
    if isinstance(c, Ref) and c.typ == "dict":
        d = ex.heap[c.addr]
        if d.items is not None:
            if not d.items:
                return False
            kk = dict_key(ex, x)
            if kk in d.items:
                return True
            acc = [value_eq(ex, k, x) for k, _ in d.items.values()]
            if any(v is True for v in acc):
                return True
            acc = [v for v in acc if v is not False]
            return simp(Or(*acc)) if acc else False
        return simp(d.dom(d.key_term(ex, x)))
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if isinstance(c, TypedOpaque) and hasattr(c.data, "contains"):
        return c.data.contains(ex, x)
    s = ex.seq(c)
    if s.items is not None:
        acc = []
        for y in s.items:
            v = value_eq(ex, y, x)
            if v is True:
                return True
            if v is not False:
                acc.append(v)
        return simp(Or(*acc)) if acc else False
    i = var("i?c", INT)
    v = T(value_eq(ex, s.get(i), x))
    return simp(Exists(lambda j: And(le(0, j), lt(j, T(s.n)), subst(v, {"i?c": j}))))


# ------------------------------------------------------------ methods --------
def method(ex, v, name):
    def B(fn):
        return Builtin(name, fn)
    if isinstance(v, Ref) and v.typ == "list":
        if name == "append":
            return B(lambda ex, a, k: list_append(ex, v, a[0]))
        if name == "extend":
            def ext(ex, a, k):
                check_unshared(ex, v)
                ex.heap[v.addr] = concat(ex, ex.heap[v.addr], ex.seq(a[0]))
            return B(ext)
        if name == "insert":
            def ins(ex, a, k):
                check_unshared(ex, v)
                s = ex.heap[v.addr]
                i = unlit(a[0])
                if i == 0 and isinstance(i, int):
                    x = ex.freeze_in(a[1])
                    if s.items is not None:
                        r = Seq([x] + s.items)
                    else:
                        kk = join_kind(kind_of(s)[1], kind_of(x))

                        def get(i, s=s, x=x):
                            c = eq(i, 0)
                            if c.op == "true":
                                return x
                            if c.op == "false":
                                return s.get(i - 1)
                            return merge(c, x, s.get(i - 1))
                        r = Seq(None, T(s.n) + 1, get, kk)
                    r.prov = ("prepend", s, [x])
                    ex.heap[v.addr] = r
                    return None
                if s.items is not None and isinstance(i, int):
                    items = list(s.items)
                    items.insert(i, ex.freeze_in(a[1]))
                    ex.heap[v.addr] = Seq(items)
                    return None
                raise Unsupported("insert at a symbolic index")
            return B(ins)
        if name == "pop":
            def pop(ex, a, k):
                check_unshared(ex, v)
                s = ex.heap[v.addr]
                if a and not (isinstance(a[0], int) and a[0] == -1):
                    if s.items is not None and isinstance(a[0], int):
                        items = list(s.items)
                        if not -len(items) <= a[0] < len(items):
                            raise PyRaise("IndexError", None, ex.where)
                        x = items.pop(a[0])
                        ex.heap[v.addr] = Seq(items)
                        return x
                    raise Unsupported("pop(i)")
                if s.items is not None:
                    if not s.items:
                        raise PyRaise("IndexError", None, ex.where)
                    x = s.items[-1]
                    ex.heap[v.addr] = Seq(s.items[:-1])
                    return x
                ex.safe("pop", lt(0, T(s.n)))
                x = s.get(T(s.n) - 1)
                ex.heap[v.addr] = Seq(None, T(s.n) - 1, s.get, s.kind)
                return x
            return B(pop)
        if name == "copy":
            return B(lambda ex, a, k: ex.alloc(ex.heap[v.addr], "list"))
        if name == "reverse":
            def rev(ex, a, k):
                check_unshared(ex, v)
                ex.heap[v.addr] = slice_seq(ex, ex.heap[v.addr], None, None, -1)
            return B(rev)
        if name == "__iter__":
            return B(lambda ex, a, k: ex.heap[v.addr])
        if name == "clear":
            def clear(ex, a, k):
                check_unshared(ex, v)
                ex.heap[v.addr] = Seq([])
            return B(clear)
    if name == "index" and (isinstance(v, Seq) or isinstance(v, Ref) and v.typ == "list"):
        def idx(ex, a, k):
            s = ex.seq(v)
            if s.items is not None and isinstance(a[0], int) and all(isinstance(x, int) for x in s.items):
                if a[0] not in s.items:
                    raise PyRaise("ValueError", None, ex.where)
                return s.items.index(a[0])
            i = ex.fresh("ix", ("s", INT))
            x = a[0]
            j = var("i?x", INT)
            here = T(value_eq(ex, s.get(j), x))
            ex.safe("index-of", Exists(lambda q: And(le(0, q), lt(q, T(s.n)), subst(here, {"i?x": q}))))
            ex.add_fact("index-of", And(le(0, i), lt(i, T(s.n)), subst(here, {"i?x": i})))
            ex.add_fact("index-first", Forall_range(0, i, lambda q: Not(subst(here, {"i?x": q}))))
            return i
        return B(idx)
    if isinstance(v, Ref) and v.typ == "dict":
        d = ex.heap[v.addr]
        if getattr(d, "pairs", None) is not None and name in ("keys", "values", "items"):
            ps, j = d.pairs, ("keys", "values", "items").index(name)
            return B(lambda ex, a, k: ps if j == 2 else Seq(None, ps.n, lambda i: ps.get(i)[j], kind_of(ps.get(var("i?key", INT))[j])))
        if name in ("keys", "items", "values") and isinstance(d, SymDict) and d.size is None and getattr(d, "method", None) is None:
            from .maps import View, enum
            if name == "keys":
                return B(lambda ex, a, k: View(d.dom, d.ksort, d.keyfn))

            def pairs(ex, a, k):
                ks = enum(ex, d.dom, d.ksort)
                return Seq(None, ks.n, (lambda i: (ks.get(i), d.val(ks.get(i)))) if name == "items" else lambda i: d.val(ks.get(i)), None)
            return B(pairs)
        if name == "copy" and isinstance(d, SymDict):
            return B(lambda ex, a, k: ex.alloc(d, "dict"))
        if name == "keys":
            return B(lambda ex, a, k: ex.seq(v))
        if name == "items" and d.items is not None:
            return B(lambda ex, a, k: Seq([(kk, vv) for kk, vv in ex.heap[v.addr].items.values()]))
        if name == "values" and d.items is not None:
            return B(lambda ex, a, k: Seq([vv for kk, vv in ex.heap[v.addr].items.values()]))
        if name == "get":
            def get(ex, a, k):
                c = contains(ex, v, a[0])
                if isinstance(c, Term):
                    c = ex.decide(c)
                return dict_get(ex, v, a[0]) if c else (a[1] if len(a) > 1 else None)
            return B(get)
        h = getattr(d, "method", None)
        if h is not None:
            r = h(ex, v, name)
            if r is not None:
                return r
    if isinstance(v, Ref) and v.typ == "set":
        if name == "add":
            def sadd(ex, a, k):
                ex.heap[v.addr] = Seq(ex.heap[v.addr].items + [a[0]])
            return B(sadd)
        h = getattr(ex.heap[v.addr], "method", None)
    if isint(v):
        if name == "to_bytes":
            def tb(ex, a, k):
                order = a[1] if len(a) > 1 else k.get("byteorder", "big")
                n = a[0] if a else k.get("length", 1)
                if order not in ("big", "little"):
                    raise Unsupported("byte order")
                x = asint(v)
                if isinstance(x, int) and isinstance(n, int):
                    try:
                        return x.to_bytes(n, order)
                    except OverflowError:
                        raise PyRaise("OverflowError", None, ex.where)
                ex.safe("to_bytes", And(le(0, T(x)), lt(T(x), app("ipow", INT, T(256), T(n)) if not isinstance(n, int) else T(256 ** n))))
                return app("toBytesBE" if order == "big" else "toBytesLE", BYTES, T(x), T(n))
            return B(tb)
        if name == "bit_length":
            def bl(ex, a, k):
                if isinstance(v, int):
                    return v.bit_length()
                raise Unsupported("bit_length")
            return B(bl)
    if isinstance(v, TypeName) and v.name == "int" and name == "from_bytes":
        def fb(ex, a, k):
            order = a[1] if len(a) > 1 else k.get("byteorder", "big")
            x = a[0]
            if isinstance(x, bytes):
                return int.from_bytes(x, order)
            if not isbytes(x):
                raise PyRaise("TypeError", None, ex.where)
            r = app("fromBytesBE" if order == "big" else "fromBytesLE", INT, x)
            ex.add_fact("frombytes", le(0, r))
            return r
        return B(fb)
    if isbytes(v):
        if name == "join":
            def join(ex, a, k):
                s = ex.seq(a[0])
                if not (isinstance(v, bytes) and v == b""):
                    raise Unsupported("join with a separator")
                if s.items is not None:
                    if not s.items:
                        return b""
                    r = None
                    for x in reversed(s.items):
                        if not isbytes(x):
                            raise PyRaise("TypeError", None, ex.where)
                        r = x if r is None else binop(ex, "Add", x, r)
                    return r
                e = s.get(var("i?j", INT))
                if not isbytes(e):
                    raise PyRaise("TypeError", None, ex.where)
                return app("bjoin", BYTES, T(s.n), Lam(lambda i: T(bytes_term(s.get(i)))))
            return B(join)
        if name == "hex":
            return B(lambda ex, a, k: Opaque("hex"))
    if isinstance(v, str):
        if name == "join":
            def sjoin(ex, a, k):
                s = ex.seq(a[0])
                if v == "" and s.items is None:
                    return StrV(s)
                if v == "" and all(isinstance(x, (str, DigitCh)) for x in s.items):
                    if all(isinstance(x, str) for x in s.items):
                        return "".join(s.items)
                    return StrV(s)
                return Opaque("str")
            return B(sjoin)
        if name == "encode":
            return B(lambda ex, a, k: v.encode())
        if name in ("format",):
            return B(lambda ex, a, k: Opaque("str"))
        if name == "zfill":
            return B(lambda ex, a, k: v.zfill(a[0]))
        if name == "isdigit":
            return B(lambda ex, a, k: v.isdigit())
    if isinstance(v, StrV):
        if name == "zfill":
            def zf(ex, a, k):
                n = T(v.seq.n)
                w = T(a[0])
                pad = max0(ex, w - n)
                return StrV(concat(ex, Seq(None, pad, lambda i: DigitCh(T(0)), ("const", "digit")), v.seq) if not is_lit(pad, 0) else v.seq)
            return B(zf)
        if name == "replace" or name == "lstrip":
            raise Unsupported("string method %s" % name)
    if isinstance(v, TypedOpaque) and v.data is not None and hasattr(v.data, "method"):
        return v.data.method(ex, v, name)
    if isinstance(v, (tuple, Seq)) and name == "__iter__":
        return B(lambda ex, a, k: ex.seq(v))
    return None


# ------------------------------------------------------------ types / builtins
def call_type(ex, name, a, k):
    x = a[0] if a else None
    if name in ("tuple", "list", "frozenset") and len(a) == 1 and getattr(sealof(x), "star", False):
        return sealof(x).convert(ex, name, x)
    if name == "int":
        if not a:
            return 0
        if len(a) == 2 or "base" in k:
            base = a[1] if len(a) == 2 else k["base"]
            if isinstance(x, str):
                return int(x, base)
            if isinstance(x, StrV) and base == 2:
                s = x.seq
                d = var("i?b", INT)
                dig = s.get(d)
                if not isinstance(dig, DigitCh):
                    raise Unsupported("int() of this string")
                ex.safe("int-parse", lt(0, T(s.n)))
                ex.safe("int-digit", Forall_range(0, T(s.n), lambda i: And(le(0, s.get(i).term), le(s.get(i).term, 1))))
                return app("bitsval", INT, T(s.n), Lam(lambda i: s.get(i).term))
            raise Unsupported("int() with a base")
        if isint(x):
            return asint(x)
        if isinstance(x, Term) and x.sort is PROP:
            return asint(x)
        if isinstance(x, FloatDiv):
            if isinstance(x.b, Term) and x.b.op == "int" and x.b.args[0] > 0:
                if ex.nonneg(x.a):
                    return fdiv(x.a, x.b)
                return app("Int.tdiv", INT, x.a, x.b)
            return app("Int.tdiv", INT, x.a, x.b)
        if isinstance(x, DigitCh):
            return x.term
        if isinstance(x, str):
            try:
                return int(x)
            except ValueError:
                raise PyRaise("ValueError", None, ex.where)
        if isobj(x):
            m = ex.heap[x.addr]["$class"].lookup("__int__")
            if m is not None:
                return ex.call(m, [x])
            raise PyRaise("TypeError", None, ex.where)
        s = sealof(x)
        if s is not None and isinstance(x, Term):
            r = s.to_int(ex, x)
            if r is not NotImplemented:
                return r
            raise PyRaise("TypeError", None, ex.where)
        if x is None or listlike(ex, x) is not None or isinstance(x, Ref):
            raise PyRaise("TypeError", None, ex.where)
        if isbytes(x):
            raise PyRaise("ValueError", None, ex.where)
        if isinstance(x, TypedOpaque):
            raise PyRaise("TypeError", None, ex.where)
        raise Unsupported("int(%r)" % (x,))
    if name == "bool":
        return ex.truth(x)
    if name == "list":
        return ex.alloc(ex.seq(x) if a else Seq([]), "list")
    if name == "tuple":
        if not a:
            return ()
        s = ex.seq(x)
        return tuple(s.items) if s.items is not None else s
    if name == "set":
        if a:
            from .maps import as_view
            r = as_view(ex, x)
            if r is not None:
                return r
        return ex.alloc(ex.seq(x) if a else Seq([]), "set")
    if name == "dict":
        if not a and not k:
            return ex.alloc(DictV(items={}), "dict")
        if a and isinstance(x, Ref) and x.typ == "dict":
            return ex.alloc(ex.heap[x.addr], "dict")
        raise Unsupported("dict(...)")
    if name == "str" and len(a) == 1 and ex.w.externals.get("$fstring") is not None:
        r = ex.w.externals["$fstring"](ex, [x])
        if not isinstance(r, Opaque):
            return r
    if name == "str":
        if isinstance(x, (int, str)) and not isinstance(x, bool):
            return str(x)
        if isinstance(x, Term) and x.sort is INT:
            if ex.known(And(le(0, x), le(x, 9))) or getattr(ex.root, "digit_str", False):
                ex.safe("digit", And(le(0, x), le(x, 9)))
                return DigitCh(x)
        return Opaque("str")
    if name == "bytes":
        if not a:
            return b""
        if isbytes(x):
            return x
        raise Unsupported("bytes(...)")
    if name == "type":
        return ex.class_of(x)
    if name == "object":
        return Opaque("object")
    if name in ("property", "staticmethod", "classmethod"):
        f = x
        g = Func(f.node, f.env, f.module, f.qual, f.cls)
        g.defaults = f.defaults
        g.kind = name
        return g
    if name == "float":
        if isint(x):
            return FloatDiv(T(asint(x)), T(1))
        return Opaque("float")
    raise Unsupported("call of type %s" % name)


BUILTINS = {}
EXTERNALS = {}


def bi(name):
    def d(f):
        BUILTINS[name] = f
        return f
    return d


def ext(name):
    def d(f):
        EXTERNALS[name] = f
        return f
    return d


@bi("len")
def _len(ex, a, k):
    v = a[0]
    if isinstance(v, Ref) and v.typ == "obj":
        m = ex.heap[v.addr]["$class"].lookup("__len__")
        if m is None:
            raise PyRaise("TypeError", None, ex.where)
        return ex.call(m, [v])
    if isinstance(v, Ref) and v.typ == "dict":
        d = ex.heap[v.addr]
        if d.items is not None:
            return len(d.items)
        if d.size is not None:
            return d.size.n if isinstance(d.size, Seq) else d.size
        raise Unsupported("len of a symbolic dict")
    if isinstance(v, Term) and v.sort is BYTES:
        r = app("blen", INT, v)
        return r
    if isinstance(v, (str, bytes, tuple)):
        return len(v)
    if isinstance(v, Term) and v.sort.cls is not None:
        return ex.call_method(v, "__len__", [])
    if isinstance(v, StrV):
        return v.seq.n
    if isinstance(v, TypedOpaque) and v.data is not None and hasattr(v.data, "len"):
        return v.data.len(ex, v)
    if isint(v) or v is None:
        raise PyRaise("TypeError", None, ex.where)
    if isinstance(v, Ref) and v.typ == "set":
        return distinct(ex, ex.heap[v.addr])
    return ex.seq(v).n


def distinct(ex, s):
    """number of different entries"""
    if s.items is not None and len(s.items) <= 1:
        return len(s.items)
    if s.items is not None and all(isinstance(x, (int, str, bytes)) for x in s.items):
        return len(set(s.items))
    e = s.get(var("i?m", INT)) if s.items is None else None
    if isinstance(e, Term) and e.sort is INT:
        return app("distinct", INT, T(s.n), Lam(lambda i: T(s.get(i))))
    raise Unsupported("size of a symbolic set")


@bi("abs")
def _abs(ex, a, k):
    v = a[0]
    if isint(v):
        v = asint(v)
        if isinstance(v, int):
            return abs(v)
        if ex.nonneg(v):
            return v
        return app("iabs", INT, v)
    return ex.call_method(v, "__abs__", [])


@bi("range")
def _range(ex, a, k):
    a = [asint(unlit(x) if isinstance(x, Term) else x) for x in a]
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    for x in (lo, hi, st):
        if not isint(x):
            raise PyRaise("TypeError", None, ex.where)
    if all(isinstance(x, int) for x in (lo, hi, st)):
        r = range(lo, hi, st)
        if len(r) <= 64:
            return Seq(list(r))
        return Seq(None, len(r), lambda i: add(lo, mul(st, i)), ("s", INT))
    if not isinstance(st, int) or st == 0:
        raise Unsupported("symbolic range step")
    if st > 0:
        cnt = max0(ex, sub(hi, lo))
    else:
        cnt = max0(ex, sub(lo, hi))
    if abs(st) > 1:
        cnt = fdiv(cnt + (abs(st) - 1), abs(st))
    return Seq(None, unlit(cnt), lambda i: add(lo, mul(st, i)), ("s", INT))


@bi("enumerate")
def _enumerate(ex, a, k):
    s = ex.seq(a[0])
    start = a[1] if len(a) > 1 else k.get("start", 0)
    if s.items is not None:
        return Seq([(binop(ex, "Add", start, i) if isinstance(start, Term) else start + i, x) for i, x in enumerate(s.items)])
    return Seq(None, s.n, lambda i: (add(start, i), s.get(i)), ("tuple", (("s", INT), kind_of(s)[1])) if kind_of(s)[1] else None)


@bi("zip")
def _zip(ex, a, k):
    if len(a) == 1 and isinstance(a[0], StarArg):
        # zip(*rows): column j is the sequence of row[j]
        rows = a[0].seq
        n = ex.fresh("zipn", ("s", INT))
        ex.add_fact("zip", le(0, n))
        i = var("i?r", INT)
        rn = T(rows.get(i).n)
        ex.add_fact("zip", Forall_range(0, T(rows.n), lambda r: le(n, subst(rn, {"i?r": r}))))
        ex.add_fact("zip", Imp(lt(0, T(rows.n)), Exists(lambda r: And(le(0, r), lt(r, T(rows.n)), eq(n, subst(rn, {"i?r": r}))))))
        ex.add_fact("zip", Imp(eq(T(rows.n), 0), eq(n, 0)))
        kk = kind_of(rows)[1]
        return Seq(None, n, lambda j: Seq(None, rows.n, lambda r: rows.get(r).get(j), kk[1] if kk else None), ("seq", kk[1]) if kk else None)
    ss = [ex.seq(x) for x in a]
    if not ss:
        return Seq([])
    if all(s.items is not None for s in ss):
        return Seq([tuple(t) for t in zip(*[s.items for s in ss])])
    ns = [T(s.n) for s in ss]
    m = ns[0]
    for x in ns[1:]:
        if ex.known(le(m, x)):
            continue
        if ex.known(le(x, m)):
            m = x
            continue
        m = ite(le(m, x), m, x)
    ks = [kind_of(s)[1] for s in ss]
    return Seq(None, unlit(m), lambda i: tuple(s.get(i) for s in ss), ("tuple", tuple(ks)) if all(ks) else None)


@ext("itertools:zip_longest")
def _zip_longest(ex, a, k):
    fill = k.get("fillvalue")
    ss = [ex.seq(x) for x in a]
    if all(s.items is not None for s in ss):
        n = max([len(s.items) for s in ss] + [0])
        return Seq([tuple(s.items[i] if i < len(s.items) else fill for s in ss) for i in range(n)])
    ns = [T(s.n) for s in ss]
    m = ns[0]
    for x in ns[1:]:
        if ex.known(le(m, x)):
            m = x
            continue
        if ex.known(le(x, m)):
            continue
        m = ite(le(m, x), x, m)

    def el(s, i):
        if s.items is not None and not s.items:
            return fill
        return merge(lt(i, T(s.n)), s.get(i), fill)
    return Seq(None, unlit(m), lambda i: tuple(el(s, i) for s in ss))


@bi("sum")
def _sum(ex, a, k):
    s = ex.seq(a[0])
    start = a[1] if len(a) > 1 else k.get("start", 0)
    if s.items is not None:
        r = start
        for x in s.items:
            r = binop(ex, "Add", r, x)
        return r
    e = s.get(var("i?u", INT))
    if isinstance(e, Term) and e.sort is INT:
        return add(start, app("isum", INT, T(s.n), Lam(lambda i: T(s.get(i)))))
    if isinstance(e, Term) and e.sort.ring:
        t = app("isum", e.sort, T(s.n), Lam(lambda i: T(s.get(i))))
        if start == 0:
            return Mix(t)
        return binop(ex, "Add", start, t)
    if isinstance(e, Mix):
        raise Unsupported("sum of possibly-int elements")
    raise Unsupported("sum of %r" % (e,))


def _quant(ex, a, isall):
    s = ex.seq(a[0])
    if s.items is not None:
        acc = []
        for x in s.items:
            v = ex.truth(x)
            if isinstance(v, bool):
                if v != isall:
                    return not isall
                continue
            acc.append(v)
        if not acc:
            return isall
        return simp(And(*acc) if isall else Or(*acc))
    i = var("i?q", INT)
    v = T(ex.truth(s.get(i)))
    if isall:
        return simp(Forall_range(0, T(s.n), lambda j: subst(v, {"i?q": j})))
    return simp(Exists(lambda j: And(le(0, j), lt(j, T(s.n)), subst(v, {"i?q": j}))))


@bi("all")
def _all(ex, a, k):
    return _quant(ex, a, True)


@bi("any")
def _any(ex, a, k):
    return _quant(ex, a, False)


@bi("min")
def _min(ex, a, k):
    return minmax(ex, a, True)


@bi("max")
def _max(ex, a, k):
    return minmax(ex, a, False)


def minmax(ex, a, ismin):
    if len(a) == 1:
        s = ex.seq(a[0])
        if s.items is None:
            # max over a symbolic sequence of ints
            e = s.get(var("i?m", INT))
            if isinstance(e, Term) and e.sort is INT:
                ex.safe("max-nonempty", lt(0, T(s.n)))
                m = ex.fresh("mx", ("s", INT))
                cmp_ = (lambda x: le(m, x)) if ismin else (lambda x: le(x, m))
                ex.add_fact("max", Forall_range(0, T(s.n), lambda i: cmp_(T(s.get(i)))))
                ex.add_fact("max", Exists(lambda i: And(le(0, i), lt(i, T(s.n)), eq(m, T(s.get(i))))))
                return m
            raise Unsupported("max of a symbolic sequence")
        a = s.items
        if not a:
            raise PyRaise("ValueError", None, ex.where)
    r = a[0]
    for x in a[1:]:
        c = T(compare(ex, "Lt", x, r) if ismin else compare(ex, "Lt", r, x))
        if isint(x) and isint(r) and not ismin and ex.known(le(T(r), T(x))):
            c = T(True)
        r = x if ex.known(c) else r if ex.known(Not(c)) else merge(c, x, r)
    return r


@bi("divmod")
def _divmod(ex, a, k):
    return binop(ex, "DivMod", a[0], a[1])


@bi("pow")
def _pow(ex, a, k):
    if len(a) == 2:
        return binop(ex, "Pow", a[0], a[1])
    x, n, m = a
    if all(isinstance(v, int) for v in a):
        return pow(x, n, m)
    if all(isint(v) for v in a):
        ex.safe("pow-exp", le(0, T(n)))
        ex.safe("pow-mod", ne(T(m), 0))
        return fmod(app("ipow", INT, T(x), T(n)), m, pos=positive(ex, m))
    raise Unsupported("pow with 3 arguments")


@bi("isinstance")
def _isinstance(ex, a, k):
    v, t = a
    if isinstance(t, tuple):
        return any(_isinstance(ex, [v, x], {}) for x in t)
    if isinstance(v, Mix):
        raise Unsupported("isinstance of a value that may be an int")
    c = ex.class_of(v)
    if isinstance(t, TypeName):
        if isinstance(c, TypeName):
            return c == t or (t.name == "int" and c.name == "bool") or t.name == "object"
        if t.name == "object":
            return True
        return False
    if isinstance(t, ClassVal):
        return isinstance(c, ClassVal) and c.issub(t)
    if isinstance(t, Opaque):
        raise Unsupported("isinstance against %r" % (t,))
    return False


@bi("hasattr")
def _hasattr(ex, a, k):
    v, n = a
    if isinstance(v, ClassVal):
        if v.seal is not None:
            try:
                r = v.seal.class_attr(ex, n)
            except PyRaise:
                return False
            if r is not NotImplemented:
                return True
        return v.lookup(n) is not None
    if isinstance(v, TypeName):
        return n in dir({"int": int, "list": list, "tuple": tuple, "bytes": bytes, "str": str, "bool": bool, "dict": dict, "set": set, "function": type(lambda: 0), "NoneType": type(None), "type": type}.get(v.name, object))
    if isobj(v):
        return n in ex.heap[v.addr] or ex.heap[v.addr]["$class"].lookup(n) is not None
    if isinstance(v, Term) and v.sort.cls is not None:
        try:
            ex.getattr(v, n)
            return True
        except Unsupported:
            return False
    c = ex.class_of(v)
    return _hasattr(ex, [c, n], {})


@bi("getattr")
def _getattr(ex, a, k):
    return ex.getattr(a[0], a[1])


@bi("callable")
def _callable(ex, a, k):
    return isinstance(a[0], (Func, Bound, SymFunc, Builtin, ClassVal, TypeName))


@bi("print")
def _print(ex, a, k):
    return None


@bi("iter")
def _iter(ex, a, k):
    return ex.seq(a[0])


@bi("reversed")
def _reversed(ex, a, k):
    return slice_seq(ex, ex.seq(a[0]), None, None, -1)


@bi("sorted")
def _sorted(ex, a, k):
    if sealof(a[0]) is not None and not k and len(a) == 1:
        return sealof(a[0]).convert(ex, "sorted", a[0])
    s = ex.seq(a[0])
    if getattr(s, "member", None) is not None:      # keys of a dictionary: in some order
        return ex.alloc(s, "list")
    if s.items is not None and len(s.items) == 2 and not k:
        x, y = s.items
        c = compare(ex, "Lt", y, x)
        if isinstance(c, bool):
            return ex.alloc(Seq([y, x] if c else [x, y]), "list")
        return ex.alloc(Seq([merge(c, y, x), merge(c, x, y)]), "list")
    if s.items is not None and all(isinstance(x, int) for x in s.items):
        return ex.alloc(Seq(sorted(s.items)), "list")
    if getattr(s, "root", None) == "sorted-keys":
        return ex.alloc(s, "list")
    raise Unsupported("sorted of a symbolic sequence")


@bi("map")
def _map(ex, a, k):
    s = ex.seq(a[1])
    if s.items is not None:
        return Seq([ex.call(a[0], [x]) for x in s.items])
    return ex.map_seq(s, lambda x: ex.freeze_in(ex.call(a[0], [x])))


@bi("bin")
def _bin(ex, a, k):
    x = a[0]
    if isinstance(x, int):
        return bin(x)
    ex.safe("bin-nonneg", le(0, x))
    n = app("bitlen", INT, x)
    ex.add_fact("bitlen", le(1, n))
    return BinV(Seq(None, n, lambda i: DigitCh(app("bitat", INT, x, n - 1 - i)), ("const", "digit")))


@bi("repr")
def _repr(ex, a, k):
    return Opaque("repr")


@bi("hash")
def _hash(ex, a, k):
    raise Unsupported("hash()")


@bi("id")
def _id(ex, a, k):
    raise Unsupported("id()")


@ext("time:time")
def _time(ex, a, k):
    return Opaque("time")


def blake_obj(ex, a, k):
    return TypedOpaque("hash", HashObj("H", bytes_term(a[0]) if isinstance(a[0], bytes) else a[0]))


class HashObj:
    def __init__(self, fn, x):
        self.fn, self.x = fn, x

    def method(self, ex, v, name):
        if name == "digest":
            if not isbytes(self.x):
                raise PyRaise("TypeError", None, ex.where)
            return Builtin("digest", lambda ex, a, k: app(self.fn, BYTES, self.x))
        return None


EXTERNALS["hashlib:blake2s"] = blake_obj


@ext("random:randint")
def _randint(ex, a, k):
    x = ex.fresh("rnd", ("s", INT))
    ex.safe("randint", le(T(a[0]), T(a[1])))
    ex.add_fact("rnd", And(le(T(a[0]), x), le(x, T(a[1]))))
    return x


@ext("random:getrandbits")
def _getrandbits(ex, a, k):
    x = ex.fresh("rnd", ("s", INT))
    ex.add_fact("rnd", And(le(0, x), lt(x, app("ipow", INT, T(2), T(a[0])))))
    return x


@ext("random:shuffle")
def _shuffle(ex, a, k):
    ref = a[0]
    s = ex.seq(ref)
    check_unshared(ex, ref)
    p = ex.fresh("perm", ("seq", ("s", INT)))
    ex.add_fact("perm", eq(T(p.n), T(s.n)))
    ex.add_fact("perm", app("isperm", PROP, T(s.n), Lam(lambda i: T(p.get(i)))))
    if s.items is not None and s.items != list(range(len(s.items))):
        items = s.items
        s = Seq(None, len(items), lambda i: at(items, i), kind_of(s))
    if s.items is None:
        ex.heap[ref.addr] = Seq(None, s.n, lambda i: s.get(p.get(i)), s.kind)
    else:
        ex.heap[ref.addr] = Seq(None, s.n, lambda i: p.get(i), ("s", INT))
    return None


def at(items, i):
    v = items[-1]
    for j in range(len(items) - 2, -1, -1):
        v = merge(eq(T(i), j), items[j], v)
    return v


@ext("random:choice")
def _choice(ex, a, k):
    s = ex.seq(a[0])
    ex.safe("choice-nonempty", lt(0, T(s.n)))
    i = ex.fresh("rnd", ("s", INT))
    ex.add_fact("rnd", And(le(0, i), lt(i, T(s.n))))
    if s.items is not None and len(s.items) <= 8:
        for j, x in enumerate(s.items[:-1]):
            if ex.decide(eq(i, j)):
                return x
        return s.items[-1]
    r = s.get(i)
    if getattr(ex, "ghost_named_choice", False) and isinstance(r, tuple) and all(isinstance(x, Term) for x in r):
        out = tuple(ex.fresh("pick", ("s", x.sort)) for x in r)
        for x, y in zip(out, r):
            ex.add_fact("pick", eq(x, y))
        h = getattr(ex, "ghost_named_choice")
        h(ex, out)
        return out
    return r
