"""Run-time values of the symbolic executor."""
from .terms import *


class Unsupported(Exception):
    """The executor cannot interpret a construct: the obligation stays undischarged."""


class NeedFork(Exception):
    """A symbolic decision was met where only straight-line execution is allowed."""


class PyRaise(Exception):
    def __init__(self, name, value=None, where=""):
        Exception.__init__(self, name)
        self.exc, self.value, self.where = name, value, where


class Mix:
    """A ring element that may, at run time, still be the Python int 0 or 1."""

    def __init__(self, term):
        self.term = term

    def __repr__(self):
        return "Mix(%s)" % self.term


class FloatDiv:
    """Result of int / int (only int(...) of it is supported)."""

    def __init__(self, a, b):
        self.a, self.b = a, b


class Opaque:
    """A value nothing is known about (printing, timing, strings for messages)."""

    def __init__(self, what=""):
        self.what = what

    def __repr__(self):
        return "Opaque(%s)" % self.what


class Ref:
    __slots__ = ("addr", "typ")

    def __init__(self, addr, typ):
        self.addr, self.typ = addr, typ

    def __eq__(self, o):
        return isinstance(o, Ref) and o.addr == self.addr

    def __hash__(self):
        return hash(self.addr)

    def __repr__(self):
        return "%s@%d" % (self.typ, self.addr)


class Func:
    def __init__(self, node, env, module, qual, cls=None):
        self.node, self.env, self.module, self.qual, self.cls = node, env, module, qual, cls
        self.kind = "function"   # staticmethod / classmethod / property
        self.defaults = None

    def __repr__(self):
        return "<func %s>" % self.qual


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class ClassVal:
    def __init__(self, name, bases, attrs, qual):
        self.name, self.bases, self.attrs, self.qual = name, list(bases), attrs, qual
        self.seal = None

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name]
        return None

    def issub(self, other):
        return other in self.mro()

    def __repr__(self):
        return "<class %s>" % self.name


class ModuleVal:
    def __init__(self, name):
        self.name = name


class ExcClass:
    def __init__(self, name):
        self.name = name


EXC_PARENTS = {
    "TypeError": "Exception", "ValueError": "Exception", "ZeroDivisionError": "ArithmeticError",
    "ArithmeticError": "Exception", "IndexError": "LookupError", "KeyError": "LookupError", "LookupError": "Exception",
    "NotImplementedError": "RuntimeError", "RuntimeError": "Exception", "AssertionError": "Exception",
    "OverflowError": "ArithmeticError", "AttributeError": "Exception", "NameError": "Exception", "Exception": "BaseException",
    "RecursionError": "RuntimeError", "StopIteration": "Exception",
}


def exc_is(name, handler):
    while name is not None:
        if name == handler:
            return True
        name = EXC_PARENTS.get(name)
    return False


class Seq:
    """Immutable sequence: concrete items, or a symbolic length with a getter."""
    __slots__ = ("items", "n", "_get", "kind", "prov", "root", "member", "at")

    def __init__(self, items=None, n=None, get=None, kind=None, prov=None):
        self.prov = prov     # how it was built from another sequence (loop summaries)
        self.root = None     # marks a loop-head symbol
        self.items = None if items is None else list(items)
        self.n = len(self.items) if items is not None else n
        self._get = get
        self.kind = kind     # kind of the elements (None: unknown)

    def get(self, i):
        """Element at index i (0 <= i < n assumed; i an int or a Term)."""
        if isinstance(i, Term) and i.op == "int":
            i = i.args[0]
        if self.items is not None:
            if isinstance(i, int):
                return self.items[i]
            if not self.items:
                raise Unsupported("element of an empty list")
            r = self.items[-1]
            for k in range(len(self.items) - 2, -1, -1):
                r = merge(eq(i, k), self.items[k], r)
            return r
        return self._get(T(i))

    def __repr__(self):
        if self.items is not None:
            return "Seq%r" % (self.items,)
        return "Seq<%s>" % (self.n,)


class Cls:
    """marker for kinds"""


def is_scalar(v):
    return isinstance(v, (bool, int, bytes, Term, Mix))


def kind_of(v):
    if isinstance(v, bool):
        return ("s", PROP)
    if isinstance(v, int):
        return ("s", INT)
    if isinstance(v, bytes):
        return ("s", BYTES)
    if isinstance(v, Term):
        return ("s", v.sort)
    if isinstance(v, Mix):
        return ("mix", v.term.sort)
    if isinstance(v, tuple):
        return ("tuple", tuple(kind_of(x) for x in v))
    if isinstance(v, Seq):
        if v.kind is not None:
            return ("seq", v.kind)
        if v.items is not None:
            k = None
            for x in v.items:
                try:
                    k = join_kind(k, kind_of(x)) if k else kind_of(x)
                except Unsupported:
                    # a list of unlike things: a record
                    return ("tuple", tuple(kind_of(x) for x in v.items))
            return ("seq", k)
        try:
            return ("seq", kind_of(v.get(var("i?k", INT))))
        except Unsupported:
            return ("seq", None)
    if isinstance(v, DictV):
        return ("dict", v.kkind, v.vkind)
    return ("const", v)


def kind_eq(a, b):
    return repr(a) == repr(b)


def join_kind(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == "s" and b[0] == "s":
        if a[1].name == b[1].name:
            return a
        if a[1] is INT and b[1].ring:
            return ("mix", b[1])
        if b[1] is INT and a[1].ring:
            return ("mix", a[1])
        for x, y in ((a[1], b[1]), (b[1], a[1])):
            if constants(y) is not None and constants(y) is x:
                return ("mix", y)
    if a[0] == "mix" and b[0] in ("mix", "s") and (b[1].name == a[1].name or b[1] is INT or constants(a[1]) is b[1]):
        return a
    if b[0] == "mix":
        return join_kind(b, a) if a[0] != "mix" else a
    if a[0] == "tuple" and b[0] == "tuple" and len(a[1]) == len(b[1]):
        return ("tuple", tuple(join_kind(x, y) for x, y in zip(a[1], b[1])))
    if a[0] == "seq" and b[0] == "seq":
        return ("seq", join_kind(a[1], b[1]))
    if a[0] == "const" and b[0] == "const" and a[1] is b[1]:
        return a
    raise Unsupported("cannot join kinds %r and %r" % (a, b))


def bytes_term(v):
    if isinstance(v, bytes):
        return app("([%s] : Bytes)" % ", ".join(str(b) for b in v), BYTES)
    return v


def constants(sort):
    """The ring of constants of a polynomial sort."""
    return getattr(getattr(sort.cls, "seal", None), "ring", None) if isinstance(sort, Sort) else None


def as_term(v, sort=None):
    """Scalar value -> Term (Mix is read as its ring value; a constant as a polynomial)."""
    if isinstance(v, Term) and sort is not None and sort is not v.sort and constants(sort) is v.sort:
        return cast(v.args[0], sort) if v.op == "cast" else app("Polynomial.C", sort, v)
    if isinstance(v, Mix):
        return T(v.term, sort)
    if isinstance(v, bytes):
        return bytes_term(v)
    if isinstance(v, (int, Term)):
        return T(v, sort)
    raise Unsupported("not a scalar: %r" % (v,))


class DictV:
    """Immutable dictionary value: concrete entries (python dict), or symbolic
    dom : key -> Prop, val : key -> value over keys of one scalar kind."""

    def __init__(self, items=None, dom=None, val=None, kkind=None, vkind=None, size=None):
        self.items, self.dom, self.val, self.kkind, self.vkind = items, dom, val, kkind, vkind
        self.size = size


def merge(c, a, b):
    """Value that is a when c holds and b otherwise."""
    c = T(c)
    if c.op == "true":
        return a
    if c.op == "false":
        return b
    if a is b:
        return a
    if isinstance(a, Term) and isinstance(b, Term) and a.key == b.key:
        return a
    if is_scalar(a) and is_scalar(b):
        if isinstance(a, Mix) or isinstance(b, Mix):
            s = (a.term if isinstance(a, Mix) else b.term).sort
            for x in (a, b):
                if isinstance(x, (int, Term)) and not isinstance(x, bool):
                    x = T(x)
                    if x.sort is INT and not (is_lit(x, 0) or is_lit(x, 1)):
                        raise NeedFork("mix of symbolic int and ring element")
            return Mix(ite(c, as_term(a, s), as_term(b, s)))
        ka, kb = kind_of(a), kind_of(b)
        if ka[1].name == kb[1].name:
            if isinstance(a, int) and isinstance(b, int) and a == b and type(a) == type(b):
                return a
            if isinstance(a, bytes) and isinstance(b, bytes) and a == b:
                return a
            return ite(c, as_term(a), as_term(b))
        x, y = T(a) if not isinstance(a, bytes) else None, T(b) if not isinstance(b, bytes) else None
        if x is not None and y is not None:
            if x.sort is INT and y.sort.ring and (is_lit(x, 0) or is_lit(x, 1)):
                return Mix(ite(c, cast(x, y.sort), y))
            if y.sort is INT and x.sort.ring and (is_lit(y, 0) or is_lit(y, 1)):
                return Mix(ite(c, x, cast(y, x.sort)))
        raise NeedFork("merge of %r and %r" % (a, b))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, tuple) and isinstance(b, Seq) and b.items is not None and len(b.items) == len(a):
        return tuple(merge(c, x, y) for x, y in zip(a, b.items))
    if isinstance(b, tuple) and isinstance(a, Seq) and a.items is not None and len(a.items) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a.items, b))
    if isinstance(a, Seq) and isinstance(b, Seq):
        if a.items is not None and b.items is not None and len(a.items) == len(b.items):
            return Seq([merge(c, x, y) for x, y in zip(a.items, b.items)])
        try:
            k = join_kind(kind_of(a)[1], kind_of(b)[1])
        except Unsupported as e:
            raise NeedFork(str(e))
        n = ite(c, T(a.n), T(b.n))

        def get(i, a=a, b=b):
            if a.items is not None and not a.items:
                return b.get(i)
            if b.items is not None and not b.items:
                return a.get(i)
            return merge(c, a.get(i), b.get(i))
        return Seq(None, n, get, k)
    if type(a) is type(b) and not isinstance(a, (Seq, DictV)) and a == b:
        return a
    if type(a) is type(b) and hasattr(a, "merged"):
        return a.merged(c, b)
    raise NeedFork("merge of %r and %r" % (type(a), type(b)))


def same_value(a, b):
    """Syntactic equality of values."""
    if a is b:
        return True
    if isinstance(a, Term) and isinstance(b, Term):
        return a.key == b.key
    if isinstance(a, Term) or isinstance(b, Term):
        return isinstance(a, (int, Term)) and isinstance(b, (int, Term)) and not (isinstance(a, bool) or isinstance(b, bool)) and T(a).key == T(b).key
    if isinstance(a, Mix) and isinstance(b, Mix):
        return a.term.key == b.term.key
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, Seq) and isinstance(b, Seq):
        if a.items is not None and b.items is not None:
            return len(a.items) == len(b.items) and all(same_value(x, y) for x, y in zip(a.items, b.items))
        if (a.items is None) != (b.items is None):
            return False
        if T(a.n).key != T(b.n).key:
            return False
        i = var("i?s", INT)
        return same_value(a.get(i), b.get(i))
    if type(a) in (int, bool, str, bytes, type(None)) and type(a) is type(b):
        return a == b
    if isinstance(a, Ref):
        return a == b
    return False
