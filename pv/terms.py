"""Terms of the verification-condition language and their Lean rendering.

Every term carries a sort (a Lean type).  Smart constructors simplify a little
(constant folding, trivial identities) so that equal programs tend to give equal
terms; everything that is actually proved is proved by Lean.
"""
import itertools
import re


class Sort:
    _all = {}

    def __init__(self, name, lean, ring=False, cls=None):
        self.name, self.lean, self.ring, self.cls = name, lean, ring, cls

    def __repr__(self):
        return self.name


INT = Sort("Int", "Int", ring=True)
PROP = Sort("Prop", "Prop")
BYTES = Sort("Bytes", "Bytes")
K = Sort("K", "K", ring=True)


class FnSort:
    """Sort of an n-ary function from Int^n (args: list of sorts)."""

    def __init__(self, args, res):
        self.args, self.res = tuple(args), res

    @property
    def lean(self):
        return " → ".join(["(%s)" % a.lean if isinstance(a, FnSort) else a.lean for a in self.args] + [self.res.lean])

    @property
    def name(self):
        return self.lean

    ring = False
    cls = None

    def __eq__(self, o):
        return isinstance(o, FnSort) and self.args == o.args and self.res == o.res

    def __hash__(self):
        return hash((self.args, self.res))

    def __repr__(self):
        return self.lean


class Term:
    __slots__ = ("op", "args", "sort", "_key", "_fv")

    def __init__(self, op, args, sort):
        self.op, self.args, self.sort = op, tuple(args), sort
        self._key = None
        self._fv = None

    @property
    def key(self):
        if self._key is None:
            self._key = (self.op, self.sort.name) + tuple(a.key if isinstance(a, Term) else a for a in self.args)
            self._key = _intern(self._key)
        return self._key

    def __eq__(self, o):
        raise TypeError("use eq(a, b)")

    __hash__ = None

    def __bool__(self):
        raise TypeError("symbolic term used as a boolean: %s" % self)

    def same(self, o):
        return isinstance(o, Term) and self.key == o.key

    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return sub(self, o)
    def __rsub__(self, o): return sub(o, self)
    def __mul__(self, o): return mul(self, o)
    def __rmul__(self, o): return mul(o, self)
    def __neg__(self): return neg(self)
    def __lt__(self, o): return lt(self, o)
    def __le__(self, o): return le(self, o)
    def __gt__(self, o): return lt(o, self)
    def __ge__(self, o): return le(o, self)
    def __floordiv__(self, o): return fdiv(self, o)
    def __mod__(self, o): return fmod(self, o)

    def __call__(self, *idx):
        return apply(self, *idx)

    def __repr__(self):
        return lean(self)


_itab = {}


def _intern(k):
    """Map structural keys to small unique ids so comparisons stay cheap."""
    r = _itab.get(k)
    if r is None:
        r = _itab[k] = len(_itab) + 1
    return r


def var(name, sort):
    return Term("var", (name,), sort)


def lit(n):
    return Term("int", (n,), INT)


TRUE = Term("true", (), PROP)
FALSE = Term("false", (), PROP)


def T(x, sort=None):
    """Lift a Python constant to a term."""
    if isinstance(x, Term):
        if sort is not None and sort is not x.sort and sort.name != x.sort.name:
            if x.sort is INT and sort.ring:
                return cast(x, sort)
            raise TypeError("sort mismatch: %s : %s, wanted %s" % (x, x.sort, sort))
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, int):
        t = lit(x)
        if sort is not None and sort is not INT:
            return cast(t, sort)
        return t
    raise TypeError("cannot lift %r" % (x,))


def cast(t, sort):
    """Int -> ring cast."""
    t = T(t)
    if t.sort is sort or t.sort.name == sort.name:
        return t
    if t.op == "ite":
        return ite(t.args[0], cast(t.args[1], sort), cast(t.args[2], sort))
    return Term("cast", (t,), sort)


def is_lit(t, n=None):
    if isinstance(t, int):
        return n is None or t == n
    if t.op == "int":
        return n is None or t.args[0] == n
    if t.op == "cast" and t.args[0].op == "int":
        return n is None or t.args[0].args[0] == n
    return False


def litval(t):
    if isinstance(t, int):
        return t
    if t.op == "int":
        return t.args[0]
    if t.op == "cast":
        return litval(t.args[0])
    return None


def _pair(a, b):
    if isinstance(a, Term) and isinstance(b, Term):
        if a.sort.name == b.sort.name:
            return a, b
        if a.sort is INT and b.sort.ring:
            return cast(a, b.sort), b
        if b.sort is INT and a.sort.ring:
            return a, cast(b, a.sort)
        raise TypeError("sorts %s and %s in %s , %s" % (a.sort, b.sort, a, b))
    if isinstance(a, Term):
        return a, T(b, a.sort if a.sort.ring else None)
    if isinstance(b, Term):
        return T(a, b.sort if b.sort.ring else None), b
    return T(a), T(b)


# -- linear normal form over Int (used to keep index arithmetic canonical) ----
def linform(t):
    """Int term -> ({atomkey: (coef, atom)}, const)."""
    if isinstance(t, int):
        return {}, t
    if t.op == "int":
        return {}, t.args[0]
    if t.op == "add":
        d, c = {}, 0
        for a in t.args:
            d2, c2 = linform(a)
            c += c2
            for k, (co, at) in d2.items():
                o = d.get(k, (0, at))[0]
                d[k] = (o + co, at)
        return {k: v for k, v in d.items() if v[0]}, c
    if t.op == "neg":
        d, c = linform(t.args[0])
        return {k: (-co, at) for k, (co, at) in d.items()}, -c
    if t.op == "mul":
        l, r = t.args
        if l.op == "int":
            d, c = linform(r)
            n = l.args[0]
            return {k: (n * co, at) for k, (co, at) in d.items() if n}, n * c
        if r.op == "int":
            return linform(Term("mul", (r, l), INT))
    return {t.key: (1, t)}, 0


def from_lin(d, c):
    parts = []
    for k in sorted(d, key=lambda k: (d[k][0] < 0, lean(d[k][1]))):
        co, at = d[k]
        if co == 1:
            parts.append(at)
        elif co == -1:
            parts.append(Term("neg", (at,), INT))
        else:
            parts.append(Term("mul", (lit(co), at), INT))
    if c or not parts:
        parts.append(lit(c))
    r = parts[0]
    for p in parts[1:]:
        r = Term("add", (r, p), INT)
    return r


def lin(t):
    return from_lin(*linform(t))


def add(a, b):
    a, b = _pair(a, b)
    if a.sort is INT:
        return lin(Term("add", (a, b), INT))
    if is_lit(a, 0):
        return b
    if is_lit(b, 0):
        return a
    return Term("add", (a, b), a.sort)


def neg(a):
    a = T(a)
    if a.sort is INT:
        return lin(Term("neg", (a,), INT))
    if a.op == "neg":
        return a.args[0]
    return Term("neg", (a,), a.sort)


def sub(a, b):
    a, b = _pair(a, b)
    if a.sort is INT:
        return lin(Term("add", (a, Term("neg", (b,), INT)), INT))
    if is_lit(b, 0):
        return a
    return Term("sub", (a, b), a.sort)


def mul(a, b):
    a, b = _pair(a, b)
    if a.sort is INT:
        if a.op == "int" or b.op == "int":
            return lin(Term("mul", (a, b), INT))
        return Term("mul", (a, b), INT)
    if is_lit(a, 1):
        return b
    if is_lit(b, 1):
        return a
    return Term("mul", (a, b), a.sort)


def fdiv(a, b, pos=False):
    a, b = T(a), T(b)
    if b.op == "int" and b.args[0] > 0:
        if a.op == "int":
            return lit(a.args[0] // b.args[0])
        if b.args[0] == 1:
            return a
        return Term("ediv", (a, b), INT)
    return Term("ediv" if pos else "fdiv", (a, b), INT)


def fmod(a, b, pos=False):
    a, b = T(a), T(b)
    if b.op == "int" and b.args[0] > 0:
        if a.op == "int":
            return lit(a.args[0] % b.args[0])
        return Term("emod", (a, b), INT)
    return Term("emod" if pos else "fmod", (a, b), INT)


def div(a, b):
    a, b = _pair(a, b)
    return Term("div", (a, b), a.sort)


def lt(a, b):
    a, b = _pair(a, b)
    d, c = linform(Term("add", (a, Term("neg", (b,), INT)), INT))
    if not d:
        return TRUE if c < 0 else FALSE
    return Term("lt", (a, b), PROP)


def le(a, b):
    a, b = _pair(a, b)
    d, c = linform(Term("add", (a, Term("neg", (b,), INT)), INT))
    if not d:
        return TRUE if c <= 0 else FALSE
    return Term("le", (a, b), PROP)


def eq(a, b):
    a, b = _pair(a, b)
    if a.key == b.key:
        return TRUE
    if a.sort is INT:
        d, c = linform(Term("add", (a, Term("neg", (b,), INT)), INT))
        if not d:
            return TRUE if c == 0 else FALSE
    if a.sort is PROP:
        if a.op == "true":
            return b
        if b.op == "true":
            return a
        if a.op == "false":
            return Not(b)
        if b.op == "false":
            return Not(a)
        return Term("iff", (a, b), PROP)
    if a.sort.ring and a.sort is not INT and a.op == "cast" and b.op == "cast" and litval(a) is not None and litval(b) is not None:
        if {litval(a), litval(b)} == {0, 1}:
            return FALSE   # nontrivial rings only
    return Term("eq", (a, b), PROP)


def ne(a, b):
    return Not(eq(a, b))


def Not(a):
    a = T(a)
    if a.op == "true":
        return FALSE
    if a.op == "false":
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "lt":
        return le(a.args[1], a.args[0])
    if a.op == "le":
        return lt(a.args[1], a.args[0])
    return Term("not", (a,), PROP)


def And(*xs):
    out, seen = [], set()
    for x in xs:
        x = T(x)
        if x.op == "true":
            continue
        if x.op == "false":
            return FALSE
        for y in (x.args if x.op == "and" else (x,)):
            if y.key not in seen:
                seen.add(y.key)
                out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return Term("and", out, PROP)


def Or(*xs):
    out, seen = [], set()
    for x in xs:
        x = T(x)
        if x.op == "false":
            continue
        if x.op == "true":
            return TRUE
        for y in (x.args if x.op == "or" else (x,)):
            if y.key not in seen:
                seen.add(y.key)
                out.append(y)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return Term("or", out, PROP)


def Imp(a, b):
    a, b = T(a), T(b)
    if a.op == "true":
        return b
    if a.op == "false" or b.op == "true":
        return TRUE
    return Term("imp", (a, b), PROP)


def Iff(a, b):
    return eq(T(a), T(b))


def ite(c, a, b):
    c = T(c)
    if c.op == "true":
        return a
    if c.op == "false":
        return b
    a, b = _pair(a, b)
    if a.key == b.key:
        return a
    if a.sort is PROP:
        return And(Imp(c, a), Imp(Not(c), b)) if not (a.op in ("true", "false") or b.op in ("true", "false")) else (
            Or(c, b) if a.op == "true" else And(Not(c), b) if a.op == "false" else Or(Not(c), a) if b.op == "true" else And(c, a))
    return Term("ite", (c, a, b), a.sort)


_bv = itertools.count()
_bvdepth = [0]


def _bound(name, f, sort=INT):
    """A bound variable named by nesting depth (so alpha-equal terms coincide)."""
    _bvdepth[0] += 1
    try:
        v = var("%s%d" % (name, _bvdepth[0]), sort)
        body = f(v)
    finally:
        _bvdepth[0] -= 1
    # capture check: the body may already contain a binder of the same name from
    # outside; depth naming is unique inside-out only, so rename when it clashes
    return v, body


def Forall(f, sort=INT, name="i"):
    v, b = bind(f, sort, name)
    b = T(b)
    if b.op == "true":
        return TRUE
    return Term("forall", (v, b), PROP)


def Exists(f, sort=INT, name="i"):
    v, b = bind(f, sort, name)
    b = T(b)
    if b.op == "false":
        return FALSE
    return Term("exists", (v, b), PROP)


def Lam(f, sort=INT, name="i"):
    v, b = bind(f, sort, name)
    return Term("lam", (v, b), FnSort((sort,), b.sort))


def bind(f, sort=INT, name="i"):
    """Evaluate f on a fresh variable, then rename it canonically: the binder gets
    the smallest number larger than every binder inside the body."""
    tmp = var("%s?%d" % (name, next(_bv)), sort)
    body = T(f(tmp))
    n = maxbinder(body) + 1
    fv = freevars(body)
    while True:
        nm = "%s%d'" % (name, n)
        if nm not in fv:
            break
        n += 1
    v = var(nm, sort)
    return v, subst(body, {tmp.args[0]: v})


_mb = {}


def maxbinder(t):
    if not isinstance(t, Term):
        return 0
    k = t.key
    r = _mb.get(k)
    if r is None:
        r = max([maxbinder(a) for a in t.args] + [0])
        if t.op in ("forall", "exists", "lam"):
            m = re.search(r"(\d+)'$", t.args[0].args[0])
            if m:
                r = max(r, int(m.group(1)))
        _mb[k] = r
    return r


def Forall_range(lo, hi, f, name="i"):
    lo, hi = T(lo), T(hi)
    if lo.op == "int" and hi.op == "int" and hi.args[0] <= lo.args[0]:
        return TRUE
    return Forall(lambda i: Imp(And(le(lo, i), lt(i, hi)), f(i)), INT, name)


def app(fname, sort, *args):
    """Application of a named Lean function/constant."""
    return Term("app", (fname,) + tuple(T(a) for a in args), sort)


def apply(f, *idx):
    for i in idx:
        i = T(i)
        if f.op == "lam":
            f = subst(f.args[1], {f.args[0].args[0]: i})
        else:
            s = f.sort
            rs = FnSort(s.args[1:], s.res) if len(s.args) > 1 else s.res
            f = Term("fapp", (f, i), rs)
    return f


def pow_(x, n):
    n = T(n)
    if n.op == "int":
        if n.args[0] == 0:
            return T(1, x.sort)
        if n.args[0] == 1:
            return x
    return Term("app", ("ipow", x, n), x.sort)


def freevars(t):
    if not isinstance(t, Term):
        return {}
    if t._fv is not None:
        return t._fv
    if t.op == "var":
        r = {t.args[0]: t.sort}
    elif t.op in ("forall", "exists", "lam"):
        r = dict(freevars(t.args[1]))
        r.pop(t.args[0].args[0], None)
    else:
        r = {}
        for a in t.args:
            if isinstance(a, Term):
                r.update(freevars(a))
    t._fv = r
    return r


def mentions(t, names):
    return any(n in names for n in freevars(t))


def rebuild(t, args):
    """Re-run the smart constructor for t.op on new args."""
    o = t.op
    if o == "add": return add(*args)
    if o == "sub": return sub(*args)
    if o == "mul": return mul(*args)
    if o == "neg": return neg(*args)
    if o == "lt": return lt(*args)
    if o == "le": return le(*args)
    if o in ("eq", "iff"): return eq(*args)
    if o == "not": return Not(*args)
    if o == "and": return And(*args)
    if o == "or": return Or(*args)
    if o == "imp": return Imp(*args)
    if o == "ite": return ite(*args)
    if o == "ediv": return fdiv(*args, pos=True)
    if o == "emod": return fmod(*args, pos=True)
    if o == "fdiv": return fdiv(*args)
    if o == "fmod": return fmod(*args)
    if o == "cast": return cast(args[0], t.sort)
    if o == "fapp": return apply(*args)
    if o == "app" and t.args[0] == "ipow": return pow_(args[1], args[2])
    return Term(o, args, t.sort)


def subst(t, m):
    """m: name -> Term."""
    if not m or not isinstance(t, Term):
        return t
    fv = freevars(t)
    if not any(n in fv for n in m):
        return t
    return _subst(t, m, {})


def _subst(t, m, memo):
    if not isinstance(t, Term):
        return t
    fv = freevars(t)
    if not any(n in fv for n in m):
        return t
    k = t.key
    if k in memo:
        return memo[k]
    if t.op == "var":
        r = m[t.args[0]]
    elif t.op in ("forall", "exists", "lam"):
        v = t.args[0]
        m2 = {n: x for n, x in m.items() if n != v.args[0] and n in fv}
        # avoid capture: rename the binder if it occurs free in a replacement
        body = t.args[1]
        allfv = set()
        for x in m2.values():
            allfv |= set(freevars(x))
        base = re.match(r"[^\d?]*", v.args[0]).group(0) or "i"
        nb = subst2(body, v, m2, allfv, base)
        r = Term(t.op, nb, t.sort)
        if t.op == "lam":
            r = Term("lam", nb, FnSort(t.sort.args, nb[1].sort if False else t.sort.res))
    else:
        r = rebuild(t, [_subst(a, m, memo) for a in t.args])
    memo[k] = r
    return r


def subst2(body, v, m2, allfv, base):
    v2, b2 = bind(lambda i: subst(subst(body, {v.args[0]: i}), m2), v.sort, base)
    return (v2, b2)


# ---------------------------------------------------------------- printing ---
_KW = set("""end from at open in fun let have show by then else if match with do where namespace section
variable theorem lemma def example axiom instance class structure inductive deriving import universe
local notation infix infixl infixr prefix postfix macro syntax set_option attribute export using obtain
return for unless try catch mut nomatch calc this true false not and or Type Prop Sort forall exists C X K
val abs gcd pow sum length root π λ Σ Π dist index""".split())


def leanname(n):
    n = n.replace("?", "_q")
    n = re.sub(r"[^A-Za-z0-9_']", "_", n)
    if not n or not (n[0].isalpha() or n[0] == "_") or n == "_":
        n = "v" + n
    if n in _KW or n.startswith("__"):
        n = "v_" + n.lstrip("_")
    return n


def lean(t, p=0):
    """Render; p is the surrounding precedence (0 loose, 100 atom)."""
    o = t.op
    a = t.args

    def par(s, q):
        return "(" + s + ")" if q < p else s
    if o == "var":
        return leanname(a[0])
    if o == "int":
        return "(%d : Int)" % a[0]
    if o == "true":
        return "True"
    if o == "false":
        return "False"
    if o == "cast":
        if a[0].op == "int":
            if a[0].args[0] >= 0:
                return "(%d : %s)" % (a[0].args[0], t.sort.lean)
            return "(-%d : %s)" % (-a[0].args[0], t.sort.lean)
        return "((%s : Int) : %s)" % (lean(a[0]), t.sort.lean)
    if o == "add":
        return par("%s + %s" % (lean(a[0], 65), lean(a[1], 66)), 65)
    if o == "sub":
        return par("%s - %s" % (lean(a[0], 65), lean(a[1], 66)), 65)
    if o == "mul":
        return par("%s * %s" % (lean(a[0], 70), lean(a[1], 71)), 70)
    if o == "div":
        return par("%s / %s" % (lean(a[0], 70), lean(a[1], 71)), 70)
    if o == "ediv":
        return par("%s / %s" % (lean(a[0], 70), lean(a[1], 71)), 70)
    if o == "emod":
        return par("%s %% %s" % (lean(a[0], 70), lean(a[1], 71)), 70)
    if o == "fdiv":
        return par("Int.fdiv %s %s" % (lean(a[0], 100), lean(a[1], 100)), 90)
    if o == "fmod":
        return par("Int.fmod %s %s" % (lean(a[0], 100), lean(a[1], 100)), 90)
    if o == "neg":
        return par("-%s" % lean(a[0], 75), 74)
    if o == "lt":
        return par("%s < %s" % (lean(a[0], 51), lean(a[1], 51)), 50)
    if o == "le":
        return par("%s ≤ %s" % (lean(a[0], 51), lean(a[1], 51)), 50)
    if o == "eq":
        return par("%s = %s" % (lean(a[0], 51), lean(a[1], 51)), 50)
    if o == "iff":
        return par("%s ↔ %s" % (lean(a[0], 21), lean(a[1], 21)), 20)
    if o == "not":
        if a[0].op == "eq":
            b = a[0].args
            return par("%s ≠ %s" % (lean(b[0], 51), lean(b[1], 51)), 50)
        return par("¬ %s" % lean(a[0], 41), 40)
    if o == "and":
        return par(" ∧ ".join(lean(x, 36) for x in a), 35)
    if o == "or":
        return par(" ∨ ".join(lean(x, 31) for x in a), 30)
    if o == "imp":
        return par("%s → %s" % (lean(a[0], 26), lean(a[1], 25)), 25)
    if o == "ite":
        return "(if %s then %s else %s)" % (lean(a[0]), lean(a[1]), lean(a[2]))
    if o == "forall":
        return par("∀ (%s : %s), %s" % (lean(a[0]), a[0].sort.lean, lean(a[1])), 10)
    if o == "exists":
        return par("∃ (%s : %s), %s" % (lean(a[0]), a[0].sort.lean, lean(a[1])), 10)
    if o == "lam":
        return "(fun (%s : %s) => %s)" % (lean(a[0]), a[0].sort.lean, lean(a[1]))
    if o == "fapp":
        args = []
        while t.op == "fapp":
            args.append(t.args[1])
            t = t.args[0]
        return par("%s %s" % (lean(t, 100), " ".join(lean(x, 100) for x in reversed(args))), 90)
    if o == "app":
        if len(a) == 1:
            return a[0] if re.match(r"^[\w.'«»]+$", a[0]) else "(%s)" % a[0]
        return par("%s %s" % (a[0], " ".join(lean(x, 100) for x in a[1:])), 90)
    raise NotImplementedError(o)
