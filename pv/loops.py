"""Loops: unrolling of concrete ones, automatic summaries, and sidecar invariants."""
import ast
from .values import *
from .front import assigned_names
from . import seqops

UNROLL = 80


class Poison:
    """A variable modified by a summarised loop whose value is not tracked."""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "Poison(%s)" % self.why


# ------------------------------------------------------------------- entry ---
def exec_for(ex, s, env):
    from .exec import _Break
    itv = ex.eval(s.iter, env)
    it = ex.seq(itv)
    spec = find_spec(ex, s)
    if it.items is not None and len(it.items) <= UNROLL and not (spec is not None and spec.force):
        for x in list(it.items):
            try:
                ex.assign(s.target, x, env)
                ex.exec_block(s.body, env)
            except _Break:
                return
        ex.exec_block(s.orelse, env)
        return

    def run(k):
        ex.assign(s.target, it.get(k), env)
        ex.exec_block(s.body, env)
    L = LoopRun(ex, s, env, T(it.n), run, names_of(s), it=it)
    L.itref = itv if isinstance(itv, Ref) else None
    L.go(spec)


def exec_while(ex, s, env):
    from .exec import _Break
    spec = find_spec(ex, s)
    if spec is None or not spec.force:
        # concrete unrolling
        sn = ex.snapshot()
        cp, pend = ex.cpos, None
        count = 0
        while True:
            s1 = ex.snapshot()
            c = ex.eval_cond(s.test, env)
            if isinstance(c, Term):
                if ex.known(c):
                    c = True
                elif ex.known(Not(c)):
                    c = False
            if c is True:
                count += 1
                if count > 400:
                    raise Unsupported("while loop: too many concrete iterations")
                try:
                    ex.exec_block(s.body, env)
                except _Break:
                    return
                continue
            if c is False:
                ex.exec_block(s.orelse, env)
                return
            break
        # symbolic condition at this point: summarise from here
        ex.restore(s1, keep_obls=True)
        if spec is None:
            try:
                if counted_while(ex, s, env):
                    return
            except NeedFork as e:
                raise Unsupported("while loop at line %d needs an invariant (%s)" % (s.lineno, e))
            raise Unsupported("while loop at line %d needs an invariant" % s.lineno)

    def run(k):
        ex.exec_block(s.body, env)
    L = LoopRun(ex, s, env, None, run, names_of(s))
    L.test = lambda: ex.eval_cond(s.test, env)
    L.with_spec(spec)


def names_of(s):
    body = list(s.body)
    out = assigned_names(body)
    if isinstance(s, ast.For):
        out = assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(0))]) + out
    seen = []
    for n in out:
        if n not in seen:
            seen.append(n)
    return seen


def find_spec(ex, node):
    root = ex.root
    specs = getattr(root, "loops", None)
    if not specs:
        return None
    m = ex.heap_loopmap if hasattr(ex, "heap_loopmap") else None
    if m is None:
        m = ex.heap_loopmap = {}
    if id(node) in m:
        return m[id(node)]
    kind = "for" if isinstance(node, ast.For) else "while"
    used = [x for x in m.values()]
    for sp in specs:
        if sp in used:
            continue
        if sp.kind not in (None, kind):
            continue
        if sp.match is not None and not sp.match(ex, node):
            continue
        m[id(node)] = sp
        return sp
    m[id(node)] = None
    return None


class LoopSpec:
    """Sidecar invariant.  roles: role -> (variable name, kind).  inv(s) returns
    [(label, Prop)]; s has attributes for the roles, s.k and s.n (for loops),
    s.init.<role>, s.ex, s.args (the contract's arguments)."""

    def __init__(self, inv, roles, kind=None, decreases=None, force=False, match=None, keep=(), hints=None, ghost=None, partial=False):
        self.partial = partial     # termination is not claimed
        self.inv, self.roles, self.kind, self.decreases = inv, roles, kind, decreases
        self.force, self.match, self.keep = force, match, keep
        self.ghost = ghost


class State:
    pass


# ---------------------------------------------------------- flattening -------
def flatten(v, idxs=()):
    """Leaf terms of a pure value (sequences via a generic index)."""
    if isinstance(v, (Term, int, bytes)) or isinstance(v, Mix):
        yield (), idxs, as_term(v)
    elif isinstance(v, tuple):
        for i, x in enumerate(v):
            for p, ix, t in flatten(x, idxs):
                yield (i,) + p, ix, t
    elif isinstance(v, Seq):
        yield ("n",), idxs, T(v.n)
        i = var("i?f%d" % len(idxs), INT)
        try:
            e = v.get(i)
        except Unsupported:
            return
        for p, ix, t in flatten(e, idxs + (i,)):
            yield ("e",) + p, ix, t
    else:
        return


def leafmap(h, c):
    """Substitution taking the leaves of the symbolic value h to those of c."""
    m = {}
    cl = {p: (ix, t) for p, ix, t in flatten(c)}
    for p, ix, t in flatten(h):
        base = t
        while base.op == "fapp":
            base = base.args[0]
        if base.op != "var":
            continue
        if p not in cl:
            raise Unsupported("shapes differ")
        ix2, t2 = cl[p]
        srt = t.sort
        t2 = as_term(t2, srt) if t2.sort.name != srt.name else t2
        for i in reversed(ix2):
            t2 = Lam(lambda x, t2=t2, i=i: subst(t2, {i.args[0]: x}))
        m[base.args[0]] = t2
    return m


def symbols(h):
    out = set()
    for p, ix, t in flatten(h):
        while t.op == "fapp":
            t = t.args[0]
        if t.op == "var":
            out.add(t.args[0])
    return out


def value_mentions(v, names):
    for p, ix, t in flatten(v):
        if mentions(t, names):
            return True
    return False


def subst_v(v, m):
    from .exec import subst_value
    if isinstance(v, Seq) and v.items is None:
        r = subst_value(v, m)
        return r
    return subst_value(v, m)


# -------------------------------------------------------------- recurrences --
def split_add(t, v):
    """t = v + g with g free of v -> g, else None."""
    name = v.args[0] if v.op == "var" else None
    key = v.key

    def has(x):
        return occurs(x, v)
    if t.key == key:
        return T(0, t.sort)
    if not has(t):
        return None
    if t.sort is INT and t.op in ("add", "neg", "mul"):
        d, c = linform(t)
        if key in d and d[key][0] == 1:
            d = dict(d)
            d.pop(key)
            rest = from_lin(d, c)
            return None if has(rest) else rest
        # one addend is an ite containing v
        for k0, (co, at) in list(d.items()):
            if co == 1 and has(at):
                g = split_add(at, v)
                if g is None:
                    return None
                d2 = dict(d)
                d2.pop(k0)
                rest = from_lin(d2, c)
                return None if has(rest) else add(rest, g)
        return None
    if t.op == "add":
        a, b = t.args
        if has(a) and has(b):
            return None
        if has(a):
            g = split_add(a, v)
            return None if g is None else add(g, b)
        g = split_add(b, v)
        return None if g is None else add(a, g)
    if t.op == "sub":
        a, b = t.args
        if has(b):
            return None
        g = split_add(a, v)
        return None if g is None else sub(g, b)
    if t.op == "ite" and not has(t.args[0]):
        a, b = split_add(t.args[1], v), split_add(t.args[2], v)
        if a is None or b is None:
            return None
        return ite(t.args[0], a, b)
    return None


def split_mul(t, v):
    key = v.key
    if t.key == key:
        return T(1, t.sort)
    if not occurs(t, v):
        return None
    if t.op == "mul":
        a, b = t.args
        if occurs(a, v) and occurs(b, v):
            return None
        if occurs(a, v):
            g = split_mul(a, v)
            return None if g is None else mul(g, b)
        g = split_mul(b, v)
        return None if g is None else mul(g, a) if False else (None if g is None else mul(a, g))
    if t.op == "ite" and not occurs(t.args[0], v):
        a, b = split_mul(t.args[1], v), split_mul(t.args[2], v)
        if a is None or b is None:
            return None
        return ite(t.args[0], a, b)
    return None


_occ = {}


def occurs(t, v):
    if not isinstance(t, Term):
        return False
    k = (t.key, v.key)
    r = _occ.get(k)
    if r is None:
        r = t.key == v.key or any(occurs(a, v) for a in t.args if isinstance(a, Term))
        _occ[k] = r
    return r


def fsum(k, sort, f):
    """sum_{j<k} f(j) with easy closed forms."""
    z = var("i?m", INT)
    g = f(z)
    if not mentions(g, {"i?m"}):
        if is_lit(g, 0):
            return T(0, sort)
        if sort is INT:
            return mul(k, g)
        return mul(cast(k, sort), g)
    return app("isum", sort, k, Lam(f))


def solve_scalar(v, t, kname, v0, kk):
    """v_{j+1} = t(v_j, j): value after kk iterations from v0; None if unknown."""
    def at(g, j):
        return subst(g, {kname: T(j)})
    if t.key == v.key:
        return v0
    srt = t.sort
    if not occurs(t, v):
        last = at(t, kk - 1)
        if not mentions(t, {kname}) and t.key == T(v0, srt).key:
            return v0
        return ite(eq(kk, 0), T(v0, srt), last) if not (isinstance(kk, Term) and kk.op == "int") else (T(v0, srt) if kk.args[0] == 0 else last)
    if srt.ring or srt is INT:
        g = split_add(t, v)
        if g is not None:
            return add(T(v0, srt), fsum(kk, srt, lambda j: at(g, j)))
        g = split_mul(t, v)
        if g is not None:
            if not mentions(g, {kname}):
                return mul(T(v0, srt), app("ipow", srt, g, kk))
            return mul(T(v0, srt), app("iprod", srt, kk, Lam(lambda j: at(g, j))))
    if srt is INT and t.op == "ediv" and t.args[0].key == v.key and t.args[1].op == "int" and t.args[1].args[0] > 0:
        return Term("ediv", (T(v0), app("ipow", INT, t.args[1], kk)), INT)
    if srt is BYTES and t.op == "app" and t.args[0] == "bcat" and t.args[1].key == v.key and not occurs(t.args[2], v):
        g = t.args[2]
        return seqops.bcat(bytes_term(v0), app("bjoin", BYTES, kk, Lam(lambda j: at(g, j))))
    if srt is PROP:
        # v and g  /  v or g
        if t.op == "and" and any(x.key == v.key for x in t.args):
            g = And(*[x for x in t.args if x.key != v.key])
            if not occurs(g, v):
                return And(T(v0), Forall(lambda j: Imp(And(le(0, j), lt(j, kk)), at(g, j))))
        if t.op == "or" and any(x.key == v.key for x in t.args):
            g = Or(*[x for x in t.args if x.key != v.key])
            if not occurs(g, v):
                return Or(T(v0), Exists(lambda j: And(le(0, j), lt(j, kk), at(g, j))))
    # generic primitive recursion
    if v.op == "var" and all(not (x.sort if isinstance(x, Term) else None) is None for x in (t,)):
        return app("irec", srt, kk, Lam(lambda j: Lam(lambda w: subst(subst(t, {v.args[0]: w}), {kname: j}), srt, "w")), T(v0, srt))
    return None


def affine(t, kname):
    """t = s*k + b with s = +-1 and b free of k -> (s, b)."""
    d, c = linform(t)
    k = var(kname, INT)
    if k.key not in d or d[k.key][0] not in (1, -1):
        return None
    s = d[k.key][0]
    d = dict(d)
    d.pop(k.key)
    b = from_lin(d, c)
    if mentions(b, {kname}):
        return None
    return s, b


def writes_of(t, hv, ivar):
    """t = ite(ivar = j1, x1, ite(... , hv)) -> [(j, x, guard)] (first wins) or None."""
    out = []
    while t.key != hv.key:
        if t.op != "ite":
            return None
        c, a, b = t.args
        if c.op != "eq" or c.args[0].sort is not INT:
            return None
        d = sub(c.args[0], c.args[1])
        dd, cc = linform(d)
        if ivar.key not in dd or dd[ivar.key][0] not in (1, -1):
            return None
        co = dd[ivar.key][0]
        dd = dict(dd)
        dd.pop(ivar.key)
        rest = from_lin(dd, cc)
        j = neg(rest) if co == 1 else rest
        if mentions(j, {ivar.args[0]}):
            return None
        out.append((j, a))
        t = b
    return out


def reads_of(t, fname):
    """Index terms at which the function symbol fname is applied in t."""
    out = []

    def go(x):
        if not isinstance(x, Term):
            return
        if fname not in freevars(x):
            return
        if x.op == "fapp" and x.args[0].op == "var" and x.args[0].args[0] == fname:
            out.append(x.args[1])
            go(x.args[1])
            return
        if x.op == "var" and x.args[0] == fname:
            out.append(None)
            return
        for a in x.args:
            go(a)
    go(t)
    return out


# ------------------------------------------------------------------ machine --
class LoopRun:
    def __init__(self, ex, node, env, n, run, names, it=None):
        self.ex, self.node, self.env, self.n, self.run, self.names, self.it = ex, node, env, n, run, names, it
        self.itref = None
        self.test = None

    # locations: ("var", addr, name) or ("list", addr) or ("field", addr, name)
    def slot(self, name):
        e = self.env
        while e is not None:
            d = self.ex.heap[e.addr]
            if "$module" in d:
                return None
            if name in d:
                return ("var", e.addr, name)
            e = d["$parent"]
        return None

    def read(self, loc):
        if loc[0] == "var":
            v = self.ex.heap[loc[1]].get(loc[2])
        elif loc[0] == "list":
            return self.ex.heap[loc[1]]
        else:
            v = self.ex.heap[loc[1]].get(loc[2])
        return self.pure(v)

    def pure(self, v):
        if isinstance(v, Ref) and v.typ == "list":
            return self.ex.heap[v.addr]
        if isinstance(v, tuple):
            return tuple(self.pure(x) for x in v)
        return v

    def rawread(self, loc):
        return self.ex.heap[loc[1]] if loc[0] == "list" else self.ex.heap[loc[1]].get(loc[2])

    def write(self, loc, v, aslist):
        if loc[0] == "list":
            self.ex.heap[loc[1]] = v
            return
        if aslist and isinstance(v, Seq):
            v = self.ex.alloc(v, "list")
        self.ex.heap[loc[1]][loc[2]] = v

    def havocable(self, v):
        if isinstance(v, Ref):
            return v.typ == "list"
        if isinstance(v, (Term, int, bytes, Mix, Seq)) and not isinstance(v, str):
            return True
        if isinstance(v, tuple):
            return all(self.havocable(x) for x in v)
        return False

    def changed(self, s0):
        """Locations of the old heap whose contents changed."""
        out = []
        h0 = s0[0]
        for a, c0 in h0.items():
            if a == "$shared":
                continue
            c1 = self.ex.heap.get(a)
            if c1 is c0:
                continue
            if isinstance(c0, dict):
                for k in c1:
                    if k.startswith("$"):
                        continue
                    if "$module" in c0:
                        continue
                    if k not in c0:
                        if "$parent" in c0:
                            continue     # temporaries
                        raise NeedFork("new attribute in loop")
                    if c1[k] is not c0[k] and not same_value(c1[k], c0[k]):
                        out.append(("var" if "$parent" in c0 else "field", a, k))
            elif isinstance(c0, Seq):
                if not same_value(c0, c1):
                    out.append(("list", a))
            elif not same_dict(c0, c1):
                raise NeedFork("dictionary modified in a summarised loop")
        return out

    # ---------------------------------------------------------- auto mode ----
    def go(self, spec):
        ex = self.ex
        err = None
        from .exec import AfterLoop
        for nm in self.names:
            sl = self.slot(nm)
            if sl is not None and sl[0] == "var" and isinstance(self.rawread(sl), AfterLoop):
                ex.heap[sl[1]] = dict(ex.heap[sl[1]])
                ex.heap[sl[1]][sl[2]] = Poison("left over from an earlier loop")
        if spec is None or not spec.force:
            s0 = ex.snapshot()
            cpos, nch, npend = ex.cpos, len(ex.choices), len(ex.pending)
            try:
                self.auto()
                return
            except (NeedFork, Unsupported) as e:
                if ex.cpos != cpos:
                    raise
                err = e
                ex.restore(s0)
        if spec is not None:
            self.with_spec(spec)
            return
        if isinstance(err, NeedFork):
            raise Unsupported("loop at line %d cannot be summarised automatically: %s" % (self.node.lineno, err))
        raise err

    def discover(self, s0, run, pre=None, kfacts=True):
        """Find modified locations and their kinds; returns (locs, H, kname, state)."""
        ex = self.ex
        locs = {}
        aslist = {}
        for nm in self.names:
            sl = self.slot(nm)
            if sl is None:
                continue
            v = self.rawread(sl)
            from .exec import AfterLoop
            if isinstance(v, (AfterLoop, Poison)) or not self.havocable(v):
                continue
            try:
                locs[sl] = kind_of(self.pure(v))
                aslist[sl] = isinstance(v, Ref)
            except Unsupported:
                continue
        for rnd in range(10):
            ex.restore(s0)
            kname = ex.newname("k")
            H = {}
            bad = False
            for i, (loc, kd) in enumerate(locs.items()):
                nm = "h_" + str(loc[2] if len(loc) > 2 else "l%d" % i)
                hv = ex.fresh_at(ex.newname(nm), kd, [])
                if isinstance(hv, Seq) and hv.items is None:
                    hv.root = loc
                H[loc] = hv
                self.write(loc, hv, aslist.get(loc, False))
            names_after_h = dict(ex.names)
            k = var(kname, INT)
            nf = len(ex.facts)
            nob = len(ex.obls)
            ex.skolem.append(k)
            ex.nofork += 1
            oldprobe, oldlev, olddep = getattr(ex, "probe", None), getattr(ex, "probe_level", 0), getattr(ex, "probe_depth", 0)
            ex.probe, ex.probe_level, ex.probe_depth = [], ex.nofork, ex.depth
            log0 = ex.freshlog
            ex.freshlog = []
            s1 = ex.snapshot()
            try:
                ex.add_fact("idx", le(0, k))
                if self.n is not None:
                    ex.add_fact("idx", lt(k, self.n))
                extra = pre(k) if pre else None
                run(k)
            except PyRaise as e:
                raise NeedFork("exception %s inside the loop body" % e.exc)
            finally:
                probe = ex.probe
                ex.probe, ex.probe_level, ex.probe_depth = oldprobe, oldlev, olddep
                ex.nofork -= 1
                ex.skolem.pop()
                flog = ex.freshlog
                ex.freshlog = log0
            del ex.obls[nob:]
            ch = self.changed(s1)
            again = False
            for loc in ch:
                if loc not in locs:
                    v0 = self.rawread_in(s0, loc)
                    if v0 is None:
                        raise NeedFork("modified location %r" % (loc,))
                    if isinstance(v0, Poison):
                        continue        # unusable before the loop, and left so after it
                    if not self.havocable(v0):
                        raise NeedFork("loop modifies %r" % (loc,))
                    locs[loc] = kind_of(self.pure_in(s0, v0))
                    aslist[loc] = isinstance(v0, Ref)
                    again = True
            if not again:
                for loc in locs:
                    v1 = self.read(loc)
                    if not self.havocable(v1):
                        raise NeedFork("loop value of %r" % (loc,))
                    try:
                        kj = join_kind(locs[loc], kind_of(v1))
                    except Unsupported as e:
                        raise NeedFork(str(e))
                    if repr(kj) != repr(locs[loc]):
                        locs[loc] = kj
                        again = True
            if not again:
                return locs, aslist, H, kname, names_after_h, nf, probe, flog
        raise NeedFork("loop kinds do not stabilise")

    def rawread_in(self, s0, loc):
        c = s0[0].get(loc[1])
        if c is None:
            return None
        return c if loc[0] == "list" else c.get(loc[2])

    def pure_in(self, s0, v):
        if isinstance(v, Ref) and v.typ == "list":
            return s0[0][v.addr]
        if isinstance(v, tuple):
            return tuple(self.pure_in(s0, x) for x in v)
        return v

    def auto(self):
        ex = self.ex
        s0 = ex.snapshot()
        nobl = len(ex.obls)
        locs, aslist, H, kname, names_h, nf, probe, flog = self.discover(s0, self.run)
        if self.itref is not None and ("list", self.itref.addr) in locs:
            raise NeedFork("the list being iterated is modified")
        k = var(kname, INT)
        after = {loc: self.read(loc) for loc in locs}
        init = {}
        for loc in locs:
            init[loc] = self.pure_in(s0, self.rawread_in(s0, loc))
        closed = self.solve(locs, H, after, init, kname)
        if self.n is None:
            self.count(closed, k)
        # restore the pre-loop state, keeping names advanced
        names = dict(ex.names)
        ex.restore(s0)
        for lab, g in getattr(self, "deferred", []):
            ex.oblige("loop:" + lab, g)
            ex.add_fact(lab, g)
        s0 = ex.snapshot()
        nobl = len(ex.obls)
        # exits
        if probe:
            if ex.choose(2) == 1:
                ex.names = merge_names(ex.names, names)
                kk = ex.fresh("kx", ("s", INT))
                ex.add_fact("idx", le(0, kk))
                ex.add_fact("idx", lt(kk, self.n))
                # no exit before kk
                for c in probe:
                    c2 = self.closed_term(c, H, closed, kname)
                    ex.add_fact("noexit", Forall(lambda j: Imp(And(le(0, j), lt(j, kk)), Not(subst(c2, {kname: j})))))
                cs = [subst(self.closed_term(c, H, closed, kname), {kname: kk}) for c in probe]
                ex.add_fact("exit", Or(*cs))
                for loc in locs:
                    self.write(loc, closed[loc](kk), aslist[loc])
                from .exec import _Break, Infeasible
                watch, ex.exit_watch = ex.exit_watch, (ex.depth, [])
                try:
                    self.run(kk)
                    if ex.exit_watch[1]:
                        raise Unsupported("a branch of the loop at line %d ends abruptly without leaving it" % self.node.lineno)
                except _Break:
                    return
                finally:
                    ex.exit_watch = watch
                # not an exit after all
                raise Infeasible()
        # the real run at a generic k
        ex.names = dict(names_h)
        for loc in locs:
            self.write(loc, closed[loc](k), aslist[loc])
        s1 = ex.snapshot()
        nf = len(ex.facts)
        ex.skolem.append(k)
        ex.nofork += 1
        oldprobe, oldlev, olddep = getattr(ex, "probe", None), getattr(ex, "probe_level", 0), getattr(ex, "probe_depth", 0)
        ex.probe, ex.probe_level, ex.probe_depth = [], ex.nofork, ex.depth
        log0 = ex.freshlog
        ex.freshlog = []
        try:
            ex.add_fact("idx", le(0, k))
            ex.add_fact("idx", lt(k, self.n))
            self.run(k)
        except PyRaise as e:
            raise NeedFork("exception %s inside the loop body" % e.exc)
        finally:
            probe2 = ex.probe
            ex.probe, ex.probe_level, ex.probe_depth = oldprobe, oldlev, olddep
            ex.nofork -= 1
            ex.skolem.pop()
            flog2 = ex.freshlog
            ex.freshlog = log0
        if flog != flog2:
            raise NeedFork("loop body is not reproducible")
        new = ex.pop_facts(nf)
        temps = {}
        for nm in self.names:
            if self.slot(nm) is None or nm in ex.heap[self.env.addr] and nm not in s0[0][self.env.addr]:
                if nm in ex.heap[self.env.addr]:
                    temps[nm] = self.pure(ex.heap[self.env.addr][nm])
        for e_addr, c in ex.heap.items():
            pass
        obls = ex.obls[nobl:]
        names2 = dict(ex.names)
        ex.restore(s0)
        ex.obls[nobl:] = obls
        ex.names = merge_names(names, names2)
        rng = And(le(0, k), lt(k, self.n))
        skip = {le(0, k).key, lt(k, self.n).key}
        for nm, t in new:
            if t.key in skip:
                continue
            if kname in freevars(t):
                ex.add_fact(nm, Forall(lambda i, t=t: subst(Imp(rng, t), {kname: i}), name="k"))
            else:
                ex.add_fact(nm, Imp(lt(0, self.n), t))
        from .exec import AfterLoop, subst_value
        for loc in locs:
            self.write(loc, closed[loc](self.n), aslist[loc])
            for nm_, t in self.extra_facts.get(loc, ()):
                ex.add_fact(nm_, t)
        for nm, v in temps.items():
            try:
                if isinstance(v, (Term, int, bytes, Mix, tuple, Seq)) and not isinstance(v, str):
                    vv = subst_value(v, {kname: self.n - 1})
                    if isinstance(vv, Seq):
                        vv = ex.alloc(vv, "list")
                else:
                    vv = Poison("loop temporary %s" % nm)
            except Exception:
                vv = Poison("loop temporary %s" % nm)
            ex.heap[self.env.addr][nm] = AfterLoop(vv, lt(0, self.n))
        if getattr(self.node, "orelse", None):
            ex.exec_block(self.node.orelse, self.env)

    def closed_term(self, t, H, closed, kname):
        m = {}
        for loc in H:
            m.update(leafmap(H[loc], closed[loc](var(kname, INT))))
        return subst(t, m)

    # --------------------------------------------------------- recurrences ---
    def solve(self, locs, H, after, init, kname):
        ex = self.ex
        self.extra_facts = {}
        k = var(kname, INT)
        syms = {loc: symbols(H[loc]) for loc in locs}
        closed = {}
        pending = list(locs)
        progress = True
        while pending and progress:
            progress = False
            for loc in list(pending):
                m = {}
                for d in closed:
                    m.update(leafmap(H[d], closed[d](k)))
                a = subst_keep(after[loc], m)
                others = set()
                for o in pending:
                    if o is not loc:
                        others |= syms[o]
                if value_mentions(a, others):
                    continue
                f = self.solve_one(loc, locs[loc], H[loc], a, init[loc], kname)
                if f is None:
                    continue
                closed[loc] = f
                pending.remove(loc)
                progress = True
        if pending:
            raise NeedFork("no closed form for %s" % ", ".join(str(l[2] if len(l) > 2 else l) for l in pending))
        return closed

    def solve_one(self, loc, kind, h, a, v0, kname):
        ex = self.ex
        k = var(kname, INT)
        if same_value(h, a):
            return lambda kk: v0
        if isinstance(h, (Term, Mix)):
            ht = as_term(h)
            at = as_term(a, ht.sort)
            v0t = as_term(v0, ht.sort)
            if solve_scalar(ht, at, kname, v0t, k) is None:
                return None

            def f(kk):
                r = solve_scalar(ht, at, kname, v0t, T(kk))
                if isinstance(h, Mix):
                    if isinstance(a, Term) and ex.known(lt(0, T(kk))):
                        return r
                    return Mix(r)
                return r
            return f
        if isinstance(h, tuple):
            if not isinstance(a, tuple) or len(a) != len(h):
                return None
            fs = []
            for i, hi in enumerate(h):
                # components may depend on each other: only independent ones
                oth = set()
                for j, hj in enumerate(h):
                    if j != i:
                        oth |= symbols(hj)
                if value_mentions(a[i], oth):
                    return None
                fi = self.solve_one(None, None, hi, a[i], v0[i], kname)
                if fi is None:
                    return None
                fs.append(fi)
            return lambda kk: tuple(fi(kk) for fi in fs)
        if isinstance(h, Seq):
            return self.solve_seq(loc, h, a, v0, kname)
        return None

    def solve_seq(self, loc, h, a, v0, kname):
        ex = self.ex
        k = var(kname, INT)
        hs = symbols(h)
        if not value_mentions(a, hs):
            # rebuilt every iteration: last value
            from .exec import subst_value

            def f(kk):
                prev = subst_value(a, {kname: T(kk) - 1})
                if isinstance(kk, Term) and ex.known(lt(0, kk)):
                    return prev
                return merge(eq(T(kk), 0), v0, prev)
            return f
        hn = T(h.n)
        # chain of appends / prepends on h
        chain = []
        cur = a
        while cur is not h and cur.prov is not None and cur.prov[0] in ("append", "prepend"):
            chain.append(cur.prov)
            cur = cur.prov[1]
        if cur is not h and cur.root is not None and cur.root == h.root:
            cur = h
        if chain and cur is h:
            if all(p[0] == "append" for p in chain):
                xs = []
                for p in reversed(chain):
                    xs.extend(p[2])
                return self.solve_append(loc, h, xs, v0, kname)
            if all(p[0] == "prepend" for p in chain):
                xs = []
                for p in chain:
                    xs.extend(p[2])
                return self.solve_prepend(h, xs, v0, kname)
            return None
        # same length, pointwise
        d = sub(T(a.n), hn)
        if not is_lit(d, 0):
            return None
        return self.solve_pointwise(loc, h, a, v0, kname)

    def solve_append(self, loc, h, xs, v0, kname):
        ex = self.ex
        k = var(kname, INT)
        hn = T(h.n)
        n0 = T(v0.n)
        m = len(xs)
        # replace the length by its closed form
        lm = {hn.args[0]: n0 + k * m}
        from .exec import subst_value
        xs = [subst_value(x, lm) for x in xs]
        fs = symbols(h) - {hn.args[0]}
        if any(value_mentions(x, fs) for x in xs):
            # self reference through the last element
            if m != 1:
                return None
            x = xs[0]
            if not isinstance(x, (Term, Mix)):
                return None
            xt = as_term(x)
            z = h.get(var("i?h", INT))
            if not isinstance(z, (Term, Mix)):
                return None
            lastidx = n0 + k - 1
            last = as_term(h.get(lastidx))
            w = var("w?last", last.sort)
            x2 = replace(xt, last, w)
            if mentions(x2, fs):
                return None
            if not ex.known(lt(0, n0)):
                return None
            w0 = as_term(v0.get(n0 - 1), last.sort)
            if solve_scalar(w, x2, kname, w0, k) is None:
                return None
            mixed = isinstance(z, Mix)

            def elem(q):
                r = solve_scalar(w, x2, kname, w0, q + 1)
                return r

            def f(kk):
                def get(i):
                    if not isinstance(i, Term):
                        i = T(i)
                    c = lt(i, n0)
                    if c.op == "true":
                        return v0.get(i)
                    e = elem(i - n0)
                    if c.op == "false":
                        return e
                    if n0.op == "int" and n0.args[0] == 1 and True:
                        # initial element is iterate 0
                        e0 = solve_scalar(w, x2, kname, w0, i - n0 + 1)
                        return Mix(e0) if mixed else e0
                    return merge(c, v0.get(i), Mix(e) if mixed else e)
                return Seq(None, n0 + T(kk), get, h.kind)
            return f
        k_ = join_all([kind_of(v0)[1]] + [kind_of(x) for x in xs])

        def f(kk):
            def get(i):
                i = T(i)
                j = i - n0
                if m == 1:
                    q, sel = j, subst_value(xs[0], {kname: j})
                else:
                    q = fdiv(j, m)
                    r = fmod(j, m)
                    sel = subst_value(xs[m - 1], {kname: q})
                    for t in range(m - 2, -1, -1):
                        sel = merge(eq(r, t), subst_value(xs[t], {kname: q}), sel)
                if is_lit(n0, 0):
                    return sel
                c = lt(i, n0)
                if c.op == "true":
                    return v0.get(i)
                if c.op == "false":
                    return sel
                return merge(c, v0.get(i), sel)
            return Seq(None, n0 + T(kk) * m, get, k_)
        return f

    def solve_prepend(self, h, xs, v0, kname):
        from .exec import subst_value
        k = var(kname, INT)
        hn = T(h.n)
        n0 = T(v0.n)
        m = len(xs)
        xs = [subst_value(x, {hn.args[0]: n0 + k * m}) for x in xs]
        if any(value_mentions(x, symbols(h)) for x in xs) or m != 1:
            return None
        k_ = join_all([kind_of(v0)[1]] + [kind_of(x) for x in xs])

        def f(kk):
            kk = T(kk)

            def get(i):
                i = T(i)
                e = subst_value(xs[0], {kname: kk - 1 - i})
                c = lt(i, kk)
                if c.op == "true" or is_lit(n0, 0):
                    return e
                if c.op == "false":
                    return v0.get(i - kk)
                return merge(c, e, v0.get(i - kk))
            return Seq(None, n0 + kk, get, k_)
        return f

    def solve_pointwise(self, loc, h, a, v0, kname):
        ex = self.ex
        k = var(kname, INT)
        iv = var("i?w", INT)
        hn = T(h.n)
        n0 = T(v0.n)
        hi = h.get(iv)
        ai = a.get(iv)
        if not isinstance(hi, (Term, Mix)):
            return None
        ht = as_term(hi)
        at = subst(as_term(ai, ht.sort), {hn.args[0]: n0})
        fname = ht.args[0].args[0] if ht.op == "fapp" else None
        if fname is None:
            return None
        mix = isinstance(hi, Mix)
        # (1) pure accumulation at each position
        w = var("w?acc", ht.sort)
        acc = replace(at, ht, w)
        if not mentions(acc, {fname}):
            g = split_add(acc, w)
            gm = None if g is not None else split_mul(acc, w)
            if g is not None or gm is not None:
                def f(kk):
                    def get(i):
                        i = T(i)
                        aa = subst(acc, {"i?w": i})
                        v0i = v0.get(i)
                        r = solve_scalar(w, aa, kname, as_term(v0i, ht.sort), T(kk))
                        return Mix(r) if mix and not (isinstance(v0i, Term) and v0i.sort.name == ht.sort.name and isinstance(ai, Term)) else r
                    return Seq(None, v0.n, get, h.kind)
                return f
        # (2) writes at affine positions
        ws = writes_of(at, ht, iv)
        if ws is None or not ws:
            return None
        info = []
        for j, x in ws:
            af = affine(j, kname)
            if af is None:
                return None
            info.append((af[0], af[1], j, x))
        selfref = False
        for s, b, j, x in info:
            for r in reads_of(x, fname):
                if r is None:
                    return None
                if r.key == j.key or r.key == iv.key:
                    continue
                if len(ws) == 1:
                    # a position the loop only reaches later still holds the old value
                    dd = sub(subst(r, {"i?w": j}), j)
                    if dd.op == "int" and dd.args[0] * s > 0:
                        continue
                selfref = True
        if len(info) > 1:
            # all pairs of written positions disjoint
            for x in range(len(info)):
                for y in range(x):
                    s1_, b1, j1, _ = info[x]
                    s2_, b2, j2, _ = info[y]
                    if s1_ != s2_:
                        return None
                    # b1 + s k1 != b2 + s k2 for k1, k2 in range
                    dlt = sub(b1, b2)
                    cond = Or(le(self.n, dlt), le(self.n, neg(dlt)))
                    if not (ex.known(le(self.n, dlt)) or ex.known(le(self.n, neg(dlt)))):
                        self.defer(("disjoint-writes", Imp(lt(0, self.n), cond)))
        if not selfref:
            def f(kk):
                kk = T(kk)

                def get(i):
                    i = T(i)
                    r = v0.get(i)
                    for s, b, j, x in reversed(info):
                        q = (i - b) if s == 1 else (b - i)
                        c = And(le(0, q), lt(q, kk))
                        xx = subst(x, {"i?w": i})
                        xx = subst(xx, {kname: q})
                        # reads at the written position see the old value
                        old = v0.get(i)
                        xx = replace_fn(xx, fname, lambda idx, i=i: as_term(v0.get(idx), ht.sort))
                        val = Mix(xx) if mix and not isinstance(ai, Term) else xx
                        r = merge(c, val, r)
                    return r
                return Seq(None, v0.n, get, h.kind)
            # element kinds: written values are proper ring elements
            return f
        # (3) self-referencing writes: final array characterised by its equation
        if len(info) != 1 or mix:
            return None
        s, b, j, x = info[0]
        for r in reads_of(x, fname):
            if r.key == j.key:
                continue
            # a read position must have been written already, or never be written
            rr = subst(r, {"i?w": j})
            d = sub(rr, j) if s == -1 else sub(j, rr)
            lo_out = lt(rr, b) if s == 1 else lt(b, rr)
            goal = Forall(lambda kk_: subst(Imp(And(le(0, k), lt(k, self.n)), Or(lt(0, d), lo_out)), {kname: kk_}))
            self.defer(("read-order", goal))
        nm = ex.newname("arr")
        fin = var(nm, FnSort([INT], ht.sort))
        xx = subst(x, {"i?w": j})
        old_at_j = apply(var(fname, FnSort([INT], ht.sort)), j)
        xx = replace(xx, old_at_j, as_term(v0.get(j), ht.sort))
        xx = replace_fn(xx, fname, lambda idx: apply(fin, idx))
        facts = [("array-eq", Forall(lambda kk_: Imp(And(le(0, kk_), lt(kk_, self.n)), eq(apply(fin, subst(j, {kname: kk_})), subst(xx, {kname: kk_}))))),
                 ("array-frame", Forall(lambda i: Imp(Not(And(le(0, (i - b) if s == 1 else (b - i)), lt((i - b) if s == 1 else (b - i), self.n))),
                                                       eq(apply(fin, i), as_term(v0.get(i), ht.sort)))))]
        self.extra_facts[loc] = facts

        def f(kk):
            kk = T(kk)

            def get(i):
                i = T(i)
                q = (i - b) if s == 1 else (b - i)
                if kk.key == self.n.key:
                    return apply(fin, i)
                return merge(And(le(0, q), lt(q, kk)), apply(fin, i), v0.get(i))
            return Seq(None, v0.n, get, h.kind)
        return f

    def defer(self, ob):
        # emitted once the pre-loop state is restored
        self.deferred = getattr(self, "deferred", []) + [ob]

    # -------------------------------------------------------- invariants -----
    def bind_roles(self, spec, locs):
        """role -> location"""
        out = {}
        taken = set()
        for role, (name, kind) in spec.roles.items():
            sl = self.slot(name)
            if sl is not None:
                v = self.rawread(sl)
                out[role] = sl
                taken.add(sl)
        missing = [r for r in spec.roles if r not in out]
        for role in missing:
            name, kind = spec.roles[role]
            if callable(kind):
                kind = kind(getattr(self.ex, "args", None))
            # same kind among the modified variables of this loop
            for loc in locs:
                if loc in taken or loc[0] != "var":
                    continue
                try:
                    join_kind(kind if kind else kind_of(self.read(loc)), kind_of(self.read(loc)))
                except Unsupported:
                    continue
                out[role] = loc
                taken.add(loc)
                break
            else:
                loc = self.by_kind(kind, taken)
                if loc is not None:
                    out[role] = loc
                    taken.add(loc)
                    continue
                raise Unsupported("loop invariant: no variable plays the role %s" % role)
        return out

    def by_kind(self, kind, taken):
        """The one list or dictionary in scope of this kind."""
        found = []
        e = self.env
        while e is not None:
            d = self.ex.heap[e.addr]
            if "$module" in d:
                break
            for nm, v in d.items():
                if nm.startswith("$") or ("var", e.addr, nm) in taken or not isinstance(v, Ref) or v.typ not in ("list", "dict"):
                    continue
                if (v.typ == "dict") != (kind is not None and kind[0] == "dict"):
                    continue
                try:
                    if v.typ == "list" and kind:
                        join_kind(kind, kind_of(self.pure(v)))
                except Unsupported:
                    continue
                found.append(("var", e.addr, nm))
            e = d["$parent"]
        return found[0] if len(found) == 1 else None

    def with_spec(self, spec):
        ex = self.ex
        from .exec import _Break, PathEnd
        s0 = ex.snapshot()
        # modified locations by syntactic names plus lists they refer to / methods called on
        locs, aslist = {}, {}
        for nm in self.names:
            sl = self.slot(nm)
            if sl is not None:
                locs[sl] = None
        roles = self.bind_roles(spec, locs)
        kept = {r: self.slot(nm) or self.by_kind(kd, set(roles.values())) for r, (nm, kd) in dict(spec.keep).items()}
        if None in kept.values():
            raise Unsupported("loop invariant: no variable plays the role %s" % [r for r in kept if kept[r] is None])
        init = State()
        for r, loc in roles.items():
            setattr(init, r, self.view(spec, r, loc))

        def state(k):
            s = State()
            s.ex, s.k, s.n, s.init, s.args, s.it = ex, k, self.n, init, getattr(ex, "args", None), self.it
            for r, loc in roles.items():
                setattr(s, r, self.view(spec, r, loc))
            for r, loc in kept.items():
                setattr(s, r, self.read(loc))
            return s
        k0 = T(0)
        if spec.ghost:
            init.ghost = spec.ghost(state(k0))
        for lab, p in spec.inv(state(k0)):
            ex.oblige("inv-init:" + lab, p)
        which = ex.choose(2)
        # havoc
        for r, loc in roles.items():
            name, kind = spec.roles[r]
            if callable(kind):
                kind = kind(ex.args)
            raw = self.rawread(loc)
            kd = kind or kind_of(self.pure(raw))
            hv = ex.fresh(r, kd)
            if isinstance(raw, Ref) and raw.typ == "list":
                if loc[0] == "var" and loc[2] in assigned_names(self.node.body):
                    self.write(loc, hv, True)
                    # the old list may be mutated in place as well
                    ex.heap[raw.addr] = ex.heap[raw.addr] if not self.mutates(loc) else ex.heap[raw.addr]
                    if self.mutates(loc):
                        ex.heap[raw.addr] = hv
                        ex.heap[loc[1]][loc[2]] = raw
                else:
                    ex.heap[raw.addr] = hv
            elif isinstance(raw, Ref) and raw.typ == "dict":
                ex.heap[raw.addr] = hv
            else:
                self.write(loc, hv, False)
        bound = set(roles.values())
        for loc in locs:
            if loc not in bound:
                ex.heap[loc[1]][loc[2]] = Poison("modified by the loop at line %d" % self.node.lineno)
        k = None
        if self.n is not None:
            if which == 0:
                k = ex.fresh("k", ("s", INT))
                ex.add_fact("idx", le(0, k))
                ex.add_fact("idx", lt(k, self.n))
            else:
                k = ex.fresh("k", ("s", INT))
                ex.add_fact("idx", eq(k, self.n))
                k = self.n
        hs = ex.heap
        st = state(k)
        for lab, p in spec.inv(st):
            ex.add_fact("inv", p)
        mod0 = {a: c for a, c in ex.heap.items()}
        if which == 0:
            if self.test is not None:
                c = self.test()
                if c is False:
                    raise PathEnd()
                if isinstance(c, Term):
                    ex.add_fact("cond", c)
                if spec.decreases is None and not spec.partial:
                    raise Unsupported("loop without a measure")
                if not spec.partial:
                    m0 = T(spec.decreases(state(k)))
                    ex.oblige("measure-nonneg", le(0, m0))
            pre_heap = snapshot_lists(ex)
            try:
                self.run(k)
            except _Break:
                return
            self.check_frame(pre_heap, roles, locs)
            kn = None if k is None else k + 1
            st1 = state(kn)
            for lab, p in spec.inv(st1):
                ex.oblige("inv-step:" + lab, p)
            if self.test is not None and not spec.partial:
                ex.oblige("measure-decreases", lt(T(spec.decreases(st1)), m0))
            raise PathEnd()
        if self.test is not None:
            c = self.test()
            if c is True:
                raise PathEnd()
            if isinstance(c, Term):
                ex.add_fact("cond", Not(c))
        if getattr(self.node, "orelse", None):
            ex.exec_block(self.node.orelse, self.env)

    def mutates(self, loc):
        """Is the list bound to this name mutated in place in the body?"""
        name = loc[2]
        for n in ast.walk(ast.Module(body=self.node.body, type_ignores=[])):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == name and n.func.attr in ("append", "extend", "insert", "pop", "reverse", "clear", "add"):
                return True
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == name:
                return True
        return False

    def view(self, spec, role, loc):
        v = self.read(loc)
        name, kind = spec.roles[role]
        if isinstance(v, Ref) and v.typ == "dict":
            return self.ex.heap[v.addr]
        if isinstance(v, Seq) and v.items == [] and callable(kind):
            kind = kind(getattr(self.ex, "args", None))
        if isinstance(v, Seq) and v.items == [] and kind and kind[0] == "seq" and kind[1] is not None:
            w = self.ex.fresh_at(self.ex.newname("nil"), kind, [])
            return Seq(None, T(0), w.get, kind[1])
        return v

    def check_frame(self, pre, roles, locs):
        ex = self.ex
        allowed = set()
        for loc in roles.values():
            v = ex.heap[loc[1]].get(loc[2]) if loc[0] == "var" else None
            if isinstance(v, Ref):
                allowed.add(v.addr)
        for a, c0 in pre.items():
            if a in allowed or a == "$shared":
                continue
            c1 = ex.heap.get(a)
            if c1 is c0:
                continue
            if isinstance(c0, dict):
                if "$parent" in c0:
                    for k in c0:
                        if k.startswith("$") or (("var", a, k) in locs) or ("$module" in c0):
                            continue
                        if c1.get(k) is not c0[k] and not same_value(c1.get(k), c0[k]):
                            raise Unsupported("loop modifies %s, which its invariant does not mention" % k)
                else:
                    for k in c0:
                        if k.startswith("$"):
                            continue
                        if c1.get(k) is not c0[k] and not same_value(c1.get(k), c0[k]):
                            raise Unsupported("loop modifies attribute %s, which its invariant does not mention" % k)
            elif isinstance(c0, Seq):
                if not same_value(c0, c1):
                    raise Unsupported("loop modifies a list its invariant does not mention")
            else:
                raise Unsupported("loop modifies a dictionary its invariant does not mention")


def snapshot_lists(ex):
    return {a: (dict(c) if isinstance(c, dict) else c) for a, c in ex.heap.items()}


def join_all(ks):
    r = None
    for k in ks:
        r = join_kind(r, k) if r is not None else k
    return r


def merge_names(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = v if v > out.get(k, 0) else out.get(k, 0)
    return out


def same_dict(a, b):
    if a is b:
        return True
    if isinstance(a, DictV) and isinstance(b, DictV) and a.items is not None and b.items is not None:
        return list(a.items) == list(b.items) and all(same_value(a.items[k][1], b.items[k][1]) for k in a.items)
    return False


def subst_keep(v, m):
    """Substitute, keeping list provenance (append / prepend chains)."""
    from .exec import subst_value
    if not m:
        return v
    if isinstance(v, Seq) and v.prov is not None and v.prov[0] in ("append", "prepend"):
        base = subst_keep(v.prov[1], m)
        xs = [subst_value(x, m) for x in v.prov[2]]
        if v.prov[0] == "append":
            return seqops.seq_append(base, xs)
        r = subst_value(v, m)
        r.prov = ("prepend", base, xs)
        return r
    if isinstance(v, Seq) and v.root is not None:
        return v
    return subst_value(v, m)


def replace(t, old, new):
    """Replace every occurrence of the subterm old by new."""
    if not isinstance(t, Term):
        return t
    if t.key == old.key:
        return new
    if t.op in ("var", "int", "true", "false"):
        return t
    if not occurs(t, old):
        return t
    if t.op in ("forall", "exists", "lam"):
        return Term(t.op, (t.args[0], replace(t.args[1], old, new)), t.sort)
    from .terms import rebuild
    return rebuild(t, [replace(a, old, new) for a in t.args])


def replace_fn(t, fname, g):
    """Replace fname(idx) by g(idx)."""
    if not isinstance(t, Term) or fname not in freevars(t):
        return t
    if t.op == "fapp" and t.args[0].op == "var" and t.args[0].args[0] == fname:
        return g(replace_fn(t.args[1], fname, g))
    if t.op in ("forall", "exists", "lam"):
        return Term(t.op, (t.args[0], replace_fn(t.args[1], fname, g)), t.sort)
    from .terms import rebuild
    return rebuild(t, [replace_fn(a, fname, g) for a in t.args])


# ------------------------------------------------------------ counted while --
def counted_while(ex, s, env):
    """`while i < N: ...; i += c` as a loop with a known number of iterations."""
    def run(k):
        ex.exec_block(s.body, env)
    L = LoopRun(ex, s, env, None, run, names_of(s))
    L.itref = None
    cell = {}

    s0 = ex.snapshot()

    def pre(k):
        c = ex.eval_cond(s.test, env)
        cell["c"] = c
        if isinstance(c, Term):
            ex.add_fact("cond", c)
    # discovery to obtain the condition in terms of the loop-head symbols
    locs, aslist, H, kname, names_h, nf, probe, flog = L.discover(s0, run, pre=pre)
    c = cell["c"]
    after = {loc: L.read(loc) for loc in locs}
    init = {loc: L.pure_in(s0, L.rawread_in(s0, loc)) for loc in locs}
    if not isinstance(c, Term) or c.op not in ("lt", "le"):
        ex.restore(s0)
        return False
    lo, hi = c.args
    # c : lo < hi or lo <= hi ; find the closed forms of the scalars it mentions
    sc = {}
    for loc in locs:
        h = H[loc]
        if isinstance(h, Term) and h.sort is INT and occurs(c, h):
            f = L.solve_one(loc, locs[loc], h, after[loc], init[loc], kname)
            g = split_add(as_term(after[loc]), h)
            if f is None or g is None or g.op != "int":
                ex.restore(s0)
                return False
            sc[loc] = (h, g.args[0], init[loc])
    names = set()
    for loc in locs:
        names |= symbols(H[loc])
    names -= {h.args[0] for h, _, _ in sc.values()}
    if mentions(c, names) or not sc:
        ex.restore(s0)
        return False
    # slack(k) = hi - lo (- 0/1): decreases by a constant d each iteration
    slack = sub(hi, lo) - (1 if c.op == "lt" else 0)
    step = 0
    d0, _ = linform(slack)
    for h, g, v0 in sc.values():
        co = d0.get(h.key, (0,))[0]
        step += co * g
    if step >= 0:
        ex.restore(s0)
        return False
    m = {h.args[0]: T(v0) for h, g, v0 in sc.values()}
    slack0 = subst(slack, m)
    # iterations: smallest k with slack0 + k*step < 0  ==  max(0, slack0 // |step| + 1)
    q = fdiv(slack0, -step) + 1
    ex.restore(s0)
    n = seqops.max0(ex, q) if not ex.known(le(-1 + 0, slack0 // 1 if False else slack0 + 0)) else q
    L2 = LoopRun(ex, s, env, T(n), run, names_of(s))

    def run2(k):
        cc = ex.eval_cond(s.test, env)
        if isinstance(cc, Term):
            ex.add_fact("cond", cc)
        run(k)
    L2.run = run2
    L2.auto()
    return True
