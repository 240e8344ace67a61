"""Symbolic executor for the Python subset used by /repo.

Direct-style interpreter over symbolic values.  Control decisions on symbolic
conditions are either merged (if-then-else terms) or enumerated by re-execution
with recorded choices.  Verification conditions are collected in self.obls.
"""
import ast
import fnmatch
from .values import *
from .front import *
from . import seqops
from .seqops import *


class PathEnd(Exception):
    pass


class Infeasible(Exception):
    pass


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Obl:
    def __init__(self, name, hyps, goal, where):
        self.name, self.hyps, self.goal, self.where = name, hyps, goal, where

    def key(self):
        return (tuple(h.key for _, h in self.hyps), self.goal.key)


class AfterLoop:
    """Variable first bound inside a loop: defined only if the loop ran."""

    def __init__(self, value, cond):
        self.value, self.cond = value, cond


class World:
    """Contracts, hooks and the source: everything shared by all paths."""

    def __init__(self, source=None):
        self.src = source or Source()
        self.contracts = {}      # qual -> contract object
        self.class_hooks = {}    # qual -> fn(ex, ClassVal, env)
        self.new_hooks = {}      # class qual -> fn(ex, cls, args, kwargs) -> value or NotImplemented
        self.call_hooks = {}     # qual -> fn(ex, func, args, kwargs) -> value or NotImplemented
        self.externals = {}      # "mod.name" -> value or fn(ex)
        self.touched = set()     # functions whose bodies were executed
        self.used_contracts = set()


class Exec:
    MAXDEPTH = 60

    def __init__(self, world, choices=()):
        self.w = world
        self.choices = list(choices)
        self.cpos = 0
        self.pending = []        # number of alternatives at each choice point
        self.heap = {}
        self.next_addr = 1
        self.facts = []
        self.factkeys = {}
        self.obls = []
        self.names = {}
        self.skolem = []
        self.nofork = 0
        self.depth = 0
        self.modenv = {}
        self.where = ""
        self.root = None         # contract under verification (its loop specs are in scope)
        self.loops_used = set()
        self.in_try = 0
        self.classes = {}
        self.cur_class = []
        self.allow_none_index = False
        self.assumed_safe = []   # (name, goal) implicit checks under try
        self.freshlog = []
        self.probe = None
        self.probe_level = 0
        self.probe_depth = 0
        self.args = None

    # ------------------------------------------------------------ plumbing --
    def alloc(self, content, typ):
        a = self.next_addr
        self.next_addr += 1
        self.heap[a] = content
        return Ref(a, typ)

    def snapshot(self):
        h = {}
        for a, c in self.heap.items():
            h[a] = dict(c) if isinstance(c, dict) else c
        return (h, self.next_addr, list(self.facts), dict(self.factkeys), dict(self.names), len(self.obls))

    def restore(self, s, keep_obls=False):
        h, na, f, fk, nm, no = s
        self.heap = {a: (dict(c) if isinstance(c, dict) else c) for a, c in h.items()}
        self.next_addr = na
        self.facts, self.factkeys, self.names = list(f), dict(fk), dict(nm)
        if not keep_obls:
            del self.obls[no:]

    def newname(self, base):
        base = base.lstrip("$") or "v"
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return base if n == 0 else "%s_%d" % (base, n)

    def fresh(self, base, kind, fact=True):
        name = self.newname(base)
        self.freshlog.append((name, repr(kind)))
        return self.fresh_at(name, kind, list(self.skolem))

    def fresh_at(self, name, kind, idxs):
        tag = kind[0]
        if tag == "s":
            if idxs:
                v = var(name, FnSort([INT] * len(idxs), kind[1]))
                return apply(v, *idxs)
            return var(name, kind[1])
        if tag == "mix":
            return Mix(self.fresh_at(name, ("s", kind[1]), idxs))
        if tag == "tuple":
            return tuple(self.fresh_at("%s_%d" % (name, i), k, idxs) for i, k in enumerate(kind[1]))
        if tag == "seq":
            n = self.fresh_at(name + "_n", ("s", INT), idxs)
            self.add_fact("len", self.close_over(le(0, n), idxs))
            k = kind[1]

            def get(i, name=name, idxs=idxs, k=k):
                if k is None:
                    raise Unsupported("element of unknown kind")
                return self.fresh_at(name + "_e" if k[0] in ("seq", "tuple") else name, k, list(idxs) + [T(i)])
            if k is not None and k[0] == "seq":
                # inner lengths are non-negative everywhere
                i = var("i?n", INT)
                inner = self.fresh_len(name + "_e", list(idxs) + [i])
                self.add_fact("len", self.close_over(Forall(lambda x: subst(le(0, inner), {"i?n": x})), idxs))
            return Seq(None, n, get, k)
        if tag == "make":
            return kind[1](self, name)
        if tag == "const":
            return kind[1]
        if tag == "bool":
            return self.fresh_at(name, ("s", PROP), idxs)
        if tag == "dict" and not idxs:
            dom, val = var(name + "_dom", FnSort([kind[1]], PROP)), var(name + "_val", FnSort([kind[1]], kind[2][1]))
            return seqops.SymDict(lambda q: apply(dom, q), lambda q: apply(val, q), kind[1], kind[2])
        raise Unsupported("fresh value of kind %r" % (kind,))

    def fresh_len(self, name, idxs):
        return self.fresh_at(name + "_n", ("s", INT), idxs)

    def close_over(self, t, idxs):
        """Universally close t over those skolem indices that are plain variables."""
        for i in idxs:
            if i.op == "var" and not any(i.key == s.key for s in self.skolem):
                t = Forall(lambda x, t=t, i=i: subst(t, {i.args[0]: x}))
        return t

    def add_fact(self, name, t):
        t = T(t)
        if t.op == "true":
            return
        if t.op == "and":
            for x in t.args:
                self.add_fact(name, x)
            return
        if t.key in self.factkeys:
            return
        self.factkeys[t.key] = True
        self.facts.append((name, t))

    assume = add_fact

    def pop_facts(self, n):
        new = self.facts[n:]
        for _, t in new:
            self.factkeys.pop(t.key, None)
        del self.facts[n:]
        return new

    def oblige(self, name, goal, raw=False):
        goal = T(goal)
        if goal.op == "true" and not raw:
            return
        if goal.key in self.factkeys and not raw:
            return
        if goal.op == "and" and not raw:
            for g in goal.args:
                self.oblige(name, g)
            return
        self.obls.append(Obl(name, list(self.facts), goal, self.where))

    def safe(self, name, goal):
        """Implicit run-time check (index range, division by zero, ...)."""
        goal = T(goal)
        if self.known(goal):
            return
        self.oblige("safe:" + name, goal)
        self.add_fact("safe", goal)

    def known(self, c):
        """Cheap syntactic entailment."""
        c = T(c)
        if c.op == "true" or c.key in self.factkeys:
            return True
        if c.op == "and":
            return all(self.known(x) for x in c.args)
        if c.op in ("lt", "le") and c.args[0].sort is INT:
            return self.nonneg(sub(c.args[1], c.args[0]) - (1 if c.op == "lt" else 0))
        if c.op == "not" and c.args[0].op == "eq" and c.args[0].args[0].sort is INT:
            d = sub(c.args[0].args[0], c.args[0].args[1])
            return self.nonneg(d - 1) or self.nonneg(neg(d) - 1)
        return False

    def nonneg(self, t, depth=2):
        t = T(t)
        d, c = linform(t)
        if c >= 0 and all(co > 0 and self.atom_nonneg(at) for co, at in d.values()):
            return True
        if depth:
            # t >= 0 follows from some fact  f >= 0  with  t - f >= 0
            for n, f in self.facts:
                if f.op in ("lt", "le") and f.args[0].sort is INT:
                    g = sub(f.args[1], f.args[0])
                    if f.op == "lt":
                        g = g - 1
                    dg, _ = linform(g)
                    if dg and any(k in d for k in dg):
                        r = sub(t, g)
                        dr, cr = linform(r)
                        if len(dr) < len(d) + (1 if depth > 1 else 0) and self.nonneg(r, depth - 1):
                            return True
        return False

    def atom_nonneg(self, a):
        if a.op == "app" and a.args[0] in ("plen", "blen", "iabs", "max0"):
            return True
        if a.op == "emod":
            return True
        if a.op == "ediv":
            return self.nonneg(a.args[0], 1)
        if a.op == "mul":
            return self.nonneg(a.args[0], 1) and self.nonneg(a.args[1], 1)
        if a.op == "ite":
            if a.args[0].op in ("lt", "le"):
                # max(x, 0) patterns
                if is_lit(a.args[2], 0) and a.args[0].op in ("lt", "le") and is_lit(a.args[0].args[0], 0) and a.args[0].args[1].same(a.args[1]):
                    return True
            return self.nonneg(a.args[1], 1) and self.nonneg(a.args[2], 1)
        if le(0, a).key in self.factkeys or lt(0, a).key in self.factkeys:
            return True
        for n, f in self.facts:
            if f.op in ("lt", "le") and f.args[1].key == a.key and f.args[0].op == "int" and f.args[0].args[0] >= (-1 if f.op == "lt" else 0):
                return True
        return False

    # -------------------------------------------------------------- choices --
    def choose(self, n):
        if self.nofork:
            raise NeedFork("choice")
        if self.cpos < len(self.choices):
            c = self.choices[self.cpos]
        else:
            c = 0
            self.choices.append(0)
        if len(self.pending) <= self.cpos:
            self.pending.append(n)
        self.cpos += 1
        return c

    def decide(self, c):
        """Control-flow decision on a boolean value."""
        if isinstance(c, bool):
            return c
        c = T(c)
        if c.op == "true":
            return True
        if c.op == "false":
            return False
        if self.known(c):
            return True
        if self.known(Not(c)):
            return False
        b = self.choose(2) == 0
        self.add_fact("branch", c if b else Not(c))
        return b

    # ---------------------------------------------------------------- names --
    def new_env(self, parent, /, **kw):
        d = dict(kw)
        d["$parent"] = parent
        return self.alloc(d, "env")

    def lookup(self, env, name):
        e = env
        while e is not None:
            d = self.heap[e.addr]
            if name in d:
                v = d[name]
                if isinstance(v, AfterLoop):
                    self.safe("unbound:" + name, v.cond)
                    return v.value
                return v
            if "$module" in d:
                return self.module_name(d["$module"], name)
            e = d["$parent"]
        raise Unsupported("name %s" % name)

    def setname(self, env, name, v):
        d = self.heap[env.addr]
        if name in d.get("$nonlocal", ()):
            e = d["$parent"]
            while e is not None:
                dd = self.heap[e.addr]
                if name in dd:
                    dd[name] = v
                    return
                e = dd["$parent"]
        d[name] = v

    def module_envref(self, mod):
        if mod not in self.modenv or self.modenv[mod].addr not in self.heap:
            self.modenv[mod] = self.alloc({"$parent": None, "$module": mod}, "env")
        return self.modenv[mod]

    def module_name(self, mod, name):
        menv = self.module_envref(mod)
        d = self.heap[menv.addr]
        if name in d:
            return d[name]
        ext = self.w.externals.get("%s:%s" % (mod, name))
        if ext is not None:
            v = ext(self) if callable(ext) and not isinstance(ext, (Builtin, ClassVal, Func)) else ext
            d[name] = v
            return v
        tree = self.w.src.module(mod)
        if tree is None:
            v = self.external(mod, name)
            d[name] = v
            return v
        found = None
        for s in flat_top(tree.body):
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == name:
                found = s
            elif isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                found = s
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name:
                found = s
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    if (a.asname or a.name) == name or (a.name == "*" and found is None and self.w.src.module(s.module) is not None and self._defines(s.module, name)):
                        found = (s.module, a.name if a.name != "*" else name)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if (a.asname or a.name.split(".")[0]) == name:
                        found = ModuleVal(a.name if a.asname else a.name.split(".")[0])
        if found is None:
            v = self.builtin(name)
        elif isinstance(found, tuple):
            sub_ = found[0] + "." + found[1]
            if self.w.src.path_of(sub_) and not (self.w.src.module(found[0]) and self._defines(found[0], found[1])):
                v = ModuleVal(sub_)
            else:
                v = self.module_name(found[0], found[1]) if self.w.src.module(found[0]) is not None else self.external(found[0], found[1])
        elif isinstance(found, ModuleVal):
            v = found
        else:
            d["$building"] = True
            self.exec_def(found, menv, mod, "")
            v = d[name]
        d[name] = v
        return v

    def _defines(self, mod, name):
        tree = self.w.src.module(mod)
        if tree is None:
            return False
        for s in flat_top(tree.body):
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == name:
                return True
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                return True
        return False

    def external(self, mod, name):
        k = "%s:%s" % (mod, name)
        if k in self.w.externals:
            e = self.w.externals[k]
            return e(self) if callable(e) and not isinstance(e, (Builtin, ClassVal, Func)) else e
        if mod in ("typing", "__future__"):
            return Opaque(name)
        b = seqops.EXTERNALS.get(k)
        if b is not None:
            return Builtin(name, b)
        return Opaque(k)

    def builtin(self, name):
        b = seqops.BUILTINS.get(name)
        if b is not None:
            return Builtin(name, b)
        if name in EXC_PARENTS or name == "BaseException":
            return ExcClass(name)
        if name in ("int", "bool", "str", "bytes", "list", "tuple", "dict", "set", "object", "float", "property", "staticmethod", "classmethod", "type", "super"):
            return TypeName(name)
        if name in ("NotImplemented",):
            return NOTIMPL
        if name == "__name__":
            return "module"
        raise Unsupported("unknown name %s" % name)

    # ------------------------------------------------------------ functions --
    def get_function(self, qual):
        """'mod:name' or 'mod:Class.method' (top level)."""
        mod, path = qual.split(":")
        parts = path.split(".")
        v = self.module_name(mod, parts[0])
        for p in parts[1:]:
            v = v.lookup(p)
        return v

    def exec_def(self, s, env, mod, qualprefix):
        if isinstance(s, ast.FunctionDef):
            f = Func(s, env, mod, qualprefix + s.name if qualprefix else "%s:%s" % (mod, s.name), cls=self.cur_class[-1] if self.cur_class else None)
            f.defaults = ([self.eval(d, env) for d in s.args.defaults],
                          [None if d is None else self.eval(d, env) for d in s.args.kw_defaults])
            v = f
            for dec in reversed(s.decorator_list):
                dv = self.eval(dec, env)
                v = self.call(dv, [v], {})
            self.setname(env, s.name, v)
        elif isinstance(s, ast.ClassDef):
            bases = [self.eval(b, env) for b in s.bases]
            bases = [b for b in bases if isinstance(b, ClassVal)]
            qual = (qualprefix + s.name) if qualprefix else "%s:%s" % (mod, s.name)
            c = ClassVal(s.name, bases, {}, qual)
            cenv = self.new_env(env)
            self.cur_class.append(c)
            try:
                for t in s.body:
                    if isinstance(t, (ast.FunctionDef, ast.ClassDef)):
                        self.exec_def(t, cenv, mod, qual + ".")
                    elif isinstance(t, ast.Expr):
                        pass
                    else:
                        self.exec(t, cenv)
            finally:
                self.cur_class.pop()
            for k, v in self.heap[cenv.addr].items():
                if not k.startswith("$"):
                    c.attrs[k] = v
            # methods see the enclosing scope, not the class scope
            for v in c.attrs.values():
                fix_env(v, cenv, env)
            self.setname(env, s.name, c)
            hook = self.w.class_hooks.get(qual)
            if hook:
                hook(self, c, env)
        else:
            self.exec(s, env)

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, Builtin):
            return f.fn(self, args, kwargs)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, TypeName):
            return seqops.call_type(self, f.name, args, kwargs)
        if isinstance(f, ExcClass):
            return ExcVal(f.name, args)
        if isinstance(f, Opaque):
            return Opaque(f.what + "()")
        if isinstance(f, SymFunc):
            return f.fn(self, args, kwargs)
        if isinstance(f, Term) and f.sort.cls is not None:
            return f.sort.cls.seal.call_instance(self, f, args)
        if isinstance(f, Ref) and f.typ == "obj":
            m = self.heap[f.addr]["$class"].lookup("__call__")
            if m is not None:
                return self.call(m, [f] + list(args), kwargs)
        raise Unsupported("call of %r" % (f,))

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.args]
        out = {}
        args = list(args)
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise("TypeError", None, self.where)
            out[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        for n, v in zip(names, args):
            out[n] = v
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in out:
                    raise PyRaise("TypeError", None, self.where)
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyRaise("TypeError", None, self.where)
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.alloc(DictV(items=dict((k, (k, v)) for k, v in extra.items())), "dict")
        defs, kwdefs = f.defaults if f.defaults else ([], [])
        for n, d in zip(names[len(names) - len(defs):], defs):
            out.setdefault(n, d)
        for x, d in zip(a.kwonlyargs, kwdefs):
            if d is not None or x.arg in out:
                out.setdefault(x.arg, d)
        for n in names:
            if n not in out:
                raise PyRaise("TypeError", None, self.where)
        return out

    def call_func(self, f, args, kwargs, root=False):
        cs = self.w.contracts.get(f.qual)
        if cs and not root:
            bound = self.bind_args(f, args, kwargs)
            for c in cs:
                r = c.apply(self, bound, f)
                if r is not NotImplemented:
                    self.w.used_contracts.add(f.qual)
                    return r
        h = self.w.call_hooks.get(f.qual)
        if h is not None and not root:
            r = h(self, f, args, kwargs)
            if r is not NotImplemented:
                return r
        bound = self.bind_args(f, args, kwargs)
        self.depth += 1
        if self.depth > self.MAXDEPTH:
            raise Unsupported("inlining too deep at %s (recursive function without a contract?)" % f.qual)
        self.w.touched.add(f.qual)
        old = self.where
        try:
            env = self.new_env(f.env, **{k: v for k, v in bound.items()})
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            self.where = "%s" % f.qual
            gen = has_yield(f.node)
            if gen:
                self.setname(env, "$yield", self.alloc(Seq([]), "list"))
            self.heap[env.addr]["$func"] = f
            try:
                self.exec_block(f.node.body, env)
                r = None
            except _Return as e:
                r = e.v
            if gen:
                return self.freeze(self.lookup(env, "$yield"))
            return r
        finally:
            self.depth -= 1
            self.where = old

    def instantiate(self, c, args, kwargs):
        h = self.w.new_hooks.get(c.qual)
        if h is not None:
            r = h(self, c, args, kwargs)
            if r is not NotImplemented:
                return r
        if c.seal is not None:
            r = c.seal.construct(self, args, kwargs)
            if r is not NotImplemented:
                return r
        o = self.alloc({"$class": c}, "obj")
        init = c.lookup("__init__")
        if init is not None:
            self.call(init, [o] + list(args), kwargs)
        elif args:
            raise PyRaise("TypeError")
        return o

    def class_of(self, v):
        """Run-time class of a value."""
        if isinstance(v, Ref) and v.typ == "obj":
            return self.heap[v.addr]["$class"]
        if isinstance(v, Term):
            if v.sort.cls is not None:
                return v.sort.cls
            return TypeName({"Int": "int", "Prop": "bool", "Bytes": "bytes"}.get(v.sort.name, v.sort.name))
        if isinstance(v, bool):
            return TypeName("bool")
        if isinstance(v, int):
            return TypeName("int")
        if isinstance(v, str):
            return TypeName("str")
        if isinstance(v, bytes):
            return TypeName("bytes")
        if isinstance(v, tuple):
            return TypeName("tuple")
        if v is None:
            return TypeName("NoneType")
        if isinstance(v, Seq):
            return TypeName("list")
        if isinstance(v, Ref):
            return TypeName({"list": "list", "dict": "dict", "set": "set"}[v.typ])
        if isinstance(v, (Func, Bound, SymFunc, Builtin)):
            return TypeName("function")
        if isinstance(v, ClassVal):
            return TypeName("type")
        if isinstance(v, TypedOpaque):
            return TypeName(v.typ)
        raise Unsupported("type of %r" % (v,))

    # -------------------------------------------------------------- values --
    def freeze(self, v):
        """Heap list -> immutable value (it must not be mutated afterwards)."""
        if isinstance(v, Ref) and v.typ in ("list",):
            c = self.heap[v.addr]
            return c
        return v

    def seq(self, v):
        """Anything iterable -> Seq."""
        if isinstance(v, Seq):
            return v
        if isinstance(v, tuple):
            return Seq(v)
        if isinstance(v, Ref) and v.typ == "list":
            return self.heap[v.addr]
        if isinstance(v, Ref) and v.typ == "dict":
            d = self.heap[v.addr]
            if d.items is not None:
                return Seq([k for k, _ in d.items.values()])
            if d.size is not None:
                return d.size
            if isinstance(d, SymDict):
                from .maps import enum
                return enum(self, d.dom, d.ksort)
            raise Unsupported("iteration over a symbolic dict")
        if isinstance(v, Ref) and v.typ == "set":
            return self.heap[v.addr]
        if isinstance(v, Ref) and v.typ == "obj":
            m = self.heap[v.addr]["$class"].lookup("__iter__")
            if m is not None:
                return self.seq(self.call(m, [v], {}))
        if isinstance(v, Term) and v.sort.cls is not None:
            return self.seq(self.call_method(v, "__iter__", []))
        if isinstance(v, (str, bytes)) and isinstance(v, str):
            return Seq(list(v))
        if isinstance(v, bytes):
            return Seq(list(v))
        if isinstance(v, StrV):
            return v.seq
        if v is None or isinstance(v, (bool, int)) or isinstance(v, Term) and v.sort in (INT, BOOL):
            raise PyRaise("TypeError", None, self.where)
        if isinstance(v, TypedOpaque) and hasattr(v.data, "seq"):
            return v.data.seq(self)
        raise Unsupported("iteration over %r" % (v,))

    def call_method(self, v, name, args, kwargs=None):
        return self.call(self.getattr(v, name), args, kwargs or {})

    def getattr(self, v, name):
        if name == "__class__":
            return self.class_of(v)
        if isinstance(v, Ref) and v.typ == "obj":
            d = self.heap[v.addr]
            if name in d:
                return d[name]
            a = d["$class"].lookup(name)
            if a is None:
                raise PyRaise("AttributeError", None, self.where)
            return self.bind_attr(a, v, d["$class"])
        if isinstance(v, Term) and v.sort.cls is not None:
            s = v.sort.cls.seal
            r = s.getattr(self, v, name)
            if r is not NotImplemented:
                return r
            a = v.sort.cls.lookup(name)
            if a is None:
                raise Unsupported("attribute %s of %s" % (name, v.sort))
            return self.bind_attr(a, v, v.sort.cls)
        if isinstance(v, Mix):
            raise Unsupported("attribute %s of a value that may be an int" % name)
        if isinstance(v, ClassVal):
            if name == "__name__":
                if v.seal is not None:
                    r = v.seal.class_attr(self, name)
                    if r is not NotImplemented:
                        return r
                return v.attrs.get("__name__", v.name)
            if v.seal is not None:
                r = v.seal.class_attr(self, name)
                if r is not NotImplemented:
                    return r
            a = v.lookup(name)
            if a is None:
                raise PyRaise("AttributeError", None, self.where)
            if isinstance(a, Func) and a.kind == "classmethod":
                return Bound(a, v)
            return a
        if isinstance(v, ModuleVal):
            if self.w.src.path_of(v.name):
                return self.module_name(v.name, name)
            return self.external(v.name, name)
        if isinstance(v, (Func, Bound)) and name == "__name__":
            return "function"
        if isinstance(v, Opaque):
            return Opaque(v.what + "." + name)
        if isinstance(v, TypeName) and name == "__name__":
            return v.name
        m = seqops.method(self, v, name)
        if m is not None:
            return m
        raise Unsupported("attribute %s of %r" % (name, v))

    def bind_attr(self, a, v, cls):
        if isinstance(a, Func):
            if a.kind == "staticmethod":
                return a
            if a.kind == "classmethod":
                return Bound(a, cls)
            if a.kind == "property":
                return self.call(a, [v], {})
            return Bound(a, v)
        if isinstance(a, (SymFunc,)):
            return Bound(a, v)
        return a

    def setattr(self, v, name, val):
        if isinstance(v, Ref) and v.typ == "obj":
            self.heap[v.addr][name] = val
            return
        if isinstance(v, ClassVal):
            v.attrs[name] = val
            return
        if isinstance(v, Func):
            return
        raise Unsupported("assignment to attribute %s of %r" % (name, v))

    def truth(self, v):
        """Truthiness: bool or Prop term."""
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, str, bytes, tuple)):
            return bool(v)
        if isinstance(v, Term):
            if v.sort is PROP:
                return v
            if v.sort is INT:
                return simp_bool(ne(v, 0))
            if v.sort is BYTES:
                return simp_bool(ne(app("blen", INT, v), 0))
            if v.sort.cls is not None:
                r = v.sort.cls.seal.truth(self, v)
                return simp_bool(r) if isinstance(r, Term) else r
        if isinstance(v, Mix):
            b = self.fresh("truthy", ("s", PROP))
            self.add_fact("truthy", Imp(Not(b), eq(v.term, 0)))
            return b
        if isinstance(v, Seq):
            return simp_bool(ne(T(v.n), 0))
        if isinstance(v, Ref):
            if v.typ in ("list", "set"):
                return self.truth(self.heap[v.addr])
            if v.typ == "obj":
                cls = self.heap[v.addr]["$class"]
                if cls.lookup("__bool__") or cls.lookup("__len__"):
                    if cls.lookup("__bool__"):
                        return self.truth(self.call_method(v, "__bool__", []))
                    return self.truth(self.call_method(v, "__len__", []))
                return True
            if v.typ == "dict":
                d = self.heap[v.addr]
                if d.items is not None:
                    return bool(d.items)
        if isinstance(v, (Func, Bound, ClassVal, Builtin, SymFunc, TypeName)):
            return True
        if isinstance(v, StrV):
            return simp_bool(ne(T(v.seq.n), 0))
        if isinstance(v, TypedOpaque) and v.truth is not None:
            return v.truth
        raise Unsupported("truth value of %r" % (v,))

    # ---------------------------------------------------------- expressions --
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s at line %s" % (type(e).__name__, getattr(e, "lineno", "?")))
        return m(e, env)

    def e_Constant(self, e, env):
        if isinstance(e.value, float):
            return Opaque("float")
        if e.value is Ellipsis:
            return Opaque("...")
        return e.value

    def e_Name(self, e, env):
        if e.id in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[e.id]
        return self.lookup(env, e.id)

    def e_JoinedStr(self, e, env):
        f = self.w.externals.get("$fstring")
        if f is not None:
            parts = []
            for v in e.values:
                if isinstance(v, ast.Constant):
                    parts.append(v.value)
                else:
                    parts.append(self.eval(v.value, env))
            return f(self, parts)
        return Opaque("fstring")

    def e_Tuple(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                s = self.seq(self.eval(x.value, env))
                if s.items is None:
                    raise Unsupported("starred symbolic sequence")
                out.extend(s.items)
            else:
                out.append(self.freeze_elem(self.eval(x, env)))
        return tuple(out)

    def freeze_elem(self, v):
        return v

    def e_List(self, e, env):
        return self.alloc(Seq([self.freeze_in(x) for x in self.e_Tuple(e, env)]), "list")

    def freeze_in(self, v):
        """A value stored inside a sequence: lists are stored by value."""
        if isinstance(v, Ref) and v.typ == "list":
            self.mark_shared(v)
            return self.heap[v.addr]
        if isinstance(v, tuple):
            return tuple(self.freeze_in(x) for x in v)
        return v

    def mark_shared(self, ref):
        self.heap.setdefault("$shared", {})
        self.heap["$shared"][ref.addr] = True

    def e_Dict(self, e, env):
        items = {}
        ref = None
        for k, v in zip(e.keys, e.values):
            kv = self.eval(k, env)
            if ref is not None or seqops.symbolic_key(self, kv) is not None and not items:
                ref = ref or self.alloc(DictV(items={}), "dict")
                seqops.dict_set(self, ref, kv, self.eval(v, env))
                continue
            items[seqops.dict_key(self, kv)] = (kv, self.eval(v, env))
        if ref is not None:
            return ref
        return self.alloc(DictV(items=items), "dict")

    def e_Set(self, e, env):
        return self.alloc(Seq([self.eval(x, env) for x in e.elts]), "set")

    def e_Lambda(self, e, env):
        f = Func(e, env, None, "<lambda>")
        f.defaults = ([self.eval(d, env) for d in e.args.defaults], [])
        return f

    def e_IfExp(self, e, env):
        c = self.eval_cond(e.test, env)
        if isinstance(c, bool):
            return self.eval(e.body if c else e.orelse, env)
        if self.known(c):
            return self.eval(e.body, env)
        if self.known(Not(c)):
            return self.eval(e.orelse, env)
        s = self.snapshot()
        try:
            r = self.speculate(c, lambda: self.eval(e.body, env), lambda: self.eval(e.orelse, env))
            return r
        except NeedFork:
            self.restore(s)
            if self.nofork:
                raise
        if self.decide(c):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def speculate(self, c, f, g):
        """Run f under c and g under not c, both straight-line; merge results and state."""
        s0 = self.snapshot()
        self.nofork += 1
        try:
            nf = len(self.facts)
            n0 = len(self.obls)
            try:
                self.add_fact("branch", c)
                a = f()
                factsa = self.pop_facts(nf)
                heapa = {k: (dict(v) if isinstance(v, dict) else v) for k, v in self.heap.items()}
                obls_a = self.obls[n0:]
                na, namesa = self.next_addr, dict(self.names)
                self.restore(s0)
                self.next_addr, self.names = na, namesa
                self.add_fact("branch", Not(c))
                b = g()
                factsb = self.pop_facts(nf)
                heapb = self.heap
                obls_b = self.obls[n0:]
            except (PyRaise, _Return, _Break, _Continue, PathEnd) as ex:
                raise NeedFork("abrupt branch: %r" % (ex,))
        finally:
            self.nofork -= 1
        # merge heaps
        out = {}
        h0 = s0[0]
        self.heap = out
        merged, self.merged = self.merged, {}
        sides, self.sides = self.sides, (heapa, heapb, h0, {}, {})
        try:
            return self.merge_heaps(c, a, b, heapa, heapb, h0, out, factsa, factsb, n0, obls_a, obls_b)
        finally:
            self.sides, self.merged = sides, merged

    sides = None
    merged = {}

    def side(self, x, y):
        """Contents of two references, one from each branch, that become one reference.
        Only references made inside the branches, paired one to one, may be merged."""
        if self.sides is None:
            raise NeedFork("merge outside a branch")
        ha, hb, h0, ab, ba = self.sides
        if x.addr in h0 or y.addr in h0:
            raise NeedFork("merge of a list that existed before the branch")
        if ab.setdefault(x.addr, y.addr) != y.addr or ba.setdefault(y.addr, x.addr) != x.addr:
            raise NeedFork("merge of aliased lists")
        return ha[x.addr], hb[y.addr], (x.addr, y.addr)

    def merge_heaps(self, c, a, b, heapa, heapb, h0, out, factsa, factsb, n0, obls_a, obls_b):
        for addr in set(heapa) | set(heapb):
            ca, cb = heapa.get(addr), heapb.get(addr)
            if addr == "$shared":
                d = dict(ca or {})
                d.update(cb or {})
                out[addr] = d
                continue
            if ca is None or cb is None:
                if addr in h0:
                    raise NeedFork("heap")
                out[addr] = ca if cb is None else cb
                continue
            if isinstance(ca, dict):
                d = {}
                mod = "$module" in ca
                for k in set(ca) | set(cb):
                    if mod and k not in h0.get(addr, {}):
                        d[k] = ca.get(k, cb.get(k))      # lazily resolved global
                    elif k in ca and k in cb:
                        if k.startswith("$"):
                            d[k] = ca[k]
                        else:
                            d[k] = self.merge_slot(c, ca[k], cb[k], k)
                    elif k in h0.get(addr, {}):
                        raise NeedFork("deleted name")
                    # bound on one side only: unbound afterwards
                    elif k == "$func" or k.startswith("$"):
                        d[k] = ca.get(k, cb.get(k))
                    else:
                        v, cc = (ca[k], c) if k in ca else (cb[k], Not(c))
                        d[k] = AfterLoop(v.value, And(v.cond, cc)) if isinstance(v, AfterLoop) else AfterLoop(v, cc)
                out[addr] = d
            elif ca is cb:
                out[addr] = ca
            elif isinstance(ca, Seq):
                out[addr] = merge_seq_prov(c, ca, cb)
            else:
                raise NeedFork("merge of dictionaries")
        for n, t in factsa:
            if t.key != T(c).key:
                self.add_fact(n, Imp(c, t))
        for n, t in factsb:
            if t.key != T(Not(c)).key:
                self.add_fact(n, Imp(Not(c), t))
        del self.obls[n0:]
        self.obls.extend(obls_a)
        self.obls.extend(obls_b)
        return self.merge_slot(c, a, b, "result")

    def merge_slot(self, c, x, y, name):
        if x is y:
            return x
        if isinstance(x, AfterLoop) or isinstance(y, AfterLoop):
            xv, xc = (x.value, x.cond) if isinstance(x, AfterLoop) else (x, TRUE)
            yv, yc = (y.value, y.cond) if isinstance(y, AfterLoop) else (y, TRUE)
            return AfterLoop(self.merge_slot(c, xv, yv, name), And(Imp(c, xc), Imp(Not(c), yc)))
        if isinstance(x, Ref) and isinstance(y, Ref):
            if x == y:
                return x
            if x.typ == y.typ and x.typ in ("list", "obj"):
                dx, dy, key = self.side(x, y)
                if key in self.merged:
                    return self.merged[key]
            if x.typ == y.typ == "list":
                r = self.merged[key] = self.alloc(merge_seq_prov(c, dx, dy), "list")
                return r
            if x.typ == y.typ == "obj":
                if dx["$class"] is dy["$class"] and set(dx) == set(dy):
                    d = {"$class": dx["$class"]}
                    for k in dx:
                        if k != "$class":
                            d[k] = self.merge_slot(c, dx[k], dy[k], k)
                    r = self.merged[key] = self.alloc(d, "obj")
                    return r
        if isinstance(x, Opaque) and isinstance(y, Opaque):
            return x
        if isinstance(x, Ref) and x.typ == "list" and isinstance(y, Seq):
            raise NeedFork("merge of a list and a sequence")
        if isinstance(y, Ref) and y.typ == "list" and isinstance(x, Seq):
            raise NeedFork("merge of a list and a sequence")
        return merge(c, x, y)

    def eval_cond(self, e, env):
        """Boolean context -> bool or Prop."""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            acc = []
            nf = len(self.facts)
            pushed = []
            try:
                for i, x in enumerate(e.values):
                    if acc:
                        # later operands are evaluated only under the earlier ones
                        c = acc[-1]
                        self.add_fact("sc", c if isand else Not(c))
                        self.nofork += 1
                        n1 = len(self.facts)
                        sn = self.snapshot()
                        try:
                            v = self.eval_cond(x, env)
                        except (NeedFork, PyRaise):
                            self.nofork -= 1
                            self.restore(sn)
                            if self.nofork:
                                raise NeedFork("short circuit")
                            self.pop_facts(nf)
                            # fork on the prefix instead
                            pre = And(*acc) if isand else Or(*acc)
                            if self.decide(pre) == isand:
                                rest = ast.BoolOp(op=e.op, values=e.values[i:]) if len(e.values) - i > 1 else e.values[i]
                                return self.eval_cond(rest, env)
                            return not isand
                        self.nofork -= 1
                    else:
                        v = self.eval_cond(x, env)
                    if isinstance(v, bool):
                        if v != isand:
                            r = acc and (And(*acc, FALSE) if isand else Or(*acc, TRUE)) or v
                            return not isand if not isinstance(r, bool) else v
                        continue
                    acc.append(v)
            finally:
                new = self.pop_facts(nf)
                # facts learnt while evaluating later operands hold under the prefix
                if acc:
                    pref = []
                    for n, t in new:
                        if n == "sc":
                            pref.append(t)
                        else:
                            self.add_fact(n, Imp(And(*pref), t) if pref else t)
                else:
                    for n, t in new:
                        self.add_fact(n, t)
            if not acc:
                return isand
            return simp_bool(And(*acc) if isand else Or(*acc))
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.eval_cond(e.operand, env)
            return (not v) if isinstance(v, bool) else simp_bool(Not(v))
        r = self.truth(self.eval(e, env))
        return simp_bool(r) if isinstance(r, Term) else r

    def e_BoolOp(self, e, env):
        # value context
        isand = isinstance(e.op, ast.And)
        v = self.eval(e.values[0], env)
        for i, x in enumerate(e.values[1:]):
            t = self.truth(v)
            if isinstance(t, bool) or (isinstance(t, Term) and t.op in ("true", "false")):
                tb = t if isinstance(t, bool) else t.op == "true"
                if tb == isand:
                    v = self.eval(x, env)
                    continue
                return v
            if isinstance(v, Term) and v.sort is PROP:
                s = self.snapshot()
                try:
                    c = v if isand else Not(v)
                    box = {}
                    r = self.speculate(c, lambda: self.truth_val(self.eval(x, env)), lambda: (not isand))
                    v = r
                    continue
                except NeedFork:
                    self.restore(s)
                    if self.nofork:
                        raise
            if self.decide(t) == isand:
                v = self.eval(x, env)
            else:
                return v
        return v

    def truth_val(self, v):
        if isinstance(v, bool) or (isinstance(v, Term) and v.sort is PROP):
            return v
        raise NeedFork("non-boolean operand of and/or")

    def e_UnaryOp(self, e, env):
        if isinstance(e.op, ast.Not):
            v = self.eval_cond(e, env)
            return v
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.USub):
            return seqops.unary_neg(self, v)
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return seqops.binop(self, type(e.op).__name__, a, b)

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        acc = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            v = seqops.compare(self, type(op).__name__, left, right)
            if len(e.ops) == 1:
                return v
            v = self.truth(v)
            if v is False:
                return False
            if v is not True:
                acc.append(v)
            left = right
        return And(*acc) if acc else True

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            f = self.lookup(env, "$func") if False else None
            return self.make_super(env)
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super":
            fobj, selfv = self.super_target(env)
            a = None
            for c in fobj.cls.mro()[1:]:
                if e.func.attr in c.attrs:
                    a = c.attrs[e.func.attr]
                    break
            if a is None:
                if e.func.attr == "__init__":
                    return None
                raise Unsupported("super().%s" % e.func.attr)
            f = Bound(a, selfv)
        else:
            f = self.eval(e.func, env)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, env)
                if isinstance(v, Term) and v.sort.cls is not None and getattr(v.sort.cls.seal, "star", False):
                    args.append(StarArg(v))
                    continue
                s = self.seq(v)
                if s.items is None:
                    args.append(StarArg(s))
                else:
                    args.extend(s.items)
            else:
                args.append(self.eval(x, env))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if isinstance(d, Term):
                    kwargs["**"] = d
                    continue
                dv = self.heap[d.addr]
                for kk, vv in dv.items.values():
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kwargs)

    def super_target(self, env):
        ee = env
        while ee is not None:
            d = self.heap[ee.addr]
            if "$func" in d:
                f = d["$func"]
                return f, d[f.node.args.args[0].arg]
            ee = d["$parent"]
        raise Unsupported("super")

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def e_Subscript(self, e, env):
        v = self.eval(e.value, env)
        if isinstance(e.slice, ast.Slice):
            s = e.slice
            lo = None if s.lower is None else self.eval(s.lower, env)
            hi = None if s.upper is None else self.eval(s.upper, env)
            st = None if s.step is None else self.eval(s.step, env)
            return seqops.slice_value(self, v, lo, hi, st)
        i = self.eval(e.slice, env)
        return seqops.index_value(self, v, i)

    def e_Slice(self, e, env):
        raise Unsupported("slice object")

    def e_ListComp(self, e, env):
        return self.alloc(self.comp(e, env), "list")

    def e_GeneratorExp(self, e, env):
        return self.comp(e, env)

    def e_SetComp(self, e, env):
        return self.alloc(self.comp(e, env), "set")

    def e_DictComp(self, e, env):
        return seqops.dict_comp(self, e, env)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.setname(env, e.target.id, v)
        return v

    def e_Yield(self, e, env):
        v = self.eval(e.value, env)
        ee = env
        while True:
            d = self.heap[ee.addr]
            if "$yield" in d:
                break
            ee = d["$parent"]
        seqops.list_append(self, d["$yield"], v)
        return None

    def e_Starred(self, e, env):
        raise Unsupported("starred")

    def comp(self, e, env):
        """List/generator comprehension -> Seq."""
        cenv = self.new_env(env)
        if len(e.generators) > 1:
            flat = self.comp_flat(e, cenv)
            if flat is not None:
                return flat
            out = self.alloc(Seq([]), "list")
            self.setname(cenv, "$out", out)
            self.comp_nested(e, 0, cenv)
            return self.heap[self.lookup(cenv, "$out").addr]
        g = e.generators[0]
        it = self.seq(self.eval(g.iter, env))
        if it.items is not None:
            out = []
            sym = False
            for x in it.items:
                self.assign(g.target, x, cenv)
                ok = True
                for c in g.ifs:
                    if not self.decide(self.eval_cond(c, cenv)):
                        ok = False
                        break
                if ok:
                    out.append(self.freeze_in(self.eval(e.elt, cenv)))
            return Seq(out)
        if g.ifs:
            raise Unsupported("filtered comprehension over a symbolic sequence")
        return self.map_seq(it, lambda x: (self.assign(g.target, x, cenv), self.freeze_in(self.eval(e.elt, cenv)))[1])

    def comp_flat(self, e, env):
        """[f(x, y) for x in symbolic sequence for y in fixed-length tuple] as one sequence."""
        g, h = e.generators[0], e.generators[1]
        if len(e.generators) != 2 or g.ifs or h.ifs:
            return None
        s0 = self.snapshot()
        it = self.seq(self.eval(g.iter, env))
        if it.items is not None:
            self.restore(s0)
            return None

        def row(x):
            self.assign(g.target, x, env)
            inner = self.seq(self.eval(h.iter, env))
            if inner.items is None:
                raise Unsupported("nested comprehension over symbolic sequences")
            out = []
            for y in inner.items:
                self.assign(h.target, y, env)
                out.append(self.freeze_in(self.eval(e.elt, env)))
            return tuple(out)
        rows = self.map_seq(it, row)
        m = len(rows.get(var("i?w", INT)))
        if m == 0:
            return Seq([])
        if m == 1:
            return Seq(None, rows.n, lambda i: rows.get(i)[0], rows.kind[1][0] if rows.kind else None)

        def get(i):
            r = rows.get(fdiv(T(i), m))
            v = r[m - 1]
            for j in range(m - 2, -1, -1):
                v = merge(eq(fmod(T(i), m), j), r[j], v)
            return v
        return Seq(None, mul(m, T(rows.n)), get, kind_of(get(var("i?w", INT))))

    def comp_nested(self, e, j, env):
        g = e.generators[j]
        it = self.seq(self.eval(g.iter, env))
        if it.items is None:
            raise Unsupported("nested comprehension over symbolic sequences")
        for x in it.items:
            self.assign(g.target, x, env)
            if all(self.decide(self.eval_cond(c, env)) for c in g.ifs):
                if j + 1 < len(e.generators):
                    self.comp_nested(e, j + 1, env)
                else:
                    seqops.list_append(self, self.lookup(env, "$out"), self.eval(e.elt, env))

    def map_seq(self, it, f, counted=True):
        """Seq of f(it[k]) for a symbolic sequence; f is evaluated once at a generic k."""
        n = T(it.n)
        s0 = self.snapshot()
        kname = self.newname("k")
        k = var(kname, INT)
        nf = len(self.facts)
        self.skolem.append(k)
        self.nofork += 1
        try:
            self.add_fact("idx", le(0, k))
            self.add_fact("idx", lt(k, n))
            v = f(it.get(k))
            new = self.pop_facts(nf)
        finally:
            self.nofork -= 1
            self.skolem.pop()
        self.check_no_writes(s0)
        rng = And(le(0, k), lt(k, n))
        for nm, t in new:
            if t.key in (le(0, k).key, lt(k, n).key):
                continue
            if kname in freevars(t):
                self.add_fact(nm, Forall(lambda i, t=t: subst(Imp(rng, t), {kname: i}), name="k"))
            else:
                self.add_fact(nm, Imp(lt(0, n), t))
        return Seq(None, it.n, self.subst_getter(v, kname), kind_of(v))

    def subst_getter(self, v, kname):
        def get(i):
            return subst_value(v, {kname: T(i)})
        return get

    def check_no_writes(self, s0):
        h0 = s0[0]
        for a, c0 in h0.items():
            c1 = self.heap.get(a)
            if isinstance(c0, dict):
                if a == "$shared":
                    continue
                for k in c0:
                    if k.startswith("$"):
                        continue
                    if k not in c1 or not (c1[k] is c0[k] or same_value(c1[k], c0[k])):
                        if "$parent" in c0:
                            # comprehension-local names live in frames allocated before; allow rebinding of targets
                            if c1.get(k) is not None and k in getattr(self, "_comp_targets", ()):
                                continue
                        raise NeedFork("write inside a summarised body: %s" % k)
            elif c1 is not c0:
                raise NeedFork("write inside a summarised body")

    # ------------------------------------------------------------ statements --
    def exec_block(self, body, env):
        for i, s in enumerate(body):
            if self.nofork and isinstance(s, ast.If) and not (self.probe is not None and self.depth == self.probe_depth):
                rest = list(s.orelse) + list(body[i + 1:])
                if returns(s.body) and returns(rest):
                    c = self.eval_cond(s.test, env)
                    if isinstance(c, bool) or self.known(c) or self.known(Not(c)):
                        self.exec_block(s.body if c is True or c is not False and self.known(c) else rest, env)
                    else:
                        raise _Return(self.speculate(c, lambda: self.returned(s.body, env), lambda: self.returned(rest, env)))
                    return
            self.exec(s, env)

    def returned(self, body, env):
        try:
            self.exec_block(body, env)
        except _Return as r:
            return r.v
        return None

    def exec(self, s, env):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s at line %s" % (type(s).__name__, s.lineno))
        m(s, env)

    def s_Pass(self, s, env):
        pass

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, env)

    def s_FunctionDef(self, s, env):
        q = "?"
        ee = env
        while ee is not None:
            d = self.heap[ee.addr]
            if "$func" in d:
                q = d["$func"].qual
                mod = d["$func"].module
                break
            if "$module" in d:
                mod = d["$module"]
                q = mod + ":"
                break
            ee = d["$parent"]
        self.exec_def(s, env, mod, q + ".")

    def s_ClassDef(self, s, env):
        self.s_FunctionDef(s, env)

    def s_Import(self, s, env):
        for a in s.names:
            self.setname(env, a.asname or a.name.split(".")[0], ModuleVal(a.name if a.asname else a.name.split(".")[0]))

    def s_ImportFrom(self, s, env):
        for a in s.names:
            if self.w.src.module(s.module) is not None:
                v = self.module_name(s.module, a.name)
            else:
                v = self.external(s.module, a.name)
            self.setname(env, a.asname or a.name, v)

    def s_Return(self, s, env):
        v = None if s.value is None else self.eval(s.value, env)
        raise _Return(v)

    def s_Break(self, s, env):
        raise _Break()

    def s_Continue(self, s, env):
        raise _Continue()

    def s_Nonlocal(self, s, env):
        d = self.heap[env.addr]
        d["$nonlocal"] = tuple(d.get("$nonlocal", ())) + tuple(s.names)

    def s_Global(self, s, env):
        raise Unsupported("global statement")

    def s_Delete(self, s, env):
        raise Unsupported("del statement")

    def s_Assert(self, s, env):
        c = self.eval_cond(s.test, env)
        if c is True:
            return
        mode = getattr(self.root, "asserts", "oblige") if self.root else "oblige"
        if mode == "raise":
            if not self.decide(c):
                raise PyRaise("AssertionError", None, self.where)
            return
        if c is False:
            c = FALSE
        self.oblige("assert", c)
        self.add_fact("assert", c)

    def s_Raise(self, s, env):
        if s.exc is None:
            raise PyRaise(getattr(self, "cur_exc", "Exception"), None, self.where)
        v = self.eval(s.exc, env)
        if isinstance(v, ExcClass):
            raise PyRaise(v.name, None, self.where)
        if isinstance(v, ExcVal):
            raise PyRaise(v.name, v.args, self.where)
        if v is NOTIMPL:
            raise PyRaise("TypeError", None, self.where)
        raise Unsupported("raise %r" % (v,))

    def s_Try(self, s, env):
        if s.finalbody:
            raise Unsupported("finally")
        self.in_try += 1
        try:
            try:
                self.exec_block(s.body, env)
            finally:
                self.in_try -= 1
        except PyRaise as e:
            for h in s.handlers:
                names = []
                if h.type is None:
                    names = ["BaseException"]
                else:
                    hv = self.eval(h.type, env)
                    names = [x.name for x in (hv if isinstance(hv, tuple) else (hv,))]
                if any(exc_is(e.exc, n) for n in names):
                    if h.name:
                        self.setname(env, h.name, Opaque("exception"))
                    old = getattr(self, "cur_exc", None)
                    self.cur_exc = e.exc
                    self.exec_block(h.body, env)
                    self.cur_exc = old
                    return
            raise
        self.exec_block(s.orelse, env)

    def s_With(self, s, env):
        raise Unsupported("with statement")

    def s_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.setname(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported("starred assignment")
            sq = self.seq(v)
            if sq.items is None:
                self.safe("unpack", eq(T(sq.n), n))
                items = [sq.get(i) for i in range(n)]
            else:
                items = sq.items
                if len(items) != n:
                    raise PyRaise("ValueError", None, self.where)
            for x, y in zip(t.elts, items):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice):
                raise Unsupported("slice assignment")
            seqops.set_item(self, self.eval(t.value, env), self.eval(t.slice, env), v)
        else:
            raise Unsupported("assignment target")

    def s_AugAssign(self, s, env):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            a = self.lookup(env, t.id)
            b = self.eval(s.value, env)
            self.setname(env, t.id, seqops.inplace(self, op, a, b))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            a = self.getattr(o, t.attr)
            b = self.eval(s.value, env)
            self.setattr(o, t.attr, seqops.inplace(self, op, a, b))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            i = self.eval(t.slice, env)
            a = seqops.index_value(self, o, i)
            b = self.eval(s.value, env)
            seqops.set_item(self, o, i, seqops.inplace(self, op, a, b))

    def s_If(self, s, env):
        c = self.eval_cond(s.test, env)
        if isinstance(c, bool):
            self.exec_block(s.body if c else s.orelse, env)
            return
        if self.known(c):
            self.leaving(s.body)
            return self.exec_block(s.body, env)
        if self.known(Not(c)):
            self.leaving(s.orelse)
            return self.exec_block(s.orelse, env)
        if self.probe is not None and self.nofork == self.probe_level:
            # inside a loop body being summarised: a branch that leaves the loop
            for br, other, cc in ((s.body, s.orelse, c), (s.orelse, s.body, Not(c))):
                if br and (isinstance(br[-1], ast.Raise) or isinstance(br[-1], (ast.Return, ast.Break)) and self.depth == self.probe_depth):
                    self.probe.append(cc)
                    self.add_fact("stay", Not(cc))
                    return self.exec_block(other, env)
        if not (abrupt_anywhere(s.body) or abrupt_anywhere(s.orelse)) and (self.nofork or not getattr(self.root, "fork_ifs", False)):
            sn = self.snapshot()
            try:
                self.speculate(c, lambda: self.exec_block(s.body, env), lambda: self.exec_block(s.orelse, env))
                return
            except NeedFork:
                self.restore(sn)
                if self.nofork:
                    raise
        br = s.body if self.decide(c) else s.orelse
        self.leaving(br)
        self.exec_block(br, env)

    exit_watch = None

    def leaving(self, br):
        """Note a branch that a summarised loop took for one of its exits."""
        if self.exit_watch is not None and br and (isinstance(br[-1], ast.Raise) or isinstance(br[-1], (ast.Return, ast.Break)) and self.depth == self.exit_watch[0]):
            self.exit_watch[1].append(br[-1])

    def s_For(self, s, env):
        from . import loops
        loops.exec_for(self, s, env)

    def s_While(self, s, env):
        from . import loops
        loops.exec_while(self, s, env)


def flat_top(body):
    for s in body:
        if isinstance(s, ast.Try):
            for t in s.body:
                yield t
        elif isinstance(s, ast.If):
            continue
        else:
            yield s


def fix_env(v, cenv, env):
    if isinstance(v, Func) and v.env == cenv:
        v.env = env


def returns(body):
    """Straight-line code that ends with the only return in it."""
    if not body:
        return False
    last = body[-1]
    if isinstance(last, ast.If):
        return returns(last.body) and returns(last.orelse) and not abrupt_anywhere(body[:-1])
    if isinstance(last, ast.Return):
        return all(not abrupt_anywhere([s]) or isinstance(s, ast.If) and returns(s.body) and not abrupt_anywhere(s.orelse) for s in body[:-1])
    return False


def abrupt_anywhere(body):
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
                return True
    return False


def subst_value(v, m):
    if isinstance(v, Term):
        return subst(v, m)
    if isinstance(v, Mix):
        return Mix(subst(v.term, m))
    if isinstance(v, tuple):
        return tuple(subst_value(x, m) for x in v)
    if isinstance(v, Seq):
        if v.items is not None:
            return Seq([subst_value(x, m) for x in v.items])
        return Seq(None, subst(T(v.n), m), lambda i, v=v: subst_value(v.get(i), m) if not mentions_idx(i, m) else subst_value_fresh(v, i, m), v.kind)
    if isinstance(v, seqops.DigitCh):
        return seqops.DigitCh(subst(v.term, m))
    if isinstance(v, seqops.BinV):
        return seqops.BinV(subst_value(v.digits, m))
    if isinstance(v, seqops.StrV):
        return seqops.StrV(subst_value(v.seq, m))
    if isinstance(v, FloatDiv):
        return FloatDiv(subst_value(v.a, m), subst_value(v.b, m))
    if isinstance(v, seqops.TypedOpaque) and v.data is not None or isinstance(v, (SymFunc, SymDict)):
        raise Unsupported("a comprehension of %s" % type(v).__name__)
    return v


def mentions_idx(i, m):
    return any(n in freevars(T(i)) for n in m)


def subst_value_fresh(v, i, m):
    """v[m](i) where i itself mentions a substituted name: go through a fresh index."""
    z = var("i?z", INT)
    e = subst_value(v.get(z), m)
    return subst_value(e, {"i?z": T(i)})


def simp_bool(t):
    if t.op == "true":
        return True
    if t.op == "false":
        return False
    return t
