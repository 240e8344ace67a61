"""Reads the real source from /repo: modules, functions, and where names come from."""
import ast
import os

REPO = os.environ.get("PV_REPO", "/repo")


class SourceError(Exception):
    pass


class ContinueElim(ast.NodeTransformer):
    """`if c: A; continue` followed by R  ==>  `if c: A else: R` (inside loops)."""

    def visit_For(self, node):
        self.generic_visit(node)
        node.body = elim(node.body)
        return node

    visit_While = visit_For


def ends_continue(b):
    return b and isinstance(b[-1], ast.Continue)


def elim(body):
    out = []
    for i, s in enumerate(body):
        if isinstance(s, ast.If) and (ends_continue(s.body) or ends_continue(s.orelse)):
            rest = elim(body[i + 1:])
            tb = elim(s.body[:-1]) if ends_continue(s.body) else elim(s.body) + (rest if not abrupt(s.body) else [])
            eb = elim(s.orelse[:-1]) if ends_continue(s.orelse) else elim(s.orelse) + (rest if not abrupt(s.orelse) else [])
            n = ast.If(test=s.test, body=tb or [ast.Pass()], orelse=eb)
            ast.copy_location(n, s)
            ast.fix_missing_locations(n)
            out.append(n)
            return out
        out.append(s)
    if ends_continue(out):
        out = out[:-1] or [ast.Pass()]
    return out


def abrupt(b):
    return b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Break, ast.Continue))


class Source:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}

    def path_of(self, mod):
        cands = [os.path.join(self.repo, *mod.split(".")) + ".py"]
        if mod.startswith("starks."):
            cands.append(os.path.join(self.repo, "misc", *mod.split(".")[1:]) + ".py")
        for c in cands:
            if os.path.exists(c):
                return c
        return None

    def module(self, mod):
        if mod not in self.mods:
            p = self.path_of(mod)
            if p is None:
                return None
            with open(p) as f:
                text = f.read()
            try:
                tree = ast.parse(text)
            except SyntaxError as e:
                raise SourceError("%s: %s" % (p, e))
            tree = ContinueElim().visit(tree)
            ast.fix_missing_locations(tree)
            self.mods[mod] = (tree, p, text)
        return self.mods[mod][0]

    def file(self, mod):
        self.module(mod)
        return self.mods[mod][1]


def assigned_names(nodes):
    """Names (re)bound by the statements, not descending into nested functions."""
    out = []

    def add(n):
        if n not in out:
            out.append(n)

    def target(t):
        if isinstance(t, ast.Name):
            add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e)
        elif isinstance(t, ast.Starred):
            target(t.value)

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass

        visit_GeneratorExp = visit_DictComp = visit_SetComp = visit_ListComp

        def visit_Assign(self, n):
            for t in n.targets:
                target(t)
            self.generic_visit(n)

        def visit_AugAssign(self, n):
            target(n.target)
            self.generic_visit(n)

        def visit_AnnAssign(self, n):
            if n.value is not None:
                target(n.target)
            self.generic_visit(n)

        def visit_For(self, n):
            target(n.target)
            self.generic_visit(n)

        def visit_NamedExpr(self, n):
            target(n.target)
            self.generic_visit(n)

    for n in nodes:
        V().visit(n)
    return out


def has_yield(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            # (nested functions' yields would be misattributed; check ownership)
            return _owns_yield(node)
    return False


def _owns_yield(node):
    found = []

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            pass

        visit_Lambda = visit_FunctionDef

        def visit_Yield(self, n):
            found.append(n)

        visit_YieldFrom = visit_Yield
    for s in node.body:
        V().visit(s)
    return bool(found)
