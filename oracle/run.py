"""run.py MODULE SEED TIER BUDGET NEED OUT: execute one property's contracts on the real code."""
import ast
import glob
import importlib
import importlib.util
import json
import os
import random
import resource
import signal
import sys
import time
import traceback
import types

REPO = os.environ.get("PV_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.setrecursionlimit(3000)


class Timeout(BaseException):
    pass


def _alarm(sig, frame):
    raise Timeout()


class Tester:
    CASE_LIMIT = 40

    def __init__(self, seed, tier, budget, need, out):
        self.seed, self.tier, self.budget, self.need = seed, tier, budget, need
        self.thorough = tier == "thorough" or need
        self.rng = random.Random(seed)
        self.t0 = time.time()
        self.out = open(out, "w", buffering=1)
        self.runs = 0
        self.keys = {}
        self.inputs = set()
        self.notes = []
        self.lastat = 0
        signal.signal(signal.SIGALRM, _alarm)

    def left(self):
        return self.budget - (time.time() - self.t0)

    def emit(self, **kw):
        self.out.write(json.dumps(kw, default=repr) + "\n")

    def note(self, s):
        self.notes.append(s)

    def fail(self, key, what, **extra):
        if key in self.keys:
            return
        self.keys[key] = 1
        self.emit(t="fail", key=key, what=what[:1500], **extra)

    def case(self, key, inp, fn, limit=None):
        """fn() returns None/True when the contract holds, or a message."""
        if len(self.keys) > 40 or self.keys.get(key, 0):
            return
        self.runs += 1
        self.inputs.add(hash((key, str(inp))))
        now = time.time()
        if now - self.lastat > 0.2:
            self.lastat = now
            self.emit(t="at", key=key, what="%s on %s" % (key, str(inp)[:400]))
        signal.alarm(limit or self.CASE_LIMIT)
        try:
            r = fn()
            signal.alarm(0)
        except Timeout:
            signal.alarm(0)
            self.fail(key, "%s: no answer within %d s on input %s" % (key, limit or self.CASE_LIMIT, str(inp)[:700]), input=str(inp)[:3000])
            return
        except RecursionError as e:
            signal.alarm(0)
            self.fail(key, "%s: unbounded recursion on input %s" % (key, str(inp)[:700]), input=str(inp)[:3000])
            return
        except Exception as e:
            signal.alarm(0)
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.fail(key, "%s: unexpected %s: %s (at %s:%d) on input %s" % (key, type(e).__name__, str(e)[:300], os.path.basename(tb.filename), tb.lineno, str(inp)[:700]), input=str(inp)[:3000])
            return
        if r is not None and r is not True:
            self.fail(key, "%s: %s on input %s" % (key, "contract violated" if r is False else r, str(inp)[:700]), input=str(inp)[:3000])

    def raises(self, key, inp, fn, excs):
        """fn must raise one of excs."""
        def g():
            try:
                v = fn()
            except excs:
                return True
            return "no exception (returned %.200r), one of %s was expected" % (v, excs)
        self.case(key, inp, g)

    def rounds(self, frac=1.0, least=1, most=10 ** 9):
        """Iterate while this share of the budget lasts."""
        end = time.time() + max(0.05, self.budget * frac)
        i = 0
        while i < most and (i < least or time.time() < end):
            yield i
            i += 1

    def consts(self, *files):
        """Integer constants in the source (to aim inputs at special cases)."""
        out = set()
        for f in files:
            for p in glob.glob(os.path.join(REPO, f)):
                try:
                    tree = ast.parse(open(p).read())
                except (SyntaxError, OSError):
                    continue
                for n in ast.walk(tree):
                    if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool) and abs(n.value) < 10 ** 40:
                        out.add(n.value)
        return sorted(out)


def load_path(name, rel):
    """Import a file of /repo under a chosen module name."""
    if name in sys.modules:
        return sys.modules[name]
    spec = importlib.util.spec_from_file_location(name, os.path.join(REPO, rel))
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    return m


def main():
    mod, seed, tier, budget, need, out = sys.argv[1:7]
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    t = Tester(int(seed), tier, float(budget), need == "1", out)
    try:
        m = importlib.import_module(mod)
        m.run(t)
    except Timeout:
        t.fail("timeout", "no answer")
    except Exception as e:
        tb = traceback.format_exc()
        t.fail("harness:" + mod, "the real code cannot be driven: %s" % tb[-1200:])
    t.emit(t="end", runs=t.runs, distinct=len(t.inputs), notes=t.notes)


if __name__ == "__main__":
    sys.modules["run"] = sys.modules["__main__"]
    main()
