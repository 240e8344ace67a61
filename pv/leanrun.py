"""Runs Lean on libraries and on generated verification conditions."""
import fcntl
import fnmatch
import hashlib
import json
import os
import re
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor
from .terms import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIBDIR = os.path.join(HERE, "lean")
BUILD = os.environ.get("PV_BUILD", os.path.join(HERE, "build"))
JOBS = int(os.environ.get("PV_JOBS", "8"))
FORBID = re.compile(r"\b(sorry|admit|native_decide|axiom|unsafe|implemented_by|extern|opaque|ofReduceBool|skipKernelTC|debug\.)\b")


class LeanError(Exception):
    pass


def lib_source(mod):
    return os.path.join(LIBDIR, *mod.split(".")) + ".lean"


def strip_comments(s):
    s = re.sub(r"/-.*?-/", "", s, flags=re.S)
    return re.sub(r"--.*", "", s)


def lib_deps(mod):
    with open(lib_source(mod)) as f:
        t = f.read()
    return re.findall(r"^import (Pv\.[\w.]+)", t, re.M)


def lib_hash(mod, memo={}):
    if mod not in memo:
        h = hashlib.sha256()
        with open(lib_source(mod), "rb") as f:
            h.update(f.read())
        for d in lib_deps(mod):
            h.update(lib_hash(d).encode())
        memo[mod] = h.hexdigest()[:20]
    return memo[mod]


def olean(mod):
    return os.path.join(BUILD, "lean", *mod.split(".")) + ".olean"


def env():
    e = dict(os.environ)
    e["LEAN_PATH"] = os.path.join(BUILD, "lean") + (":" + e["LEAN_PATH"] if e.get("LEAN_PATH") else "")
    return e


def closure(mods):
    out = []

    def go(m):
        if m in out:
            return
        for d in lib_deps(m):
            go(d)
        out.append(m)
    for m in mods:
        go(m)
    return out


def build_libs(mods):
    """Compile the needed library modules (in parallel where possible); dict mod -> theorem count."""
    os.makedirs(os.path.join(BUILD, "lean"), exist_ok=True)
    order = closure(mods)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        done = {}
        pool = ThreadPoolExecutor(JOBS)
        futs = {}

        def one(m):
            for d in lib_deps(m):
                futs[d].result()
            src, ole = lib_source(m), olean(m)
            stamp = ole + ".hash"
            with open(src) as f:
                t = f.read()
            bad = FORBID.search(strip_comments(t))
            if bad:
                raise LeanError("forbidden token %s in %s" % (bad.group(0), src))
            if os.path.exists(stamp) and os.path.exists(ole) and open(stamp).read() == lib_hash(m):
                return
            os.makedirs(os.path.dirname(ole), exist_ok=True)
            r = subprocess.run(["lean", "-o", ole, src], env=env(), capture_output=True, text=True, timeout=800)
            if r.returncode != 0 or "error" in r.stdout or "declaration uses" in r.stdout:
                raise LeanError("library %s does not compile:\n%s%s" % (m, r.stdout[:4000], r.stderr[:2000]))
            with open(stamp, "w") as f:
                f.write(lib_hash(m))
        for m in order:
            futs[m] = pool.submit(one, m)
        for m in order:
            futs[m].result()
        pool.shutdown()
    return order


def lib_theorems(mods):
    n = 0
    names = []
    for m in mods:
        with open(lib_source(m)) as f:
            t = strip_comments(f.read())
        names += re.findall(r"^\s*(?:@\[[^\]]*\]\s*)?(?:private |protected )?(?:theorem|lemma) ([\w.'«»]+)", t, re.M)
    return names


class VC:
    """One theorem to be proved."""

    def __init__(self, ident, label, hyps, goal, ctx, tactic, where="", owner=""):
        self.ident, self.label, self.hyps, self.goal, self.ctx, self.tactic, self.where, self.owner = ident, label, hyps, goal, ctx, tactic, where, owner
        self.ok = None
        self.msg = ""
        self.time = 0.0

    def statement(self):
        fv = {}
        for _, h in self.hyps:
            fv.update(freevars(h))
        fv.update(freevars(self.goal))
        seen = {}
        binders = []
        for n, s in fv.items():
            ln = leanname(n)
            if seen.setdefault(ln, n) != n:
                raise LeanError("name clash %s" % ln)
            binders.append("(%s : %s)" % (ln, s.lean))
        used = {}
        for n, h in self.hyps:
            base = re.sub(r"[^A-Za-z0-9]", "_", n) or "h"
            base = "h_" + base
            k = used.get(base, 0)
            used[base] = k + 1
            binders.append("(%s%s : %s)" % (base, "" if k == 0 else "_%d" % k, lean(h)))
        return "%s %s :\n  %s" % (self.ctx, "\n  ".join(binders), lean(self.goal))

    def text(self):
        tac = self.tactic
        return "theorem %s %s := by\n  %s\n" % (self.ident, self.statement(), tac.replace("\n", "\n  "))

    def key(self):
        return hashlib.sha256((self.statement() + self.tactic).encode()).hexdigest()


def relevant(hyps, goal):
    """Hypotheses connected to the goal (sound weakening)."""
    gv = set(freevars(goal))
    if not gv:
        return list(hyps)
    rest = list(hyps)
    keep = set()
    changed = True
    while changed:
        changed = False
        for i, (n, h) in enumerate(rest):
            if i in keep:
                continue
            fv = set(freevars(h))
            if not fv or fv & gv:
                keep.add(i)
                if not fv <= gv:
                    gv |= fv
                    changed = True
    return [rest[i] for i in sorted(keep)]


HEAD = """%s
set_option linter.all false
set_option maxHeartbeats %d
set_option autoImplicit false
open Finset Polynomial
open Classical
noncomputable section
"""


def prove(vcs, imports, heartbeats=400000, timeout=420, jobs=None, extra=""):
    """Prove every VC; fills vc.ok / vc.msg / vc.time."""
    jobs = jobs or JOBS
    work = os.path.join(BUILD, "vc-%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    cache = os.environ.get("PV_CACHE")
    todo = []
    libkey = hashlib.sha256("".join(lib_hash(m) for m in closure([i for i in imports if i.startswith("Pv.")])).encode()).hexdigest()[:16]
    for v in vcs:
        if cache and os.path.exists(os.path.join(cache, libkey + v.key())):
            v.ok, v.msg = True, "cached"
        else:
            todo.append(v)
    if not todo:
        return
    nch = min(jobs, max(1, (len(todo) + 3) // 4))
    chunks = [todo[i::nch] for i in range(nch)]

    def run(ci):
        chunk = chunks[ci]
        path = os.path.join(work, "c%d.lean" % ci)
        lines = (HEAD % ("\n".join("import " + i for i in imports), heartbeats) + extra).split("\n")
        spans = []
        for v in chunk:
            start = len(lines) + 1
            lines += v.text().rstrip("\n").split("\n")
            lines.append("#print axioms %s" % v.ident)
            lines.append("")
            spans.append((start, len(lines), v))
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        t0 = time.time()
        try:
            r = subprocess.run(["lean", "--json", path], env=env(), capture_output=True, text=True, timeout=timeout)
            out = r.stdout
        except subprocess.TimeoutExpired as e:
            out = (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or "")
            r = None
        dt = time.time() - t0
        errs = {}
        ax = {}
        glob = []
        for ln in out.split("\n"):
            if not ln.startswith("{"):
                if ln.strip():
                    glob.append(ln)
                continue
            try:
                m = json.loads(ln)
            except ValueError:      # cut off by the time limit
                glob.append(ln)
                continue
            p = m["pos"]["line"]
            for a, b, v in spans:
                if a <= p <= b:
                    if m["severity"] == "error" or "declaration uses" in m["data"]:
                        errs.setdefault(v.ident, []).append(m["data"])
                    elif "depends on axioms" in m["data"] or "does not depend" in m["data"]:
                        ax[v.ident] = m["data"]
                    break
            else:
                if m["severity"] == "error":
                    glob.append(m["data"])
        for a, b, v in spans:
            v.time = dt / len(chunk)
            if v.ident in errs:
                v.ok, v.msg = False, "\n".join(errs[v.ident])[:3000]
            elif v.ident not in ax:
                v.ok, v.msg = False, "no answer from Lean (time limit or crash)\n" + "\n".join(glob)[:1500] + (r.stderr[:500] if r else "")
            else:
                axs = set(re.findall(r"[\w.]+", ax[v.ident].split("[")[-1])) if "[" in ax[v.ident] else set()
                if axs - {"propext", "Classical.choice", "choice", "Quot.sound"}:
                    v.ok, v.msg = False, "unexpected axioms: " + ax[v.ident]
                else:
                    v.ok = True
                    if cache:
                        open(os.path.join(cache, libkey + v.key()), "w").close()
    with ThreadPoolExecutor(nch) as pool:
        list(pool.map(run, range(nch)))
    if not os.environ.get("PV_KEEP"):
        import shutil
        shutil.rmtree(work, ignore_errors=True)


def print_axioms_ok(mods, names):
    """Check the axioms of library theorems a property relies on."""
    work = os.path.join(BUILD, "ax-%d.lean" % os.getpid())
    with open(work, "w") as f:
        f.write("\n".join("import " + m for m in mods) + "\n" + "\n".join("#print axioms %s" % n for n in names) + "\n")
    r = subprocess.run(["lean", work], env=env(), capture_output=True, text=True, timeout=300)
    os.unlink(work)
    bad = []
    res = re.findall(r"'([^']*(?:'[^']*)*?)' (depends on axioms: \[([^\]]*)\]|does not depend on any axioms)", r.stdout)
    got = set()
    for n, _, axs in res:
        got.add(n)
        s = {a.strip() for a in axs.split(",") if a.strip()}
        if s - {"propext", "Classical.choice", "Quot.sound"}:
            bad.append("%s: %s" % (n, axs))
    for n in names:
        if n not in got:
            bad.append("%s: not found" % n)
    return bad
