"""python3 -m pv.check Cxx [--dump]: decide one property."""
import importlib
import json
import os
import sys
import time
import warnings
import traceback
from . import leanrun
from .contract import verify
from .exec import World
from .front import Source

HERE = leanrun.HERE


class Property:
    """id, contracts (classes), lib (Lean modules), theorems (library theorems the
    statement rests on), ctx (Lean binders), replay (callable or None)."""
    id = None
    contracts = ()
    uses = ()              # contracts of other properties, relied on at calls
    lib = ("Pv.Basic",)
    theorems = ()
    ctx = ""
    assumptions = ()
    replay = None          # module name in pv.replay
    bounded = ()           # functions only explored by execution
    heartbeats = 400000


def load(pid):
    return importlib.import_module("pv.props.%s" % pid.lower()).PROPERTY


def build_vcs(prop, outs):
    vcs, errors = [], []
    n = 0
    for o in outs:
        c = o.contract
        owner = c.qual.split(":")[-1] + ("" if o.inst in (None, "") else "[%s]" % o.inst)
        for e in o.errors:
            errors.append((owner, e))
        for ob in o.obls:
            n += 1
            hyps = leanrun.relevant(ob.hyps, ob.goal)
            tac = tactic_for(prop, c, ob, o.inst)
            vcs.append(leanrun.VC("vc%d" % n, ob.name, hyps, ob.goal, (c.lean_ctx or prop.ctx), tac, ob.where, owner))
    return vcs, errors


def tactic_for(prop, c, ob, inst):
    import fnmatch
    hs = []
    for pat, t in c.hints.items():
        ip, op = pat.split("|", 1) if "|" in pat else ("*", pat)
        if fnmatch.fnmatchcase(ob.name, op) and fnmatch.fnmatchcase(str(inst), ip):
            hs.append(t)
    alts = [h[1:] for h in hs if h[0] == "!"] + ["pv_cheap"] + [h for h in hs if h[0] != "!"] + ([] if os.environ.get("PV_NOAUTO") else ["pv_auto"])
    out = "first"
    for a in alts:
        a = a.strip("\n")
        out += "\n  | (" + a.replace("\n", "\n     ") + ")"
    return out


def run_proofs(prop, verbose=False):
    """-> dict(outs, vcs, errors)"""
    world = World(Source())
    if hasattr(prop, "setup"):
        prop.setup(world)
    outs = []
    cs = []
    for C in prop.contracts:
        c = C(world) if isinstance(C, type) else C
        cs.append(c)
    for C in list(prop.uses) + cs:
        c = C(world) if isinstance(C, type) else C
        world.contracts.setdefault(c.qual, []).append(c)
    for c in cs:
        w = world
        if getattr(c, "own_world", None):
            w = World(world.src)
            if hasattr(prop, "setup"):
                prop.setup(w)
            c.own_world(w)
        outs += verify(w, c)
    vcs, errors = build_vcs(prop, outs)
    leanrun.build_libs(list(prop.lib))
    leanrun.prove(vcs, list(prop.lib), heartbeats=prop.heartbeats)
    return dict(outs=outs, vcs=vcs, errors=errors)


warnings.simplefilter("ignore")


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    prop = load(pid)
    res = dict(outs=[], vcs=[], errors=[])
    libbad = []
    try:
        res = run_proofs(prop)
        if prop.theorems:
            libbad = leanrun.print_axioms_ok(list(prop.lib), list(prop.theorems))
    except Exception as e:
        if "--dump" in argv:
            traceback.print_exc()
        res["errors"].append(("machinery", "%s: %s" % (type(e).__name__, e)))
    vcs, errors = res["vcs"], list(res["errors"])
    for b in libbad:
        errors.append(("library", b))
    failed = [v for v in vcs if not v.ok]
    nobl = len(vcs)
    if nobl == 0 and prop.contracts and not errors:
        errors.append(("machinery", "no obligation was generated"))
    t_proof = time.time() - t0
    if "--dump" in argv:
        for v in vcs:
            print("%s %-40s %-30s %.1fs" % ("ok  " if v.ok else "FAIL", v.owner, v.label, v.time))
            if not v.ok:
                print(v.text())
                print(v.msg[:1500])
        for e in errors:
            print("ERROR", e)
    proved = not failed and not errors
    # ---- executable contracts on the real code: counterexample search --------
    from . import replay
    if "--noreplay" in argv:
        print("proved" if proved else "NOT proved", nobl, "obligations", "%.1fs" % t_proof)
        return 0 if proved else 1
    budget = prop_budget(prop, tier, proved)
    rep = replay.search(prop, seed, tier, budget, need=not proved)
    known = known_findings(pid)
    viol = []
    for f in rep["failures"]:
        k = [x for x in known if x["match"] in f["key"]]
        if k:
            continue
        viol.append(f)
    for x in known:
        hit = [f for f in rep["failures"] if x["match"] in f["key"]]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, x["what"]))
    rc = 0
    violations = []
    if viol:
        f = viol[0]
        path = save_replay(pid, dict(kind="input", failure=f, obligations=[dict(owner=v.owner, label=v.label) for v in failed][:20], errors=errors[:20]))
        print("property %s: %s" % (pid, f["what"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        violations.append(f["what"][:300])
        rc = 1
    elif not proved:
        path = save_replay(pid, dict(kind="proof", errors=[list(e) for e in errors],
                                     obligations=[dict(owner=v.owner, label=v.label, where=v.where, statement=v.text(), lean=v.msg) for v in failed]))
        for v in failed[:5]:
            print("undischarged obligation: %s %s" % (v.owner, v.label))
        for e in errors[:5]:
            print("undischarged obligation: %s %s" % e)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        violations.append("undischarged: " + "; ".join(["%s %s" % (v.owner, v.label) for v in failed[:5]] + ["%s %s" % e for e in errors[:5]])[:600])
        rc = 1
    write_evidence(prop, tier, seed, res, failed, errors, rep, t_proof, time.time() - t0, violations)
    if rc == 0:
        print("property %s holds: %d obligations discharged by Lean in %.1f s; %d executions of the real code agreed" % (pid, nobl, t_proof, rep["runs"]))
    return rc


def prop_budget(prop, tier, proved):
    b = 8 if tier == "quick" else 120
    if not proved:
        b = max(b, 60)
    return b * getattr(prop, "budget_scale", 1)


def known_findings(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [x for x in json.load(f)["known"] if x.get("property") == pid]


def save_replay(pid, data):
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.replay.json" % pid)
    data["property"] = pid
    with open(path, "w") as f:
        json.dump(data, f, indent=1, default=str)
    return path


def write_evidence(prop, tier, seed, res, failed, errors, rep, t_proof, wall, violations):
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    funcs, inst = {}, {}
    for o in res["outs"]:
        funcs.setdefault(o.contract.qual, dict(instances=[], obligations=0, paths=0))
        funcs[o.contract.qual]["instances"].append(str(o.inst))
        funcs[o.contract.qual]["obligations"] += len(o.obls)
        funcs[o.contract.qual]["paths"] += o.paths
    touched = sorted(set().union(*[o.touched for o in res["outs"]])) if res["outs"] else []
    used = sorted(set().union(*[o.used for o in res["outs"]])) if res["outs"] else []
    vcs = res["vcs"]
    ev = dict(property=prop.id, tier=tier, seed=seed, level=getattr(prop, "level", "proof"),
              coverage=dict(
                  obligations=len(vcs) + len(errors), discharged=len([v for v in vcs if v.ok]),
                  checker_cmd="lean --json (Lean 4.33.0 kernel) on generated verification conditions, via python3 -m pv.check %s" % prop.id,
                  trusted_base=["pv: verification-condition generator for Python (this repository's /verif/pv)", "Lean 4 kernel and Mathlib", "axioms propext, Classical.choice, Quot.sound"],
                  backend="Lean 4", solver_seconds=round(sum(v.time for v in vcs), 1),
                  functions_under_contract=funcs, bodies_executed=touched[:120], contracts_assumed_at_calls=used[:120],
                  undischarged=[dict(owner=v.owner, label=v.label) for v in failed][:40] + [dict(owner=a, label=b[:300]) for a, b in errors][:20],
                  library_modules=list(prop.lib), library_theorems=list(prop.theorems),
                  bounded=list(prop.bounded),
                  concrete_runs=rep["runs"], concrete_distinct=rep.get("distinct", rep["runs"]), concrete_notes=rep.get("notes", [])[:20],
                  proof_wall_s=round(t_proof, 1)),
              assumptions=list(prop.assumptions), wall_s=round(wall, 2), violations=len(violations))
    if violations:
        ev["coverage"]["violation_texts"] = violations[:10]
    path = os.path.join(d, "%s.json" % prop.id)
    s = json.dumps(ev, indent=1, default=str)
    if len(s) > 60000:
        ev["coverage"]["bodies_executed"] = ev["coverage"]["bodies_executed"][:20]
        s = json.dumps(ev, indent=None, default=str)[:64000]
    with open(path, "w") as f:
        f.write(s)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
