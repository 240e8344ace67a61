"""Executes the contracts on the real code and searches for a failing input."""
import json
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def search(prop, seed, tier, budget, need=False):
    mod = prop.replay or prop.id.lower()
    path = os.path.join(HERE, "oracle", mod + ".py")
    out = dict(failures=[], runs=0, distinct=0, notes=[])
    if not os.path.exists(path):
        out["notes"].append("no executable contract")
        return out
    work = tempfile.mkdtemp(prefix="pv-replay-")
    try:
        env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "TMPDIR")}
        env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PV_REPO=os.environ.get("PV_REPO", "/repo"))
        res = os.path.join(work, "out.jsonl")
        try:
            r = subprocess.run([PY, "-B", os.path.join(HERE, "oracle", "run.py"), mod, str(seed), tier, str(budget), "1" if need else "0", res],
                               cwd=work, env=env, capture_output=True, text=True, timeout=budget * 2 + 120)
            tail = (r.stdout[-300:] + r.stderr[-1500:]).strip()
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc, tail = "timeout", ""
        done = False
        if os.path.exists(res):
            with open(res) as f:
                for ln in f:
                    try:
                        m = json.loads(ln)
                    except ValueError:
                        continue
                    if m["t"] == "fail":
                        out["failures"].append(m)
                    elif m["t"] == "end":
                        done = True
                        out["runs"], out["distinct"] = m["runs"], m["distinct"]
                        out["notes"] += m["notes"]
                    elif m["t"] == "at":
                        last = m
        if not done:
            what = "the real code stopped the interpreter or never returned (%s); last case: %s\n%s" % (rc, locals().get("last", {}).get("what", "start"), tail[-600:])
            out["failures"].append(dict(key="crash:" + str(locals().get("last", {}).get("key", "start")), what=what))
        return out
    finally:
        shutil.rmtree(work, ignore_errors=True)
