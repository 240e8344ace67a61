"""Builds seeded/<id>/ from tools/seeds.py and confirms each in a scratch copy:
demo passes unchanged, fails changed, stable tests still pass changed."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from seeds import SEEDS

ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")


def demo(d, wt):
    return subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=wt, env=ENV, capture_output=True, text=True, timeout=300)


def main(only):
    wt = tempfile.mkdtemp(prefix="seedwt-")
    try:
        subprocess.run("git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % (wt, wt), shell=True, check=True)
        base = {k for k in json.load(open("/opt/vp/BASELINE.json"))["stable"]}
        for sid, s in SEEDS.items():
            if only and sid not in only:
                continue
            d = os.path.join(HERE, "seeded", sid)
            os.makedirs(d, exist_ok=True)
            for rel, old, new in s["edits"]:
                p = os.path.join(wt, rel)
                t = open(p).read()
                if t.count(old) != 1:
                    print(sid, "PATCH: %d occurrences of %r in %s" % (t.count(old), old[:60], rel))
                    break
                open(p, "w").write(t.replace(old, new))
            else:
                diff = subprocess.run(["git", "diff"], cwd=wt, capture_output=True, text=True).stdout
                open(os.path.join(d, "patch.diff"), "w").write(diff)
                open(os.path.join(d, "demo.py"), "w").write(s["demo"].strip("\n") + "\n")
                open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$here/demo.py"\n')
                json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
                bad = demo(d, wt)
                out = os.path.join(wt, ".t.json")
                t = subprocess.run(["bash", "-c", "sed 's#/repo#%s#g; s#/opt/vp/reports#%s/.reports#g' /opt/vp/test.sh > %s/.t.sh; bash %s/.t.sh %s" % (wt, wt, wt, wt, out)], env=ENV, capture_output=True, text=True, timeout=900)
                try:
                    res = json.load(open(out))
                    passed = set(res.get("passed", []))
                except Exception as e:
                    passed = set(); print(e, t.stderr[-300:])
                subprocess.run("git checkout -q -- .", cwd=wt, shell=True)
                good = demo(d, wt)
                lost = base - passed
                ok = good.returncode == 0 and bad.returncode not in (0,) and not lost
                print(sid, "ok" if ok else "BAD", "demo unchanged rc %d, changed rc %d (%s), lost %s" % (good.returncode, bad.returncode, (bad.stdout + bad.stderr).strip()[-150:], sorted(lost)[:3]), good.stderr[-200:] if good.returncode else "")
            subprocess.run("git checkout -q -- .", cwd=wt, shell=True)
    finally:
        shutil.rmtree(wt)


main(set(sys.argv[1:]))
