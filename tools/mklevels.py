"""tools/levels.json from the last prover runs (/tmp/pv.PID.json): a property whose obligations were all discharged is claimed
at level proof, with those obligations as its theorems; anything else stays exploration."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = json.load(open(os.path.join(H, "tools", "levels.json")))
for f in sorted(glob.glob(os.path.join(H, "pydv/specs/[A-Z]*.py"))):
    pid = os.path.basename(f)[:-3]
    try:
        r = json.load(open(f"/tmp/pv.{pid}.json"))
    except OSError:
        continue
    obs = r["obligations"]
    if obs and all(o["status"] == "discharged" for o in obs):
        e = out.setdefault(pid, {})
        e["level"] = "proof"
        e.setdefault("technique", "contract-based deductive verification (pydv + z3): every obligation generated from the current source and discharged")
        e["theorems"] = list(dict.fromkeys(o["name"] for o in obs))
    else:
        out.pop(pid, None)
        print("not all discharged:", pid)
json.dump(out, open(os.path.join(H, "tools", "levels.json"), "w"), indent=0)

# baseline.json: the obligations discharged on /repo's tree, for check.py
import sys
sys.path.insert(0, H)
import check
src = check.source_of("/repo")
base = {pid: {"source": src, "obligations": sorted(e["theorems"])} for pid, e in sorted(out.items()) if e.get("theorems")}
json.dump(base, open(os.path.join(H, "baseline.json"), "w"), indent=0, sort_keys=True)
