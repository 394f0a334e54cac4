"""MANIFEST.json from properties.jsonl and the spec modules present."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
PROOF_NOTE = ("for all inputs of the modelled kinds: the current source, mechanically instrumented, is executed on symbolic values and every obligation "
              "is discharged by z3. Trusted: the engine pydv, its models of builtins and dependencies (listed in the evidence as trusted_base), z3. "
              "What lies outside the modelled kinds is covered only by the bounded cross-check run with it; see DESIGN.md")
LEVEL = json.load(open(os.path.join(H, "tools", "levels.json")))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
for p in props:
    pid = p["id"]
    if pid in NA:
        continue
    lv = LEVEL.get(pid, {})
    checks.append({"property": pid, "quick_cmd": f"python3 check.py {pid} --tier quick",
                   "thorough_cmd": f"python3 check.py {pid} --tier thorough",
                   "technique": lv.get("technique", "function contract evaluated on generated inputs (bounded stand-in for the deductive check)"),
                   "level": lv.get("level", "exploration"),
                   "level_note": lv.get("note", PROOF_NOTE if lv.get("level") == "proof" else
                                        "bounded: the contract is evaluated on generated inputs against the real code; not proved")})
    if lv.get("theorems"):
        checks[-1]["theorems"] = list(dict.fromkeys(lv["theorems"]))
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "see DESIGN.md; pydv/ is the deductive verifier, xcheck/ the concrete cross-check of the same contracts"}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
