"""DESIGN.md's tables, from /tmp/pv.PID.json (pvall.sh on the clean tree), tools/catch.json and tools/quiet.json."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(f"{H}/DESIGN.md").read()


def put(tag, lines):
    global s
    s = re.sub(f"<!-- {tag} -->.*?<!-- /{tag} -->", lambda m: f"<!-- {tag} -->\n" + "\n".join(lines) + f"\n<!-- /{tag} -->", s, flags=re.S)


rows = ["| id | obligations | discharged | functions of /repo executed | solver queries | wall time (6 processes) |", "|---|---|---|---|---|---|"]
for l in open(f"{H}/properties.jsonl"):
    pid = json.loads(l)["id"]
    try:
        d = json.load(open(f"/tmp/pv.{pid}.json"))
    except OSError:
        continue
    o = d["obligations"]
    rows.append(f"| {pid} | {len(o)} | {sum(x['status'] == 'discharged' for x in o)} | {len(d['functions'])} | {d.get('queries', 0):.0f} | {d.get('wall_s', 0):.0f} s |")
put("STATUS", rows)
rows = ["| planted bug | what it breaks | caught by check | failing input found | obligations refuted |", "|---|---|---|---|---|"]
for n, v in json.load(open(f"{H}/tools/catch.json")).items():
    m = json.load(open(f"{H}/seeded/{n}/meta.json"))
    rows.append(f"| {n} | {' '.join(m['what_it_breaks'].split())[:140]} | {'missed' if v['how'] == 'MISSED' else v['property']} | {'yes' if v['how'] == 'input' else 'no'} | {', '.join(v['refuted']) or '-'} |")
put("CATCH", rows)
rows = ["| edit | check | exit | obligations discharged |", "|---|---|---|---|"]
for k, v in json.load(open(f"{H}/tools/quiet.json")).items():
    n, pid = k.split()
    rows.append(f"| {n} | {pid} | {v['exit']} | {v['proof']} |")
put("QUIET", rows)
open(f"{H}/DESIGN.md", "w").write(s)
