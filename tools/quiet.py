"""python3 tools/quiet.py [NAME...]: behaviour-preserving edits (tools/quiet_edits.py) must leave the checks quiet.
Applies each to a scratch copy of /repo, confirms the stable tests, runs the named checks on it with --repo."""
import concurrent.futures as cf, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ns = {}
exec(open(f"{H}/tools/quiet_edits.py").read(), ns)


def go(name):
    checks, edits = ns["EDITS"][name]
    tmp = tempfile.mkdtemp(prefix="quiet_")
    out = []
    try:
        w = f"{tmp}/repo"
        shutil.copytree("/repo", w, symlinks=True)
        for f, old, new in edits:
            s = open(f"{w}/{f}").read()
            if s.count(old) != 1:
                return f"{name}: {f}: {s.count(old)} matches for {old[:50]!r}"
            open(f"{w}/{f}", "w").write(s.replace(old, new))
        t = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "dustgoggles"], cwd=w, capture_output=True, text=True,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=w))
        if " passed" not in t.stdout or "failed" in t.stdout:
            return f"{name}: TESTS {t.stdout[-500:]}"
        for pid in checks:
            r = subprocess.run(["python3", f"{H}/check.py", pid, "--tier", "quick", "--repo", w], cwd=H, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", CHECK_EVIDENCE_DIR=tmp + "/ev"))
            line = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            try:
                import json
                ev = json.load(open(f"{tmp}/ev/{pid}.json"))["coverage"]
                kinds = sorted({k for o in ev.get("obligation_list", []) if o["status"] != "discharged" for k in o.get("kinds") or ["aborted"]})
                pr = f"{ev.get('discharged')}/{ev.get('obligations')}"
            except Exception as ex:
                pr, kinds = repr(ex), []
            STORE[f"{name} {pid}"] = {"exit": r.returncode, "proof": pr, "kinds": kinds, "violation": bool(line)}
            out.append(f"{name} {pid}: exit {r.returncode} proof {pr} {kinds or ''} {line or ''}")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return "\n".join(out)


import json
store = f"{H}/tools/quiet.json"
try:
    STORE = json.load(open(store))
except OSError:
    STORE = {}
names = sys.argv[1:] or list(ns["EDITS"])
with cf.ThreadPoolExecutor(2) as ex:
    for r in ex.map(go, names):
        print(r, flush=True)
STORE = {k: v for k, v in sorted(STORE.items()) if k.split()[0] in ns["EDITS"]}
json.dump(STORE, open(store, "w"), indent=1)
