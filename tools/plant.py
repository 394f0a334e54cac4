"""Build and confirm planted bugs.   usage: plant.py NAME...   (tools/plants/NAME.py -> seeded/NAME/)
A plant file sets: property, needs, what, edits=[(file, old, new)], demo (python text; run with cwd=/repo; exits
nonzero with the change).  Confirmed in a scratch copy: applies, stable tests pass, demo 0 clean / nonzero patched."""
import json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
STABLE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, cwd):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=cwd)
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=300)


def build(name):
    ns = {}
    exec(open(f"{H}/tools/plants/{name}.py").read(), ns)
    tmp = tempfile.mkdtemp(prefix="plant_")
    try:
        w = f"{tmp}/repo"
        shutil.copytree("/repo", w, symlinks=True)
        d = f"{H}/seeded/{name}"
        os.makedirs(d, exist_ok=True)
        open(f"{d}/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\n" + ns["demo"].lstrip())
        open(f"{d}/demo.sh", "w").write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        r0 = sh(["bash", f"{d}/demo.sh"], w)
        if r0.returncode:
            return f"demo fails on clean tree: {r0.stdout[-400:]}{r0.stderr[-800:]}"
        for f, old, new in ns["edits"]:
            p = f"{w}/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                return f"{f}: {s.count(old)} matches"
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], w).stdout
        open(f"{d}/patch.diff", "w").write(diff)
        t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "dustgoggles"], w)
        if " passed" not in t.stdout or "failed" in t.stdout or "error" in t.stdout.lower():
            return "tests: " + t.stdout[-600:]
        r1 = sh(["bash", f"{d}/demo.sh"], w)
        if r1.returncode == 0:
            return "demo passes with the change"
        json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["what"]}, open(f"{d}/meta.json", "w"), indent=1)
        # lines of the original repository?
        base = subprocess.run(["git", "-C", "/repo", "diff", "-U0", "1830847", "HEAD"], capture_output=True, text=True).stdout
        added = {l[1:].strip() for l in base.splitlines() if l.startswith("+") and not l.startswith("+++")}
        mine = [l for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:].strip() in added and l[1:].strip()]
        return "ok" + (f" WARNING changes fix lines {mine}" if mine else "") + "  demo: " + ((r1.stderr + r1.stdout).strip().splitlines() or [""])[-1][:120]
    finally:
        shutil.rmtree(tmp)


for n in sys.argv[1:]:
    r = build(n)
    print(n, r)
    if not r.startswith("ok"):
        shutil.rmtree(f"{H}/seeded/{n}", ignore_errors=True)
