"""Run each planted bug's check on a scratch copy.  usage: catch.py [NAME...]"""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(n):
    m = json.load(open(f"{H}/seeded/{n}/meta.json"))
    tmp = tempfile.mkdtemp(prefix="catch_")
    try:
        shutil.copytree("/repo", f"{tmp}/repo", symlinks=True)
        shutil.copytree(H, f"{tmp}/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replay"))
        r = subprocess.run(["git", "apply", f"{H}/seeded/{n}/patch.diff"], cwd=f"{tmp}/repo", capture_output=True, text=True)
        if r.returncode:
            return n, m["property"], "patch does not apply", ""
        r = subprocess.run(["python3", "check.py", m["property"], "--repo", f"{tmp}/repo"], cwd=f"{tmp}/verif", capture_output=True, text=True)
        return n, m["property"], r.returncode, r.stdout
    finally:
        shutil.rmtree(tmp)


names = sys.argv[1:] or sorted(os.listdir(f"{H}/seeded"))
bad = 0
store = f"{H}/tools/catch.json"
try:
    seen = json.load(open(store))
except OSError:
    seen = {}
with cf.ThreadPoolExecutor(3) as ex:
    for n, p, rc, out in ex.map(one, names):
        last = [l for l in out.splitlines() if l.startswith("VIOLATION")]
        how = "MISSED" if rc != 1 else ("obligation only" if last and last[0].endswith("no-failing-input-found") else "input")
        ref = [l.split()[1] for l in out.splitlines() if l.startswith("  failed:")]
        und = [l.split()[1] for l in out.splitlines() if l.startswith("  undecided:")]
        bad += rc != 1
        seen[n] = {"property": p, "how": how, "refuted": sorted(ref)[:4], "undecided": len(und)}
        print(f"{n:32} {p} rc={rc} {how} refuted={ref[:3]} undecided={und[:3]}", flush=True)
seen = {k: v for k, v in sorted(seen.items()) if os.path.isdir(f"{H}/seeded/{k}")}
json.dump(seen, open(store, "w"), indent=1)
print("missed:", bad)
