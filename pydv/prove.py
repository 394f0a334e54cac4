"""python3-vt -B -m pydv.prove PID --repo R --out F [--budget S] [--tier T] [--only NAME] [--trace]"""
import argparse, json, os, sys, time, types, threading, resource


RANK = {"discharged": 0, "undecided": 1, "refuted": 2}


def parallel(a):
    """one process per driver"""
    import ast, subprocess, tempfile
    from concurrent.futures import ThreadPoolExecutor
    here = os.path.dirname(os.path.abspath(__file__))
    tree = ast.parse(open(os.path.join(here, "specs", a.pid + ".py")).read())
    names = [f.name[3:] for f in tree.body if isinstance(f, ast.FunctionDef) and f.name.startswith("ob_")]
    if a.only:
        names = [n for n in names if n in a.only.split(",")]
    t0 = time.time()
    with tempfile.TemporaryDirectory() as tmp:
        def one(n):
            out = os.path.join(tmp, n)
            left = max(5.0, t0 + a.budget - time.time())            # the budget is for all drivers together
            cmd = [sys.executable, "-B", "-m", "pydv.prove", a.pid, "--repo", a.repo, "--out", out, "--budget", str(left), "--tier", a.tier, "--only", n]
            try:
                p = subprocess.run(cmd, cwd=os.path.dirname(here), capture_output=True, text=True, timeout=left + 15)
                r = json.load(open(out))
                for o in r["obligations"]:
                    o["drivers"] = [n]
                return r
            except Exception as ex:
                return {"obligations": [{"name": f"{a.pid}/{n}", "status": "undecided", "detail": f"{type(ex).__name__}: {str(ex)[:300]}", "seconds": 0,
                                         "checks": 0}], "functions": [], "solver_s": 0, "queries": 0, "paths": 0, "assumptions": []}
        with ThreadPoolExecutor(a.jobs) as pool:
            parts = list(pool.map(one, names))
    res = dict(next((p for p in parts if "back_end" in p), parts[0] if parts else {"obligations": []}))
    merged = {}
    for p in parts:
        for o in p["obligations"]:
            m = merged.setdefault(o["name"], dict(o, seconds=0, checks=0, detail="", status="discharged", kinds=[]))
            m["kinds"] = sorted({*m.get("kinds", []), *o.get("kinds", [])})
            m["drivers"] = sorted({*m.get("drivers", []), *o.get("drivers", [])})
            m["seconds"] = round(m["seconds"] + o["seconds"], 3)
            m["checks"] += o.get("checks", 0)
            m["detail"] = (m["detail"] + o["detail"])[:4000]
            m["status"] = max(m["status"], o["status"], key=RANK.get)
    res["obligations"] = list(merged.values())
    res["functions"] = sorted({f for p in parts for f in p["functions"]})
    for k in ("solver_s", "queries", "paths"):
        res[k] = round(sum(p.get(k, 0) for p in parts), 2)
    res["wall_s"] = round(time.time() - t0, 2)
    out = json.dumps(res, indent=1)
    if a.out:
        with open(a.out, "w") as f:
            f.write(out)
    else:
        print(out)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--out")
    ap.add_argument("--budget", type=float, default=300)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--only")
    ap.add_argument("--trace", action="store_true")
    ap.add_argument("--jobs", type=int, default=1)
    a = ap.parse_args()
    if a.jobs > 1 and not a.trace:
        return parallel(a)
    from . import core, engine, models, loader, stubs, api, standins
    import z3
    e = engine.Engine(a.budget)
    e.trace = a.trace
    e.repo = a.repo
    models.install(e)
    t0 = time.time()
    res = {"obligations": [], "functions": [], "back_end": "z3 " + z3.get_version_string(), "solver_s": 0.0, "queries": 0, "vacuity": [],
           "trusted_base": TRUSTED, "assumptions": []}
    here = os.path.dirname(os.path.abspath(__file__))
    try:
        loader.setup(a.repo, stubs.build())
        standins.install()

        def load_spec(name):
            """another contract file's definitions"""
            spec = types.ModuleType("dv_spec_" + name)
            spec.__dict__.update({k: v for k, v in api.__dict__.items() if not k.startswith("__")})
            spec.__dict__["z3"] = z3
            spec.__dict__.update(file_of=standins.file_of, blank=standins.blank, from_json=standins.from_json)
            spec.__dict__["E"] = e
            spec.__dict__["load_spec"] = load_spec
            loader.run_module(spec, os.path.join(here, "specs", name + ".py"))
            return spec
        spec = load_spec(a.pid)
        obs = [(n[3:], f) for n, f in spec.__dict__.items() if n.startswith("ob_")]
        res["assumptions"] = list(spec.__dict__.get("ASSUMES", []))
    except BaseException as ex:
        if a.trace:
            raise
        res["obligations"].append({"name": "load", "status": "undecided", "detail": f"{type(ex).__name__}: {ex}", "seconds": 0})
        obs = []
    for n, f in obs:
        if a.only and n != a.only:
            continue
        t = time.time()
        try:
            e.prove(n, lambda run, f=f: f(), )
        except BaseException as ex:
            if a.trace or isinstance(ex, KeyboardInterrupt):
                raise
            o = e.obl.setdefault(n, engine.Obligation(n))
            o.status, o.detail = "undecided", f"{type(ex).__name__}: {ex}"
        if a.trace:
            print(f"== {n} {time.time() - t:.1f}s")
    for n, o in e.obl.items():
        res["obligations"].append({"name": f"{a.pid}/{n}", "status": o.status, "detail": o.detail[:3000], "kinds": sorted(o.kinds), "seconds": round(o.t, 3), "checks": o.checks})
    rp = os.path.abspath(a.repo)
    res["functions"] = sorted(f"{os.path.relpath(f, rp)}:{q}" for f, q in e.functions if os.path.abspath(f).startswith(rp))
    res["solver_s"], res["queries"], res["wall_s"] = round(e.solver_s, 2), e.queries, round(time.time() - t0, 2)
    res["paths"] = e.paths
    out = json.dumps(res, indent=1)
    if a.out:
        with open(a.out, "w") as f:
            f.write(out)
    if a.trace or not a.out:
        for o in res["obligations"]:
            print(o["status"].upper(), o["name"], f"{o['seconds']}s", o.get("checks"), o["detail"][:1500])
        print(res["functions"], res["queries"], "queries", res["solver_s"], "s", res["wall_s"], "s", e.paths, "paths")


TRUSTED = [
    "the pydv engine (/verif/pydv): instrumentation, path exploration, loop summaries",
    "z3",
    "CPython executes the instrumented text with the meaning of the original text",
]

if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=main)
    t.start()
    t.join()
