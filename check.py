#!/usr/bin/env python3
"""Decide one property on /repo's current tree.   usage: check.py PID [--tier quick|thorough] [--repo DIR]

1. pydv (deductive): every obligation generated from the current source is sent to the solver.
2. xcheck (bounded): the same contract evaluated on generated inputs against the real code; it supplies the
   failing input for a violation, and stands in (labelled bounded) for what pydv leaves undecided.
exit 1 + VIOLATION line  <=>  a concrete input breaks the contract on the real code, or a named obligation that is
discharged on the unchanged tree (baseline.json) fails with the solver's reason: refuted, a countermodel of the
obligation in the abstraction, or a result of another form than the contract's (no-failing-input-found).  An obligation
left open by a timeout or by a construct the verifier does not accept never raises an alarm.
"""
import argparse, ast, hashlib, json, os, signal, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
VT = "python3-vt"


def known():
    out = {}
    for line in open(os.path.join(HERE, "known_findings.txt")):
        if line.startswith("known: "):
            f = line.split("property=", 1)[1]
            pid, rest = f.split(" ", 1)
            kid = rest.split("id=", 1)[1].split(" ", 1)[0]
            case, what = rest.split("case=", 1)[1].split(") ", 1)
            out.setdefault(pid, []).append((kid, case + ")", what.strip()))
    return out


def start(cmd, log):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1")
    return subprocess.Popen(cmd, cwd=HERE, env=env, stdout=open(log, "w"), stderr=subprocess.STDOUT,
                            start_new_session=True)


def finish(p, deadline):
    try:
        p.wait(max(0.1, deadline - time.time()))
    except subprocess.TimeoutExpired:
        pass
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def source_of(repo):
    """a digest of the code as CPython parses it: comments and layout left out"""
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(os.path.join(repo, "dustgoggles"))):
        for f in sorted(fs):
            if f.endswith(".py") and "tests" not in d.split(os.sep):
                p = os.path.join(d, f)
                try:
                    text = ast.dump(ast.parse(open(p, "rb").read()))
                except (SyntaxError, ValueError):
                    text = "unparsable"
                h.update((os.path.relpath(p, repo) + "\0" + text + "\0").encode())
    return h.hexdigest()


def broken(pr, base):
    """the obligations that hold on the unchanged tree and fail here for a reason the solver gives"""
    out = []
    for o in (pr or {}).get("obligations", []):
        if o["status"] != "discharged" and {"refuted", "sat", "shape"} & set(o.get("kinds") or []) and o["name"] in base.get("obligations", ()):
            out.append(o)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-proof", action="store_true")
    a = ap.parse_args()
    pid, t0 = a.pid, time.time()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    evdir = os.environ.get("CHECK_EVIDENCE_DIR") or os.path.join(HERE, "evidence")   # tools/quiet.py keeps its runs apart
    os.makedirs(evdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    scratch = os.path.join(HERE, "replay", f".{pid}.{os.getpid()}")
    os.makedirs(scratch, exist_ok=True)
    xout, pout = os.path.join(scratch, "x.json"), os.path.join(scratch, "p.json")
    xlog, plog = os.path.join(scratch, "x.log"), os.path.join(scratch, "p.log")
    xbud, pbud = (45, 270) if tier == "quick" else (420, 780)
    x = start([VENV, "-B", "xcheck/run.py", pid, "--repo", a.repo, "--seed", str(seed), "--tier", tier, "--out", xout,
               "--budget", str(xbud), "--mintime", str(12 if tier == "quick" else 300)], xlog)
    proofs = os.path.exists(os.path.join(HERE, "pydv", "specs", pid + ".py")) and not a.no_proof
    p = None
    if proofs:
        p = start([VT, "-B", "-m", "pydv.prove", pid, "--repo", a.repo, "--out", pout, "--budget", str(pbud),
                   "--tier", tier, "--jobs", "6"], plog)
    finish(x, t0 + xbud + 60)
    xr = load(xout)
    if xr is None:      # the harness was killed or died: once more, alone
        x = start([VENV, "-B", "xcheck/run.py", pid, "--repo", a.repo, "--seed", str(seed), "--tier", tier, "--out", xout,
                   "--budget", "30"], xlog)
        finish(x, time.time() + 90)
        xr = load(xout)
    pr = None
    if p is not None:
        found = any(f.get("case") not in [c for _, c, _ in known().get(pid, [])] for f in (xr or {}).get("failures", []))
        # with a failing input in hand the proof only adds the names of what it breaks
        finish(p, t0 + pbud + 30 if not found else max(t0 + 60, time.time() + 30))
        pr = load(pout)
    listed = known().get(pid, [])
    lines, violation = [], None

    # known findings: still present?
    for kid, case, what in listed:
        rp = os.path.join(scratch, "k.json")
        json.dump({"case": case}, open(rp, "w"))
        q = start([VENV, "-B", "xcheck/run.py", pid, "--repo", a.repo, "--replay", rp], os.path.join(scratch, "k.log"))
        finish(q, time.time() + 30)
        if q.returncode == 1:
            lines.append(f"KNOWN-FINDING: property={pid} {kid}: {what}")

    fails = [f for f in (xr or {}).get("failures", []) if f.get("case") not in [c for _, c, _ in listed]]
    replay = os.path.join(HERE, "replay", pid + ".json")
    obls = (pr or {}).get("obligations", [])
    refuted, confirm_s = [], 0
    if not fails:
        base = (load(os.path.join(HERE, "baseline.json")) or {}).get(pid, {})
        refuted = broken(pr, base) if base.get("source") != source_of(a.repo) else []
        if refuted and any(o["status"] != "refuted" for o in refuted):      # a second opinion, with the machine to itself
            t1 = time.time()
            again = sorted({d for o in refuted for d in o.get("drivers", [])})
            q = start([VT, "-B", "-m", "pydv.prove", pid, "--repo", a.repo, "--out", pout, "--budget", str(pbud), "--tier", tier, "--jobs", "6", "--only", ",".join(again)], plog)
            finish(q, t0 + (840 if tier == "quick" else 1700))
            names = {o["name"] for o in broken(load(pout), base)}
            refuted, confirm_s = [o for o in refuted if o["name"] in names], time.time() - t1
    failed = {o["name"] for o in refuted}
    discharged = [o for o in obls if o["status"] == "discharged"]
    undecided = [o for o in obls if o["status"] != "discharged" and o["name"] not in failed]
    if fails:
        f = fails[0]
        rec = {"property": pid, "case": f["case"], "message": f["message"], "seed": seed,
               "how": f"{VENV} {HERE}/xcheck/run.py {pid} --repo /repo --replay {replay}",
               "failed_obligations": [o["name"] for o in refuted + undecided],
               "verifier_output": [o.get("detail", "")[:2000] for o in refuted][:5]}
        json.dump(rec, open(replay, "w"), indent=1)
        violation = f"VIOLATION property={pid} replay={replay}"
    elif refuted:
        rec = {"property": pid, "failed_obligations": [o["name"] for o in refuted],
               "verifier_output": [o.get("detail", "")[:6000] for o in refuted], "case": None,
               "reasons": {o["name"]: o.get("kinds") for o in refuted},
               "note": "these obligations are discharged on the unchanged tree and fail here; no concrete failing input was found"}
        json.dump(rec, open(replay, "w"), indent=1)
        violation = f"VIOLATION property={pid} replay={replay} no-failing-input-found"
    elif os.path.exists(replay):
        os.unlink(replay)

    xcov = {"evaluations": (xr or {}).get("evaluations", 0), "distinct_nontrivial": (xr or {}).get("distinct", 0),
            "rule": (xr or {}).get("rule", ""), "samples": (xr or {}).get("samples", []) or ["none"]}
    cov = dict(xcov)
    proved = bool(obls) and len(discharged) == len(obls)
    if pr is not None:
        cov.update({
            "obligations": len(obls), "discharged": len(discharged),
            "checker_cmd": f"cd /verif && python3-vt -m pydv.prove {pid} --repo /repo",
            "trusted_base": pr.get("trusted_base", []),
            "obligation_list": [{k: o[k] for k in ("name", "status", "seconds", "kinds") if k in o} for o in obls],
            "undecided": [o["name"] + ": " + o.get("detail", "")[:300] for o in undecided],
            "functions_under_contract": pr.get("functions", []), "back_end": pr.get("back_end", ""),
            "solver_seconds": pr.get("solver_s", 0), "solver_queries": pr.get("queries", 0),
            "vacuity": pr.get("vacuity", []),
            "explanation": "obligations are discharged by pydv from the current source; the generated cases are the "
                           "concrete cross-check of the same contract" + ("" if proved else
                           "; the undecided obligations are covered only by those bounded cases")})
    else:
        cov["explanation"] = "bounded stand-in only: the contract evaluated on generated inputs; nothing proved"
    level = "proof" if proved else ("other" if pr is not None else "exploration")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": (pr or {}).get("assumptions", []) + ["CPython, its standard library and the third-party "
                                                            "packages behave as in this sandbox"],
          "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    print(f"{pid}: {len(discharged)}/{len(obls)} obligations discharged, {len(refuted)} failed, {len(undecided)} undecided;"
          f" {xcov['evaluations']} concrete cases, {len(fails)} failing; {ev['wall_s']} s")
    for o in undecided:
        print("  undecided:", o["name"], o.get("detail", "")[:200].replace("\n", " "))
    for o in refuted:
        print("  failed:", o["name"], ",".join(o.get("kinds") or []), o.get("detail", "")[:200].replace("\n", " "))
    if (xr or {}).get("harness_error") or xr is None:
        print("  note: concrete cross-check incomplete:", ((xr or {}).get("harness_error") or tail(xlog))[-400:])
    if proofs and pr is None:
        print("  note: prover gave no answer:", tail(plog)[-600:])
    if violation:
        for f in fails[:1]:
            print("  failing input:", (f["case"] or "")[:300], "--", f["message"][:300])
        print(violation)
    for f in os.listdir(scratch):
        os.unlink(os.path.join(scratch, f))
    os.rmdir(scratch)
    sys.exit(1 if violation else 0)


def tail(path):
    try:
        return open(path).read()[-2000:]
    except OSError:
        return ""


if __name__ == "__main__":
    main()
