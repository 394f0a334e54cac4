"""Concrete contract cross-check of one property against the real code.

usage: /opt/venv/bin/python run.py PID --repo /repo --seed N --tier quick --out OUT.json [--budget S]
       /opt/venv/bin/python run.py PID --repo /repo --replay FILE

Each module Pxx.py defines
    cases(rng, tier) -> iterator of case descriptions (Python literals)
    run_case(desc)   -> None, or raises lib.Fail (contract broken) / anything else (also broken)
    RULE             -> one line on how cases are made
A description is a Python literal: repr() of it is the replayable input.
"""
import argparse, ast, importlib, json, os, random, resource, signal, sys, time, traceback, hashlib
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang("no result within the time limit")


def run_one(mod, desc, limit):
    """None if the contract held, else a message."""
    try:
        return _run_one(mod, desc, limit)
    except Hang as h:           # the time ran out while an exception was being dealt with
        return f"hang: {h}"


def _run_one(mod, desc, limit):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        mod.run_case(desc)
        return None
    except Hang as h:
        return f"hang: {h}"
    except (SystemExit, KeyboardInterrupt, GeneratorExit) as ex:
        return f"unexpected {type(ex).__name__}: {ex}"
    except BaseException as ex:
        import lib
        if isinstance(ex, lib.Fail):
            return str(ex)
        tb = traceback.extract_tb(ex.__traceback__)
        loc = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb]
        return f"unexpected {type(ex).__name__}: {str(ex)[:300]} at {'>'.join(loc[-4:])}"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def rounds(mod, rng, a, t0):
    """the module's cases, then further random rounds until the minimum time is used"""
    yield from mod.cases(rng, a.tier)
    n = 0
    while time.time() - t0 < a.mintime:
        n += 1
        yield from mod.cases(random.Random(f"{a.seed}-{n}"), a.tier)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("--budget", type=float, default=60)
    ap.add_argument("--mintime", type=float, default=0)
    ap.add_argument("--replay")
    a = ap.parse_args()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))      # a runaway case ends with MemoryError
    sys.path.insert(0, a.repo)
    out = {"property": a.pid, "evaluations": 0, "distinct": 0, "failures": [], "samples": [],
           "samples_skipped": 0}

    def emit():
        if a.out:
            with open(a.out + ".tmp", "w") as f:
                json.dump(out, f)
            os.replace(a.out + ".tmp", a.out)
    try:
        import dustgoggles
        assert os.path.realpath(dustgoggles.__file__).startswith(os.path.realpath(a.repo) + "/"), \
            dustgoggles.__file__
        mod = importlib.import_module(a.pid)
    except BaseException as ex:
        out["failures"].append({"case": None, "message": "import failed: " + repr(ex)})
        emit()
        print(traceback.format_exc())
        return 1
    out["rule"] = mod.RULE
    limit = getattr(mod, "LIMIT", 10)
    if a.replay:
        rec = json.load(open(a.replay))
        desc = ast.literal_eval(rec["case"])
        msg = run_one(mod, desc, limit)
        print("case:", rec["case"])
        print("FAILS: " + msg if msg else "holds")
        getattr(mod, "teardown", lambda: None)()
        return 1 if msg else 0
    rng = random.Random(a.seed)
    t0 = time.time()
    seen = set()
    try:
        for desc in rounds(mod, rng, a, t0):
            if time.time() - t0 > a.budget:
                out["budget_exhausted"] = True
                break
            text = repr(desc)
            h = hashlib.sha1(text.encode("utf-8", "backslashreplace")).digest()
            if h in seen:
                if out["evaluations"] > 20:
                    continue
            seen.add(h)
            out["evaluations"] += 1
            if out["evaluations"] in (1, 7, 50, 333):
                out["samples"].append(text[:600])
            msg = run_one(mod, desc, limit)
            if msg:
                out["failures"].append({"case": text, "message": msg})
                if len(out["failures"]) >= getattr(mod, "MAXFAIL", 5):
                    break
    except BaseException as ex:
        out["harness_error"] = traceback.format_exc()
    out["distinct"] = len(seen)
    out["wall_s"] = round(time.time() - t0, 2)
    try:
        getattr(mod, "teardown", lambda: None)()
    except BaseException:
        out["teardown_error"] = traceback.format_exc()
    emit()
    for f in out["failures"]:
        print("FAIL", f["message"], "CASE", (f["case"] or "")[:500])
    if "harness_error" in out:
        print(out["harness_error"])
    print(out["evaluations"], "cases", out["distinct"], "distinct", len(out["failures"]), "failures", out["wall_s"], "s")
    return 1 if out["failures"] else (2 if "harness_error" in out else 0)


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
