from lib import *
import tempfile, shutil, json
from pathlib import Path
from dustgoggles.tracker import Tracker
RULE = "random histories of track / dump / clear / pause / unserialisable metadata / second tracker on the same file, comparing the file's bytes after each operation; distinct = distinct operation lists"
TMP = Path(tempfile.mkdtemp(prefix="xckT02"))
N = [0]


def teardown():
    shutil.rmtree(TMP, ignore_errors=True)


def run_case(desc):
    N[0] += 1
    d = TMP / f"t{N[0]}"
    name = f"n{N[0]}"
    ts = [Tracker(name, outdir=d), Tracker(name, outdir=d)]
    path = d / f"{name}.json"
    elems, raw = [], None
    try:
        for op, a, kw in desc:
            kw = kwargs(kw)
            t = ts[0 if a % 4 else 1]
            if op == "track":
                t.track(len, **kw)
            elif op == "meta":
                t.set_metadata(**kw)
            elif op == "grow":
                for i in range(a):
                    t.track(f"x{i}", **kw)
            elif op == "heal":
                t.history[:] = [r for r in t.history if "bad" not in r]
                t.metadata.pop("bad", None)
            elif op == "clear":
                t.clear()
                check(not path.exists(), "clear left the file")
                elems, raw = [], None
            elif op == "pause":
                t.paused = bool(a % 2)
            elif op == "dump":
                paused = t.paused
                try:
                    t.dump()
                    ok = True
                except (TypeError, ValueError, RecursionError):
                    ok = False
                if paused:
                    check(ok, "paused dump raised")
                elif ok:
                    check("write_timestamp" in t.log, "no write timestamp")
                    check(list(t.log)[-1] == "history", "history is not last")
                    elems.append(json.loads(json.dumps(t.log)))
                    now = path.read_bytes()
                    if raw is None:
                        check(now.startswith(b"[") and now.endswith(b"]"), "first dump", now[:80])
                    else:
                        check(now.startswith(raw[:-1]) and len(now) > len(raw), "earlier bytes changed")
                    raw = now
            if raw is None:
                check(not path.exists(), op, "created a file")
            else:
                check(path.read_bytes() == raw, op, "changed the file")
                check(json.loads(raw) == elems, op, "elements", json.loads(raw), "expected", elems)
    finally:
        shutil.rmtree(d, ignore_errors=True)


CIRC = []
CIRC.append(CIRC)
DEEP = None
for _ in range(200000):
    DEEP = [DEEP]
BAD = {"set": {1, 2}, "circ": CIRC, "deep": DEEP, "tuplekey": {(1, 2): 3}, "bytes": b"x", "obj": object(), "late": [1, {"a": [2, {3}]}]}


def kwargs(kw):
    """bad values go by name, so that descriptions stay literals"""
    return {"bad": BAD[kw["bad"]]} if "bad" in kw else kw


KW = [{"u": "\ud800"}, {"e": ""}, {"end": "]"}, {"nl": "\n]\n"}, {"n": [], "m": {}}, {"f": 1e300}, {"i": 2**70}, {"k": {1: 2, None: 3, True: 4}}, {"history": "h"}, {"t": (1, 2)},{}, {}, {"a": 1}, {"b": "é日本\u2028]"}, {"c": [1, {"d": None}]}, {"s": "],["}, {"q": "\"[\\"}]


def cases(rng, tier):
    for b in sorted(BAD):
        for pre in ([], [("track", 1, {}), ("dump", 1, {})]):
            yield pre + [("track", 1, {}), ("track", 1, {"bad": b}), ("dump", 1, {}), ("dump", 1, {}), ("heal", 1, {}), ("dump", 1, {}), ("track", 1, {}), ("dump", 1, {})]
            yield pre + [("meta", 1, {"bad": b}), ("track", 1, {}), ("dump", 1, {}), ("heal", 1, {}), ("dump", 1, {})]
    yield [("track", 1, {}), ("dump", 1, {})] * 40 + [("clear", 1, {})] + [("track", 1, {}), ("dump", 1, {})] * 5
    yield [("dump", 1, {})] * 130
    yield [("grow", 701, {"pad": "é" * 300}), ("dump", 1, {}), ("dump", 1, {}), ("grow", 3001, {}), ("dump", 1, {}), ("pause", 1, {}), ("dump", 1, {}), ("pause", 2, {}), ("dump", 1, {}), ("clear", 1, {}), ("dump", 1, {})]
    yield [("dump", 1, {}), ("dump", 0, {}), ("track", 0, {}), ("dump", 0, {}), ("clear", 0, {}), ("dump", 1, {}), ("clear", 1, {}), ("clear", 0, {}), ("dump", 0, {}), ("dump", 1, {})]
    yield [("pause", 3, {}), ("pause", 3, {}), ("dump", 1, {}), ("clear", 1, {}), ("dump", 1, {}), ("pause", 2, {}), ("dump", 1, {}), ("pause", 1, {}), ("dump", 1, {}), ("clear", 1, {}), ("pause", 2, {}), ("dump", 1, {})]
    for _ in range(500 if tier == "quick" else 6000):
        kws = KW + ([{"bad": rng.choice(sorted(BAD))}] if rng.random() < .5 else [])
        yield [(rng.choice(["track", "track", "track", "dump", "dump", "dump", "clear", "pause"] if rng.random() < .4 else ["track", "dump", "dump"]),
                rng.randrange(100), rng.choice(kws)) for _ in range(rng.randint(1, 12))]
