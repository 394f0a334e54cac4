from compsim import *
import tempfile, shutil, pathlib
RULE = "random programs where a chosen call of a chosen step or pipe raises one of twelve exception types; optional or not, with a recording tracker, a real tracker or none; several runs"


def run_case(d):
    if isinstance(d, dict):
        run_program(d)
    elif d[0] == "nested":
        nested(*d[1:])
    elif d[0] == "long":
        long_program(*d[1:])
    else:
        real_tracker(*d)


def nested(depth, exc, same, optional, runs):
    """compositions as steps of compositions, one tracker each: the failing step of every level is recorded there, every time"""
    kept = EXC[exc]("planned")

    def bad(_):
        raise (kept if same else EXC[exc]("planned"))
    steps, trackers = [bad], []
    for i in range(depth):
        t = RecTracker()
        c = Composition({"first": lambda x: x, i: steps[-1], "never": lambda x: check(False, "a step ran after the failing one")}, tracker=t,
                        optional=optional and i == depth - 1)
        steps.append(c)
        trackers.append(t)
    for run in range(1, runs + 1):
        try:
            got = steps[-1]("sig")
            check(optional and got is None, "returned", got)
        except EXC[exc] as ex:
            check(not optional and (ex is kept or not same), "let out", repr(ex))
        for i, t in enumerate(trackers):
            fails = [f for f, md in t.calls if "exception" in md]
            check(len(fails) == run and all(f is steps[i] for f in fails), "failure records after run", run, "at level", i, fails)


def long_program(n, at, send, optional):
    def mk(i):
        def step(x):
            if i == at and not send:
                raise ValueError(i)
            return x + 1
        return step

    def bad(_):
        raise ValueError("send")
    t = RecTracker()
    fns = [mk(i) for i in range(n)]
    c = Composition(fns, tracker=t, optional=optional)
    if send:
        c.add_send(at, pipe=bad)
    try:
        got = c.execute(0)
        check(optional and got is None, "returned", got)
    except ValueError:
        check(not optional, "an optional composition let a ValueError out")
    fails = [f for f, md in t.calls if "exception" in md]
    check(len(fails) == 1 and fails[0] is fns[at], "failure records", len(fails), "naming", [fns.index(f) for f in fails], "expected", at)
    check(len(t.calls) == at + 1 + bool(send), "records", len(t.calls))


def real_tracker(n, at, exc, optional, send_fails):
    from dustgoggles.tracker import Tracker
    tmp = tempfile.mkdtemp(prefix="xc04_")
    try:
        def mk(i):
            def step(x):
                if i == at and not send_fails:
                    raise EXC[exc](f"planned {i}")
                return x + 1
            step.__name__ = f"step_{i}"
            return step

        def bad(_):
            raise EXC[exc]("planned send")
        t = Tracker("t", outdir=pathlib.Path(tmp))
        c = Composition({f"n{i}": mk(i) for i in range(n)}, tracker=t, optional=optional)
        if send_fails and at < n:
            c.add_send(f"n{at}", pipe=bad)
        err, got = None, None
        try:
            got = c(0)
        except BaseException as ex:
            err = ex
        fails = [r for r in t.history if "exception" in r]
        if at >= n:
            check(err is None and got == n and not fails, "clean run", repr(err), got, fails)
            return
        if issubclass(EXC[exc], Exception):
            check((err is None) == optional, repr(err))
            check(optional or type(err) is EXC[exc], repr(err))
            check(got is None, got)
            check(len(fails) == 1, "failure records", fails)
            check(fails[0]["target"] == f"step_{at}", "failure names", fails[0]["target"], "expected", f"step_{at}")
            check(exc in str(fails[0]["exception"]), fails[0])
        else:
            check(type(err) is EXC[exc], "not let out:", repr(err), got)
        done = [r for r in t.history if "exception" not in r]
        check([r["step"] for r in done] == [f"n{i}" for i in range(at + (1 if send_fails else 0))], "step records", done)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def cases(rng, tier):
    for depth in (1, 2, 4):
        for exc in ("ValueError", "KeyError", "Boom", "Falsy", "OSError"):
            for same in (False, True):
                for opt in (False, True):
                    yield ("nested", depth, exc, same, opt, 3)
    for n in (1, 12, 150, 300):
        for at in sorted({0, n // 2, n - 1}):
            for send in (False, True):
                yield ("long", n, at, send, at % 2 == 0)
    for n in (1, 2, 3, 5):
        for at in range(n + 1):
            for exc in sorted(EXC):
                for opt in (True, False):
                    for sf in (False, True):
                        if n < 3 or exc in ("ValueError", "KeyboardInterrupt", "SystemExit", "KeyError"):
                            yield (n, at, exc, opt, sf)
    for _ in range(2500 if tier == "quick" else 25000):
        yield program(rng, n=rng.choice([1, 1, 2, 3, 4, 7]), kinds=("plain", "plain", "partial"), inserts=.3, sends=.5, fail=.8, runs=3,
                      optional=rng.choice([True, False]), track=rng.choice([True, False]), exc=tuple(sorted(EXC)))
