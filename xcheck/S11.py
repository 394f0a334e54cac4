from lib import *
from dustgoggles import structures as st
import time
RULE = "random lists of argument records (with and without own keys, args, kwargs), raising and non-raising functions, serial / worker pool / pool by chunks, 1-4 workers, sequences of maps on one pool object and map_into_pool"
LIMIT = 60
MAXFAIL = 3


def f_echo(*a, **k):
    return ("r", a, tuple(sorted(k.items())))


def f_raise_odd(*a, **k):
    if a and a[0] in (1, 3, "bad"):
        raise ValueError(f"odd {a}")
    return ("ok", a, tuple(sorted(k.items())))


def f_none(*a, **k):
    return None


def f_exc(*a, **k):
    if a and a[0] in (1, "bad"):
        return ValueError("returned, not raised")
    return a


def f_interrupt(*a, **k):
    if a and a[0] == "bad":
        raise KeyboardInterrupt
    return a


def f_dict(*a, **k):
    return {"key": a, "args": 1}


def f_slow(*a, **k):
    time.sleep(0.002 * (5 - (a[0] if a and isinstance(a[0], int) else 0) % 5))
    return ("slow", a)


FN = {f.__name__: f for f in (f_echo, f_raise_odd, f_none, f_exc, f_dict, f_slow)}


def same_result(a, b):
    if isinstance(b, BaseException):
        return type(a) is type(b) and a.args == b.args
    return deep_same(a, b)


def expected(fn, recs, raised=None):
    out = {}
    for i, r in enumerate(recs):
        key = r.get("key", i)
        try:
            out[key] = FN[fn](*r.get("args", ()), **r.get("kwargs", {}))
        except Exception as ex:
            out[key] = ex
            if raised is not None:
                raised.append(ex)
    return out


def mkrecs(d):
    return [copy.deepcopy(r) for r in d]


def cmp(got, want, what):
    check(isinstance(got, dict), what, type(got))
    check(len(got) == len(want) and set(map(repr, got)) == set(map(repr, want)), what, "keys", list(got), "expected", list(want))
    for k in want:
        check(same_result(got[k], want[k]), what, "result of", k, "got", got[k], "expected", want[k])


def run_case(desc):
    kind, threads, steps = desc
    if kind == "into":
        (fn, recs, chunked, filt) = steps
        want = expected(fn, recs)
        got = st.map_into_pool(FN[fn], mkrecs(recs), threads, filter_exc=filt, as_chunks=chunked)
        if filt:
            want = {k: v for k, v in want.items() if not isinstance(v, Exception)}
        cmp(got, want, "map_into_pool")
        return
    pool = st.MaybePool(threads)
    try:
        for fn, recs, chunked, raise_exc in steps:
            excs = []
            want = expected(fn, recs, excs)
            pool.map(FN[fn], mkrecs(recs), as_chunks=chunked)
            if raise_exc and excs:
                try:
                    got = pool.get(raise_exc=True)
                except Exception as ex:
                    check(any(same_result(ex, e) for e in excs), "raised", repr(ex))
                else:
                    raise Fail(f"no exception raised: {got}")
            else:
                cmp(pool.get(raise_exc=raise_exc), want, f"get after map {fn} chunked={chunked}")
            cmp(pool.get(), want, "second get")
            if not (chunked and threads):
                check(pool.n_results == len(want) and pool.n_ready == len(want) and pool.n_running == 0 and pool.ready() is True,
                      "counts after get")
    finally:
        if threads is None:
            pool.close()
        pool.terminate()
        if pool.pool is not None:
            pool.pool.join()


def recs_for(rng, n):
    out, used = [], set()
    shape = rng.random()
    for i in range(n):
        if shape < .15:
            out.append({"key": [0, "", (), False, 1.5, b"", None][i] if i < 7 else -i, "args": rng.choice([[i], (i,), range(i % 3), "ab", ()]), "kwargs": OrderedDict(key=i, args=None)})
            if i == 3:
                out[-1]["key"] = frozenset()
            continue
        r = {}
        if rng.random() < .4:
            k = rng.choice(["k%d" % i, (i,), 100 + i, f"chunk_{i}", None if "None" not in used else "n%d" % i])
            used.add(str(k))
            r["key"] = k
        if rng.random() < .85:
            r["args"] = tuple(rng.choice([i, 1, 2, "bad", "x", None]) for _ in range(rng.randint(0, 2)))
        if rng.random() < .4:
            r["kwargs"] = {k: rng.randint(0, 3) for k in rng.sample(["a", "b", "zz", "z"], rng.randint(0, 2))}
        out.append(r)
    return out


def cases(rng, tier):
    def steps(threads):
        out = []
        for _ in range(rng.randint(1, 3)):
            fn = rng.choice(sorted(FN))
            chunked = rng.random() < .5
            if chunked and threads and fn in ("f_raise_odd",):
                fn = "f_echo"
            out.append((fn, recs_for(rng, rng.choice([0, 1, 2, 3, 4, 5, 7, 9])), chunked, rng.random() < .3))
        return out
    for n in (0, 1, 2, 3, 7, 8, 9, 40, 101):
        for t in (None, 1, 3, 4):
            for chunked in (False, True):
                if t is None or n in (0, 1, 3, 9, 40):
                    yield ("pool", t, [("f_echo", [{"args": (i, "x")} for i in range(n)], chunked, False)])
    for t in (None, 2):
        for c in (False, True):
            for x in (False, True):
                yield ("pool", t, [("f_exc", [{"args": (i,)} for i in range(4)], c, x), ("f_exc", [{"args": ("bad",), "key": "k"}], c, x)])
    yield ("pool", None, [("f_raise_odd", [{"args": (i % 5,), "key": ("k", i)} for i in range(60)], c, r) for c in (False, True) for r in (False, True)] + [("f_none", [{}], False, True)])
    yield ("pool", 3, [("f_echo", [{"args": (i,), "key": -i} for i in range(n)], c, False) for n, c in ((30, True), (2, False), (1, True), (11, False), (17, True), (0, True), (5, False))])
    yield ("pool", 2, [("f_raise_odd", [{"args": (i % 5,), "key": ("k", i)} for i in range(23)], False, False)])
    yield ("into", None, ("f_raise_odd", [{"args": (i % 5,)} for i in range(50)], False, True))
    yield ("into", 2, ("f_raise_odd", [{"args": (i % 5,)} for i in range(50)], False, True))
    yield ("into", 4, ("f_dict", [{"args": (i % 5,)} for i in range(50)], True, True))
    for _ in range(400 if tier == "quick" else 4000):
        yield ("pool", None, steps(None))
    for _ in range(25 if tier == "quick" else 300):
        t = rng.randint(1, 4)
        yield ("pool", t, steps(t))
    for _ in range(100 if tier == "quick" else 1000):
        fn = rng.choice(["f_echo", "f_raise_odd", "f_none", "f_dict"])
        yield ("into", None, (fn, recs_for(rng, rng.randint(0, 6)), rng.random() < .5, rng.random() < .5))
    for _ in range(15 if tier == "quick" else 200):
        chunked = rng.random() < .6
        fn = rng.choice(["f_echo", "f_none", "f_dict", "f_slow"] + ([] if chunked else ["f_raise_odd"]))
        yield ("into", rng.randint(1, 4), (fn, recs_for(rng, rng.randint(0, 7)), chunked, rng.random() < .5))
