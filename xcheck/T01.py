from lib import *
import tempfile, shutil, json, functools, inspect
from pathlib import Path
from dustgoggles.tracker import Tracker
RULE = "random histories of track / set_metadata / clear / dump / pause on a tracker against a list model; distinct = distinct operation lists"
TMP = Path(tempfile.mkdtemp(prefix="xckT01"))
N = [0]


def teardown():
    shutil.rmtree(TMP, ignore_errors=True)


def named():
    pass


class Cls:
    pass


class Inst:
    __name__ = "inst-name"


class Hidden:
    """has a __name__ that dir() does not list"""
    def __dir__(self):
        return ["x"]
    __name__ = "hidden"

    def __str__(self):
        return "shown"


class Dyn:
    def __getattr__(self, n):
        if n == "__name__":
            return "dyn"
        raise AttributeError(n)

    def __str__(self):
        return "dyn text"


class Falsy:
    __name__ = ""

    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Named:
    def __init__(self, n):
        self.__name__ = n

    def __call__(self):
        raise AssertionError("called")


TARGETS = [(Hidden(), "shown"), (Dyn(), "dyn text"), (Falsy(), ""), (Named("n" * 300), "n" * 300), (Named("two words"), "two words"), (Hidden, "Hidden"),
           (Cls.__init__, "__init__"), ("", ""), (0, "0"), (False, "False"), ((), "()"), (json, "json"), ("__name__", "__name__"), ({"__name__": 1}, "{'__name__': 1}"),(named, "named"), (len, "len"), (Cls(), None), ("a string", "a string"), (7, "7"), (functools.partial(named, 1), None), (Inst(), "inst-name"),
           (lambda x: x, "<lambda>"), (None, "None"), ([1, 2], "[1, 2]")]


def caller_one(t, f, kw):
    t.track(f, **kw); line = inspect.currentframe().f_lineno
    return "caller_one", line


def caller_two(t, f, kw):

    t.track(f, **kw); line = inspect.currentframe().f_lineno
    return "caller_two", line


def gen_caller(t, f, kw):
    def g():
        yield (t.track(f, **kw), inspect.currentframe().f_lineno)
    line = next(g())[1]
    return "g", line


def lam_caller(t, f, kw):
    line = (lambda: (t.track(f, **kw), inspect.currentframe().f_lineno))()[1]
    return "<lambda>", line


def comp_caller(t, f, kw):
    return "comp_caller", [(t.track(f, **kw), inspect.currentframe().f_lineno) for _ in "x"][0][1]


ns = {}
exec(compile("def far(t, f, kw, cf):\n" + "    x = 1\n" * 400 + "    t.track(f, **kw); line = cf().f_lineno\n    return 'far', line\n", "<far>", "exec"), ns)


def far(t, f, kw):
    return ns["far"](t, f, kw, inspect.currentframe)


class M:
    def method(self, t, f, kw):
        t.track(f, **kw); line = inspect.currentframe().f_lineno
        return "method", line


CALLERS = [caller_one, caller_two, gen_caller, lam_caller, comp_caller, far, M().method]


def run_case(desc):
    N[0] += 1
    d = TMP / f"t{N[0]}"
    t = Tracker(f"n{N[0]}", outdir=d)
    model, meta, n = [], {}, 1
    handles = [t.history]
    check(t.history == [] and t.log["history"] == [], "fresh tracker is not empty")
    try:
        for op, a, kw in desc:
            if op == "track":
                f, name = TARGETS[a % len(TARGETS)]
                name = str(f) if name is None else name
                who, line = CALLERS[a % 7](t, f, kw)
                model.append({"target": name, "caller": who, "lineno": line, "trackcount": n} | meta | kw)
                n += 1
            elif op == "meta":
                t.set_metadata(**kw)
                meta = meta | kw
            elif op == "clear":
                t.clear()
                model, n = [], 1
            elif op == "dump":
                try:
                    t.dump()
                except (TypeError, ValueError):
                    pass
            elif op == "pause":
                t.paused = bool(a % 2)
            check(deep_same(list(t.history), model) or t.history == model, op, "history", t.history, "expected", model)
            check([list(r) for r in t.history] == [list(r) for r in model], op, "field order")
            check(t.log["history"] is t.history or t.log["history"] == model, op, "log shows", t.log["history"], "expected", model)
            check(all(h is t.history or list(h) == model for h in handles), op, "the history is another list", handles[0])
            check(t.log["name"] == f"n{N[0]}", "log name")
    finally:
        shutil.rmtree(d, ignore_errors=True)


KW = [{}, {}, {"a": 1}, {"a": 2, "b": "x"}, {"target": "mine"}, {"lineno": -1, "caller": "c"}, {"trackcount": 99}, {"bad": {1, 2}}, {"z": None}, {"caller": None}, {"target": ""}, {"": 1}, {"history": []}, {"name": "other", "log": 1, "self_": 2}, {"a": []}, {"metadata": {"a": 5}}, {"paused": True},
      {"trackcount": None}, {"lineno": 0}, {"count": 3}]


def cases(rng, tier):
    for a in range(24):
        yield [("track", a, {}), ("track", a + 24, {"a": 1}), ("meta", 0, {"a": 2}), ("track", a, {}), ("track", a, {"a": 0}), ("clear", 0, {}), ("track", a, {})]
    yield [("track", i, {}) for i in range(300)] + [("dump", 0, {}), ("clear", 0, {}), ("clear", 0, {})] + [("track", i, {"i": i}) for i in range(120)]
    yield [(op, i, {"a": i}) for i in range(40) for op in ("track", "dump", "clear", "meta", "track")]
    yield [(op, i, {}) for i in range(60) for op in ("track", "dump")]
    yield [("pause", 1, {})] + [(op, i, {}) for i in range(10) for op in ("track", "dump", "meta", "track", "clear", "track")] + [("pause", 0, {}), ("track", 1, {}), ("dump", 0, {})]
    for _ in range(500 if tier == "quick" else 6000):
        yield [(rng.choice(["track"] * 5 + ["meta", "clear", "dump", "pause", "dump"]), rng.randrange(100), rng.choice(KW)) for _ in range(rng.randint(1, 14))]
