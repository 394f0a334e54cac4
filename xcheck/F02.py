from lib import *
from dustgoggles.func import (catch_interaction, optionalize, triggerize, constant, splat, argstop, gmap, filtern, pass_parameters, zero, is_it, naturals)
RULE = "random argument lists for every wrapper; functions that return values (including None, exceptions and falsy values) or raise one of ten ordinary or non-ordinary exceptions; every call and callback logged"


class Base(BaseException):
    pass


class Sub(ValueError):
    pass


class Falsy(RuntimeError):
    def __bool__(self):
        return False


class Empty(LookupError):
    def __len__(self):
        return 0

    def __eq__(self, o):
        return True

    __hash__ = None


class KSub(KeyboardInterrupt):
    pass


class Grp(ExceptionGroup):
    def __new__(cls, msg):
        return super().__new__(cls, msg, [ValueError(1), KeyError(2)])


class BGrp(BaseExceptionGroup):
    def __new__(cls, msg):
        return super().__new__(cls, msg, [KeyboardInterrupt(1), KeyError(2)])


EX = {e.__name__: e for e in (ValueError, KeyError, TypeError, StopIteration, RuntimeError, Sub, OSError, AssertionError, AttributeError, MemoryError,
                              KeyboardInterrupt, SystemExit, GeneratorExit, Base, Falsy, Empty, KSub, Grp, BGrp, StopAsyncIteration, RecursionError,
                              TimeoutError, BrokenPipeError, InterruptedError, UnicodeError, EOFError, ImportError, NotImplementedError, Warning)}


class F:
    def __init__(self, behave):
        self.behave, self.log = behave, []
        self.__name__ = "F"

    def __call__(self, *a, **k):
        self.log.append((a, k))
        if self.behave[0] == "raise":
            self.raised = EX[self.behave[1]]("planned")
            raise self.raised
        return self.behave[1]


class FalsyCB:
    """a callback that is falsy"""
    def __init__(self):
        self.got = []

    def __bool__(self):
        return False

    def __call__(self, e):
        self.got.append(e)
        return e


def more(what, extra):
    if what == "sequence":
        plan, log, cb = list(extra), [], []
        errs = []

        def f(*a, **k):
            log.append((a, k))
            p = plan[len(log) - 1]
            if p[0] == "raise":
                errs.append(EX[p[1]](str(len(log))))
                raise errs[-1]
            return p[1]
        g = optionalize(f, cb.append)
        for i, p in enumerate(plan):
            nc, ne = len(cb), len(errs)
            try:
                res = ("ok", g(i, func=i, exc_callback=None, e=1))
            except BaseException as ex:
                if type(ex).__name__ == "Hang":
                    raise
                res = ("raised", ex)
            check(len(log) == i + 1 and log[-1] == ((i,), {"func": i, "exc_callback": None, "e": 1}), "calls", log)
            if p[0] == "return":
                check(res[0] == "ok" and (res[1] is p[1]) and len(cb) == nc, "call", i, "gave", res)
            elif issubclass(EX[p[1]], Exception) and not issubclass(EX[p[1]], KeyboardInterrupt):
                check(res[0] == "ok" and res[1] is None and len(cb) == nc + 1 and cb[-1] is errs[-1], "call", i, "gave", res, cb)
            else:
                check(res[0] == "raised" and res[1] is errs[-1] and len(cb) == nc, "call", i, "gave", res, cb)
    elif what == "callbacks":
        def boom(*a):
            raise ValueError("original")
        fc = FalsyCB()
        check(optionalize(boom, fc)() is None and len(fc.got) == 1 and type(fc.got[0]) is ValueError, "falsy callback", fc.got)
        got = []
        g = optionalize(optionalize(boom, got.append), got.append)
        check(g() is None and len(got) == 1, "nested optional", got)

        def recur(n, log=[]):
            if n:
                return h(n - 1)
            raise KeyError(n)
        seen = []
        h = optionalize(recur, seen.append)
        check(h(3) is None and len(seen) == 1, "recursive optional", seen)
        e0 = ValueError("returned")
        check(optionalize(lambda: e0, seen.append)() is e0 and len(seen) == 1, "an exception that is returned", seen)

        def bad(e):
            raise OSError("from the callback")
        try:
            optionalize(boom, bad)()
            raise Fail("the callback's exception was swallowed")
        except OSError:
            pass
    elif what == "gmaps":
        import itertools
        seen = []

        def g(*x):
            seen.append(x)
            return x[0]
        check(gmap(g, [None, 0, "", False]) == (None, 0, "", False) and seen == [(None,), (0,), ("",), (False,)], "gmap", seen)
        seen.clear()
        check(gmap(g, itertools.count(), "abc") == (0, 1, 2) and seen == [(0, "a"), (1, "b"), (2, "c")], "gmap", seen)
        seen.clear()
        check(gmap(g, range(5000)) == tuple(range(5000)) and len(seen) == 5000, "gmap", len(seen))
        check(gmap(g, [1, 2], mapper=filter, evaluator=list) == [1, 2], "gmap filter")
        check(gmap(pow, [2, 3], [5, 2], evaluator=sum) == 41 and gmap(lambda p: p, [[]], evaluator=next) == [], "gmap evaluators")
        check(gmap(None.__class__ if False else str, []) == (), "gmap of nothing")
        seen.clear()
        check(filtern(lambda x: (seen.append(x), [x] if x is None else [])[1], iter([0, "", None, 5])) is None and seen == [0, "", None], "filtern", seen)
        check(filtern(lambda x: x == 0, [3, 0, 0.0]) == 0 and filtern(None, [0, "", [], "x"]) == "x", "filtern")
        check(filtern(lambda x: x >= 4000, range(9000)) == 4000, "filtern")
        try:
            filtern(lambda x: False, range(5))
            raise Fail("filtern found something")
        except StopIteration:
            pass
    elif what == "wide":
        n = extra
        log = []

        def f(*a, **k):
            log.append((a, k))
            return None
        a = tuple(range(n))
        k = {f"k{i}": i for i in range(n)}
        check(pass_parameters(f, *a, **k) is None and log.pop() == (a, k), "pass_parameters")
        check(catch_interaction(False, f, *a, **k) is None and log.pop() == (a, k), "catch_interaction")
        check(splat(f)(a) is None and log.pop() == (a, {}), "splat")
        for m in (0, 1, n - 1, n, n + 1):
            if m >= 0:
                if n != 1:
                    check(argstop(f, m)(*a, **k) is None, "argstop")
                    got = log.pop()
                    check(got == (a[:m], k), "argstop", m, "of", n, "gave", len(got[0]), len(got[1]))
                check(argstop(f, m)(a, **k) is None and log.pop() == (a[:m], k), "argstop of a sequence")
                check(argstop(f, m, unpack=False)(a) is None and log.pop() == ((a,)[:m], {}), "argstop without unpacking")
        check(constant(a)(*a, **k) is a and optionalize(f)(*a, **k) is None and log.pop() == (a, k), "wide")
        g = triggerize(lambda: log.append("trigger") or "not this")
        check(g(deferred_state=a) is a and log == ["trigger"] and g(0) == 0 and g("") == "" and len(log) == 3, "trigger", log)
        for v in (None, 0, False, "", (), f, KeyError("x")):
            check(g(v) is v, "trigger passes", v)
            check(constant(v)() is v and constant(v)(v, value=1) is v, "constant", v)
            check(catch_interaction(1, f, _default=v) is v and not [x for x in log if x != "trigger"], "default", v)
        check(catch_interaction(True, f, 1) == "" and catch_interaction([0], f, _default=f) is f, "noninteractive")


def run_case(desc):
    what, behave, a, k, extra = desc
    if what in ("sequence", "callbacks", "gmaps", "wide"):
        return more(what, extra)
    f = F(behave)
    k = dict(k)

    def attempt(g, *aa, **kk):
        try:
            return "ok", g(*aa, **kk)
        except BaseException as ex:
            if type(ex).__name__ == "Hang":
                raise
            return "raised", ex

    def passes(res, calls):
        """f was called with exactly these, and its outcome came through"""
        check(deep_same(f.log, calls), "calls", f.log, "expected", calls)
        if behave[0] == "raise":
            check(res == ("raised", f.raised), "outcome", res)
        else:
            check(res[0] == "ok" and (res[1] is behave[1] or deep_same(res[1], behave[1])), "outcome", res)
    if what == "catch":
        non, kw = extra
        kw = dict(kw)
        res = attempt(catch_interaction, non, f, *a, **kw, **k)
        if non:
            check(f.log == [], "called while noninteractive", f.log)
            check(res[0] == "ok" and deep_same(res[1], kw.get("_default", "")), "default", res)
        else:
            passes(res, [(a, k)])
    elif what == "pass":
        passes(attempt(pass_parameters, f, *a, **k), [(a, k)])
    elif what == "opt":
        calls = []
        cbx = extra

        def cb(e):
            calls.append(e)
            return "ignored"
        g = optionalize(f) if cbx == "none" else optionalize(f, cb) if cbx == "pos" else optionalize(f, exc_callback=cb)
        for n in (1, 2):
            calls.clear()
            res = attempt(g, *a, **k)
            check(deep_same(f.log, [(a, k)] * n), "calls", f.log)
            if behave[0] == "raise":
                if issubclass(EX[behave[1]], Exception) and not issubclass(EX[behave[1]], KeyboardInterrupt):
                    check(res == ("ok", None), "outcome", res)
                    check(cbx == "none" or (len(calls) == 1 and calls[0] is f.raised), "callback calls", calls)
                else:
                    check(res[0] == "raised" and res[1] is f.raised, "outcome", res)
                    check(not calls, "callback for a non-ordinary exception", calls)
            else:
                check(res[0] == "ok" and (res[1] is behave[1] or deep_same(res[1], behave[1])) and not calls, "outcome", res, calls)
    elif what == "trigger":
        g = triggerize(f)
        sig = extra
        res = attempt(g) if sig == "absent" else attempt(g, sig)
        check(deep_same(f.log, [((), {})]), "calls", f.log)
        if behave[0] == "raise":
            check(res[0] == "raised" and res[1] is f.raised, res)
        else:
            want = None if sig == "absent" else sig
            check(res[0] == "ok" and (res[1] is want or deep_same(res[1], want)), "passes its input on", res)
    elif what == "constant":
        v = extra
        obj = [v]
        g = constant(obj)
        for _ in range(3):
            check(g(*a, **k) is obj, "constant")
        h = constant(f)
        check(h(*a, **k) is f and f.log == [], "constant called its value")
    elif what == "splat":
        passes(attempt(splat(f), extra(a) if callable(extra) else {"list": list, "tuple": tuple, "iter": iter}[extra](a)), [(a, {})])
    elif what == "argstop":
        n, unpack, style = extra
        g = argstop(f, n) if unpack == "default" else argstop(f, arg_count=n, unpack=unpack)
        if n == 0 and unpack == "default" and style == "bare":
            g = argstop(f)
        eff = True if unpack == "default" else unpack
        if style == "seq" and eff:
            passes(attempt(g, list(a) if n % 2 else tuple(a), **k), [(tuple(a)[:n], k)])
            for s in (range(len(a)), "".join(map(str, range(len(a)))), bytes(len(a))):
                del f.log[:]
                passes(attempt(g, s, **k), [(tuple(s)[:n], k)])
        elif len(a) == 1 and eff:
            return
        else:
            passes(attempt(g, *a, **k), [(a[:n], k)])
    elif what == "gmap":
        log = []

        def g(*x):
            log.append(x)
            if behave[0] == "raise" and len(log) == 2:
                raise EX["ValueError"]("planned")
            return ("g", x)
        its, ev = extra
        its2 = [list(i) for i in its]
        kw = {} if ev == "default" else {"evaluator": {"list": list, "set": set, "len": lambda x: sum(1 for _ in x)}[ev]}
        want = [("g", x) for x in zip(*its)]
        res = attempt(gmap, g, *its2, **kw)
        if behave[0] == "raise" and len(want) >= 2:
            check(res[0] == "raised" and len(log) == 2, res)
            return
        check(log == list(zip(*its)), "calls", log)
        want = {"default": tuple, "list": list, "set": set, "len": lambda x: len(x)}[ev](want)
        check(res[0] == "ok" and deep_same(res[1], want), "result", res, "expected", want)
    elif what == "filtern":
        seq, thr = extra
        want = [x for x in seq if x > thr]
        res = attempt(filtern, lambda x: x > thr, iter(seq))
        if want:
            check(res == ("ok", want[0]), res)
        else:
            check(res[0] == "raised" and type(res[1]) is StopIteration, res)
    elif what == "isit":
        types, thing = extra
        T = {"int": int, "str": str, "dict": dict, "list": list, "none": type(None), "Mapping": Mapping, "Exception": Exception}
        check(is_it(*[T[t] for t in types])(thing) is isinstance(thing, tuple(T[t] for t in types)), "is_it", types, thing)
    elif what == "misc":
        check(zero(*a, **k) is None, "zero")
        it = naturals()
        check([next(it) for _ in range(extra)] == list(range(1, extra + 1)), "naturals")


def cases(rng, tier):
    vals = [0, 1, None, "", "x", (), [1], {"a": 1}, False, 2.5]

    def behave():
        return ("raise", rng.choice(sorted(EX))) if rng.random() < .5 else ("return", rng.choice(vals))
    for ex in sorted(EX):
        for cb in ("none", "pos", "kw"):
            yield ("opt", ("raise", ex), (1,), (), cb)
        yield ("catch", ("raise", ex), (1,), (), (0, ()))
        yield ("trigger", ("raise", ex), (), (), 1)
    yield ("callbacks", None, (), (), None)
    yield ("gmaps", None, (), (), None)
    for n in (0, 1, 2, 3, 17, 120):
        yield ("wide", None, (), (), n)
    for n in (3, 40, 300):
        for _ in range(4):
            yield ("sequence", None, (), (), [behave() for _ in range(n)])
    yield ("sequence", None, (), (), [("raise", "ValueError")] * 1100)
    yield ("sequence", None, (), (), [("raise", x) for x in sorted(EX)] * 3)
    for n in (0, 1, 2, 50, 300):
        yield ("misc", ("return", 0), (1, 2), (), n)
    for i in range(4000 if tier == "quick" else 40000):
        a = tuple(rng.choice(vals) for _ in range(rng.choice([0, 1, 1, 2, 3, 5])))
        k = tuple((x, rng.choice(vals)) for x in rng.sample(["p", "q", "r"], rng.randint(0, 2)))
        w = ["catch", "pass", "opt", "trigger", "constant", "splat", "argstop", "gmap", "filtern", "isit"][i % 10]
        if w == "catch":
            e = (rng.choice([True, 1, "y", [0], False, 0, None, ""]), rng.choice([(), (), (("_default", rng.choice(vals)),)]))
        elif w == "opt":
            e = rng.choice(["none", "pos", "kw"])
        elif w == "trigger":
            e = rng.choice(["absent"] + vals)
        elif w == "splat":
            e = rng.choice(["list", "tuple", "iter"])
        elif w == "argstop":
            e = (rng.randint(0, 5), rng.choice(["default", True, False]), rng.choice(["seq", "args", "bare"]))
        elif w == "gmap":
            e = ([[rng.randint(0, 9) for _ in range(rng.randint(0, 5))] for _ in range(rng.randint(1, 3))], rng.choice(["default", "list", "set", "len"]))
        elif w == "filtern":
            e = ([rng.randint(0, 5) for _ in range(rng.randint(0, 6))], rng.randint(-1, 6))
        elif w == "isit":
            e = (rng.sample(["int", "str", "dict", "list", "none", "Mapping", "Exception"], rng.randint(0, 3)), rng.choice(vals + [True]))
        else:
            e = rng.choice(vals)
        yield (w, behave(), a, k, e)
