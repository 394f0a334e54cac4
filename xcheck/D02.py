from lib import *
import sys, os, tempfile, importlib.util
from dustgoggles.dynamic import Dynamic, AlreadyLoadedError, UnreadyError
RULE = "random histories of call, optional/required call, load, reload, define, compile, unload over dynamics made from source (good, raising, uncompilable) or from functions, lazy or not, with and without loading on call"
SRC = {
    "echo": "def f(*a, **k):\n    return ('echo', a, tuple(sorted(k.items())))\n",
    "none": "def f(*a, **k):\n    return None\n",
    "raises": "def f(*a, **k):\n    x = a[0] if a else 0\n    if x == 'bad':\n        raise ValueError('bad')\n    if x == 'key':\n        raise KeyError('k')\n    if x == 'kbd':\n        raise KeyboardInterrupt\n    if x == 'exit':\n        raise SystemExit(3)\n    if isinstance(x, type) and issubclass(x, BaseException):\n        raise x\n    return x\n",
    "globals": "def f(*a):\n    return GLOB\n",
}


def exc_of(src, a):
    if src == "raises" and a:
        if isinstance(a[0], type) and issubclass(a[0], BaseException):
            return a[0]
        try:
            return {"bad": ValueError, "key": KeyError, "kbd": KeyboardInterrupt, "exit": SystemExit}.get(a[0])
        except TypeError:
            return None


def value_of(src, a, k, glob):
    if src == "echo":
        return ("echo", a, tuple(sorted(k.items())))
    if src == "none":
        return None
    if src == "globals":
        return glob
    return a[0] if a else 0


def target_raises(*a, **k):
    x = a[0] if a else 0
    if x == "bad":
        raise ValueError("bad")
    if x == "key":
        raise KeyError("k")
    if x == "kbd":
        raise KeyboardInterrupt
    if x == "exit":
        raise SystemExit(3)
    if isinstance(x, type) and issubclass(x, BaseException):
        raise x
    return x


def target_echo(*a, **k):
    return ("echo", a, tuple(sorted(k.items())))


def target_none(*a, **k):
    return None


GLOB = "module glob"


def target_globals(*a):
    return GLOB


FUN = {"echo": target_echo, "none": target_none, "raises": target_raises, "globals": target_globals}


class Falsy(Exception):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Odd(BaseException):
    pass


# recorded in known_findings.json
KNOWN = {"D02-defaults": ("defaults", 7)}


def run_defaults(value):
    d = Dynamic(f"def f(x={value}):\n    return x\n")
    err = got = None
    try:
        got = d()
    except TypeError as ex:
        err = ex
    check(err is None and got == value, "calling without the argument gave", got, repr(err), "expected", value)


def run_resource(steps, lazy, optional):
    """sources that do not compile, set right later; reloads after the source changed"""
    errors, fail, bad = 0, False, False
    try:
        d = Dynamic("def f(:\n", lazy=lazy, optional=optional)
    except TypeError:
        d = Dynamic.__new__(Dynamic)
        try:
            d.__init__("def f(:\n", optional=optional)
        except TypeError:
            pass
        errors, bad = 1, True
    value = None
    for op in steps:
        if op[0] == "source":
            d.source = f"def f(*a):\n    return ({op[1]!r}, 1 // len(a))\n" if op[1] is not None else "def f(:\n"
            value_ = op[1]
        elif op[0] == "load":
            old = d.func
            try:
                d.load(reload=op[1])
            except AlreadyLoadedError:
                check(old is not None and op[1] is False and d.func is old, "load refused", op)
            except TypeError:
                check(value_ is None, "load failed", op)
                errors, bad = errors + 1, True
            else:
                check(value_ is not None and (old is None or op[1] is True), "load went through", op)
                value = value_
        elif op[0] == "unload":
            d.unload()
            errors, fail, bad, value = 0, False, False, None
        elif d.func is not None:
            res = err = None
            try:
                res = d(*op[1], _optional=op[2])
            except ZeroDivisionError as ex:
                err = ex
            eff = optional if op[2] is None else op[2]
            if op[1]:
                check(res == (value, 1 // len(op[1])) and err is None, "call of the loaded source", value, "gave", res, repr(err))
            elif eff:
                check(res is None and err is None, "optional call gave", res, repr(err))
                errors, fail = errors + 1, True
                check(d.errors[-1].get("category") == "call", "last record", d.errors[-1])
            else:
                check(err is not None, "required call gave", res)
        check(len(d.errors) == errors, op, "errors", d.errors, "expected", errors)
        check(bool(d.call_fail) == fail, op, "call_fail", d.call_fail, "expected", fail)
        check(bool(d.compile_fail) == bad, op, "compile_fail", d.compile_fail, "expected", bad)


def run_case(desc):
    if desc[0] == "resource":
        return run_resource(*desc[1:])
    if desc[0] == "defaults":
        return run_defaults(desc[1])
    src, how, optional, lazy, loc, ops = desc
    glob = "given glob"
    kw = {}
    if optional != "default":
        kw["optional"] = optional
    if loc != "default":
        kw["load_on_call"] = loc
    opt = optional is True
    load_on_call = loc is not False
    if how == "source":
        d = Dynamic(SRC[src], globals_={"GLOB": glob, "__builtins__": __builtins__}, lazy=lazy, **kw)
        loaded = not lazy
    else:
        d = Dynamic.from_function(FUN[src], **kw)
        glob = GLOB
        loaded = True
    errors, call_fail = 0, False

    def state(what):
        check(len(d.errors) == errors, what, "errors", d.errors, "expected", errors)
        check(bool(d.call_fail) == call_fail, what, "call_fail", d.call_fail, "expected", call_fail)
        check(bool(d.compile_fail) is False, what, "compile_fail")
        check((d.func is not None) == loaded, what, "loaded", d.func, "expected", loaded)
        check((d.code is not None) == coded, what, "code", d.code, "expected", coded)
        check(repr(d) is not None and str(d) is not None, "repr")
    coded = loaded
    state("construction")
    for op in ops:
        err = res = None
        before = (d.func, d.code)
        try:
            if op[0] == "call":
                a, k = tuple(op[1]), dict(op[2])
                o = {} if op[3] == "default" else {"_optional": op[3]}
                res = d(*a, **k, **o)
            elif op[0] == "load":
                d.load() if op[1] is None else d.load(reload=op[1])
            elif op[0] == "unload":
                d.unload()
            elif op[0] == "compile":
                d.compile_source() if op[1] is None else d.compile_source(recompile=op[1])
            elif op[0] == "define":
                d.define() if op[1] is None else d.define(redefine=op[1])
        except BaseException as ex:
            if type(ex).__name__ == "Hang":
                raise
            err = ex
        if op[0] == "call":
            if not loaded and not load_on_call:
                check(isinstance(err, UnreadyError), "call while unloaded", repr(err), res)
                state(op)
                continue
            if not loaded and coded:
                # compiled but not defined: loading without reload is refused by the compile step
                check(isinstance(err, AlreadyLoadedError), "call after compile", repr(err))
                state(op)
                continue
            loaded = coded = True
            eff = opt if op[3] in ("default", None) else op[3]
            ex = exc_of(src, a)
            if ex is None:
                check(err is None, "call raised", repr(err))
                check(deep_same(res, value_of(src, a, k, glob)), "call returned", res, "expected", value_of(src, a, k, glob))
            elif eff and issubclass(ex, Exception):
                check(err is None and res is None, "optional call gave", res, repr(err))
                errors += 1
                call_fail = True
                check(len(d.errors) == errors, "errors after an optional failure", d.errors)
                check(d.errors[-1].get("category") == "call", "record", d.errors[-1])
                check(ex.__name__ in str(d.errors[-1].get("exception")), "record", d.errors[-1])
                check(d.errors[-1].get("func") is d.func, "record", d.errors[-1])
            else:
                check(type(err) is ex, "required call let out", repr(err), "returned", res)
        elif op[0] == "load":
            if loaded and not op[1] or (coded and not op[1]):
                check(isinstance(err, AlreadyLoadedError), "loading twice", repr(err))
                check(before == (d.func, d.code), "refused load changed something")
            else:
                check(err is None, "load raised", repr(err))
                loaded = coded = True
        elif op[0] == "unload":
            check(err is None, "unload raised", repr(err))
            loaded = coded = False
            errors, call_fail = 0, False
        elif op[0] == "compile":
            if coded and op[1] is False:
                check(isinstance(err, AlreadyLoadedError), "compiling twice", repr(err))
                check(before == (d.func, d.code), "refused compile changed something")
            else:
                check(err is None, "compile raised", repr(err))
                coded = True
        elif op[0] == "define":
            if loaded and op[1] is not True:
                check(isinstance(err, AlreadyLoadedError), "defining twice", repr(err))
                check(before == (d.func, d.code), "refused define changed something")
            elif coded:
                check(err is None, "define raised", repr(err))
                loaded = True
            else:
                check(err is not None, "defining without code succeeded")
        state(op)


def cases(rng, tier):
    args = [(), (1,), ("bad",), ("key",), ("kbd",), ("exit",), (None,), ("x", 2)]
    for src in sorted(SRC):
        for how in ("source", "function"):
            for optional in ("default", True, False):
                for a in args:
                    for o in ("default", True, False, None):
                        yield (src, how, optional, False, "default", [("call", a, (), o)] * 2 + [("unload",), ("call", a, (), o)])
    excs = [StopIteration, MemoryError, RecursionError, GeneratorExit, AssertionError, Falsy, Odd, Exception, BaseException, Warning, OSError]
    vals = [0, False, "", (), [], {}, 0.0, b"", float("inf"), ValueError("as a value"), [None]]
    for src in ("raises", "echo"):
        for how in ("source", "function"):
            for opt in ("default", True, False):
                for x in (excs if src == "raises" else []) + vals:
                    for o in ("default", True, False):
                        yield (src, how, opt, False, "default", [("call", (x,), (), o), ("call", (1,), (), "default"), ("call", (x,), (), o)])
    for lazy in (True, False):
        for opt in (True, False):
            for r in (True, False):
                yield ("resource", [("source", 1), ("load", r), ("call", (), True), ("call", (1,), None), ("source", 2), ("load", r), ("call", (1,), None), ("call", (), None), ("unload",), ("load", r), ("call", (1,), None)], lazy, opt)
    for _ in range(150 if tier == "quick" else 2000):
        steps, src = [("source", 0)], 0
        for i in range(rng.randint(2, 9)):
            r = rng.random()
            if r < .2:
                src = i if not src or rng.random() < .6 else None
                steps.append(("source", src))
            elif r < .55:
                steps.append(("load", rng.random() < .5))
                if src is None:
                    steps[-1] = ("load", False)
            elif r < .65:
                steps.append(("unload",))
            else:
                steps.append(("call", rng.choice([(), (1,), (1, 2)]), rng.choice([None, True, False])))
        yield ("resource", steps, rng.random() < .5, rng.random() < .5)
    # many failures in a row, with successes between
    for how in ("source", "function"):
        for n in (10, 60, 140, 1100):
            yield ("raises", how, True, False, "default", [("call", (rng.choice(["bad", "key", 1, None, Falsy, OSError]),), (), rng.choice(["default", True])) for _ in range(n)] + [("unload",), ("call", ("bad",), (), True)])
    for kk in ((("optional", 5),), (("optional", True), ("args", 1)), (("kwargs", 2), ("func", 3)), (("load_on_call", False),), (("source", "x"), ("name", None), ("k", 0))):
        for how in ("source", "function"):
            for o in ("default", True, False):
                yield ("echo", how, False, False, "default", [("call", (1, 2), kk, o)])
                yield ("echo", how, True, False, "default", [("unload",), ("call", (), kk, o)])
    for _ in range(1500 if tier == "quick" else 15000):
        ops = []
        for _ in range(rng.randint(1, 9)):
            r = rng.random()
            src = None
            if r < .5:
                ops.append(("call", rng.choice(args), rng.choice([(), (("k", 1),)]), rng.choice(["default", "default", True, False, None])))
            elif r < .65:
                ops.append(("unload",))
            elif r < .8:
                ops.append(("load", rng.choice([None, True, False])))
            elif r < .9:
                ops.append(("compile", rng.choice([None, True, False])))
            else:
                ops.append(("define", rng.choice([None, True, False])))
        s = rng.choice(sorted(SRC))
        if s == "globals":
            ops = [(*o[:2], (), o[3]) if o[0] == "call" else o for o in ops]
        yield (s, rng.choice(["source", "source", "function"]), rng.choice(["default", True, False]), rng.random() < .5,
               rng.choice(["default", True, False]), ops)
