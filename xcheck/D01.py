from lib import *
import inspect, types, sys
from dustgoggles.dynamic import exc_report
RULE = "exceptions raised through random stacks of functions, methods, lambdas, generators, comprehensions and exec'd code (with and without resolvable modules), depth 0 to 150; compared with an independent walk of the traceback"
ns_anon = {}
exec(compile("def anon(go):\n    return go()\n\n\ndef anon2(go):\n    x = 1\n    return go()\n", "<nowhere>", "exec"), ns_anon)
ns_empty = {"__name__": "no_such_module"}
exec(compile("def empty(go):\n    return go()\n", "", "exec"), ns_empty)


def plain(go):
    return go()


class K:
    def method(self, go):
        return go()

    @staticmethod
    def static(go):
        return (lambda: go())()

    class Inner:
        def m(self, go):
            return [go() for _ in range(1)]


def gen(go):
    def g():
        yield go()
    return next(g())


def rethrow(go):
    try:
        return go()
    except Exception as ex:
        raise ex


def chained(go):
    try:
        return go()
    except Exception as ex:
        raise ValueError("chained") from ex


def viamap(go):
    return list(map(lambda _: go(), [1]))


class Falsy(RuntimeError):
    def __bool__(self):
        return False


class Sized(LookupError):
    def __len__(self):
        return 0

    def __str__(self):
        return ""


def multi(go):
    x = [1,
         2]
    return (
        go()
        or x
    )


def deco(f):
    def inner(*a):
        return f(*a)
    return inner


@deco
def decorated(go):
    return go()


def classbody(go):
    class C:
        x = go()
    return C


def finallyd(go):
    try:
        return go()
    finally:
        len("x")


def withd(go):
    import contextlib
    with contextlib.suppress(ZeroDivisionError):
        return go()


def coro(go):
    async def c():
        return go()
    c = c()
    try:
        c.send(None)
    except StopIteration as ex:
        return ex.value


def recurse(n):
    return lambda go: recurse(n - 1)(go) if n else go()


def again(go):
    try:
        return go()
    except Exception as ex:
        e = ex
    for _ in range(2):
        try:
            raise e
        except Exception as ex:
            e = ex
    raise e


def sortkey(go):
    return sorted([1, 2], key=lambda _: go())


ns_builtin = {"__name__": "builtins"}
exec(compile("def inb(go):\n\n\n    return go()\n", "<string>", "exec"), ns_builtin)
ns_json = {"__name__": "json"}
exec(compile("def inj(go):\n    return go()\n", __import__("json").__file__, "exec"), ns_json)

KIND = {"multi": multi, "decorated": decorated, "class": classbody, "finally": finallyd, "with": withd, "coro": coro, "rec60": recurse(60), "again": again,
        "sort": sortkey, "inb": ns_builtin["inb"], "inj": ns_json["inj"], "evald": lambda go: eval("go()", {"go": go}),"plain": plain, "method": K().method, "static": K.static, "inner": K.Inner().m, "gen": gen, "rethrow": rethrow, "chained": chained,
        "map": viamap, "anon": ns_anon["anon"], "anon2": ns_anon["anon2"], "empty": ns_empty["empty"], "lambda": lambda go: go()}
EX = {"ValueError": ValueError("bad"), "KeyError": KeyError("k"), "Empty": RuntimeError(), "Uni": OSError(2, "nö"), "KI": KeyboardInterrupt(), "Multi": ValueError(1, "two"),
      "Falsy": Falsy("x"), "Sized": Sized(), "Grp": ExceptionGroup("g", [ValueError(1)]), "SE": SystemExit(0), "None": KeyError(None), "SI": StopIteration(3)}


def run_case(desc):
    stack, ex, mode = desc
    if ex is None:
        check(exc_report(None) == {} and exc_report(None, False) == {}, "report of nothing", exc_report(None))
        return
    e = type(EX[ex])(*EX[ex].args)
    if stack is not None:
        def bottom():
            raise e
        go = bottom
        for s in stack:
            go = (lambda f, g: (lambda: f(g)))(KIND[s], go)
        try:
            go()
        except BaseException as err:
            e = err
    exp = []
    tb = e.__traceback__
    while tb is not None:
        fr = tb.tb_frame
        mod = inspect.getmodule(fr)
        exp.append((tb.tb_lineno, f"{mod.__name__}.{fr.f_code.co_qualname}" if mod is not None else fr.f_code.co_name, fr.f_code.co_filename))
        tb = tb.tb_next
    rep = exc_report(e) if mode == "default" else exc_report(e, mode) if mode in (True, False) else exc_report(e, stringify_exception=(mode == "kwTrue"))
    text = mode in ("default", True, "kwTrue")
    check(isinstance(rep, dict), rep)
    if text:
        check(rep["exception"] == f"{type(e)}: {e}", "exception field", rep["exception"])
    else:
        check(rep["exception"] is e, "exception field", rep["exception"])
    got = list(zip(rep["lineno"], rep["name"], rep["filename"]))
    check(len(rep["lineno"]) == len(rep["name"]) == len(rep["filename"]) == len(exp), "lengths", len(rep["lineno"]), len(rep["name"]), len(rep["filename"]), "expected", len(exp))
    check(got == exp, "frames", got, "expected", exp)


def cases(rng, tier):
    yield (None, None, None)
    for ex in sorted(EX):
        for m in ("default", True, False, "kwTrue", "kwFalse"):
            yield (None, ex, m)
            yield ((), ex, m)
    for k in sorted(KIND):
        yield ((k,), "ValueError", "default")
        yield ((k, k), "ValueError", False)
        for k2 in sorted(KIND):
            yield ((k, k2, "plain"), "KeyError", "default")
    yield (("rec60",) * 7, "ValueError", "default")
    yield (("rec60",) * 4, "Falsy", False)
    for n in (10, 50, 150):
        yield (("plain",) * n, "ValueError", "default")
    for _ in range(300 if tier == "quick" else 3000):
        yield (tuple(rng.choice(sorted(KIND)) for _ in range(rng.randint(0, 12))), rng.choice(sorted(EX)), rng.choice(["default", True, False, "kwTrue", "kwFalse"]))
