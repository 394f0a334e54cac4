from kcommon import *
from collections import OrderedDict
import datetime, decimal
from dustgoggles.codex import codecs
from dustgoggles.codex.memutilz import open_block, fetch_block_bytes, exists_block, delete_block
RULE = "random nested values in each codec's domain through encode/decode; random histories of memorise (with and without overwriting, values of changing size) and remember over several addresses with each codec; block primitives against a dict model"


def rand_json(rng, d):
    r = rng.random()
    if d == 0 or r < .5:
        return rng.choice([0, 1, -5, 10**30, 1.5, 1e300, None, True, False, "", "a", "ü日\u2028", "\"q\\", "\n\x00", "x" * 200, -0.0, "\ud800z", "\udcff", "\U0001f600", " a ", "\t"])
    if r < .75:
        return [rand_json(rng, d - 1) for _ in range(rng.randint(0, 4))]
    return {rng.choice(["a", "", "ü", "k k", "1", "\n"]) + str(i): rand_json(rng, d - 1) for i in range(rng.randint(0, 4))}


def rand_lit(rng, d, hashable=False):
    r = rng.random()
    if d == 0 or r < .45:
        return rng.choice([0, 1, -5, 10**30, 1.5, 1e300, None, True, False, "", "a", "ü日\u2028", "'q\"\\", "\n\x00", "\ud800z", "\udcff", "\U0001f600", " a ", b"", b"\x00\xff'", 3j, 1 + 2j, "x" * 200, -0.0,
                           "\ud800"[:0], "None", "1", "[1]"])
    if r < .6 or hashable:
        return tuple(rand_lit(rng, d - 1, hashable) for _ in range(rng.randint(0, 3)))
    if r < .75:
        return [rand_lit(rng, d - 1) for _ in range(rng.randint(0, 4))]
    if r < .85:
        return {rand_lit(rng, d - 1, True) for _ in range(rng.randint(1, 4))}
    return {rand_lit(rng, d - 1, True): rand_lit(rng, d - 1) for _ in range(rng.randint(0, 4))}


PICK = [OrderedDict([("a", 1)]), datetime.datetime(2020, 1, 2), decimal.Decimal("1.5"), frozenset([1, (2,)]), range(5), complex(1, 2), bytearray(b"x"), len, ValueError]
FAC = {"json": codecs.json_codec_factory, "ast": codecs.ast_codec_factory, "pickle": codecs.pickle_codec_factory}


def same_value(a, b):
    if isinstance(b, (set, frozenset)):
        return type(a) is type(b) and a == b and sorted(map(repr, a)) == sorted(map(repr, b))
    if isinstance(b, dict):
        return type(a) is type(b) and len(a) == len(b) and all(deep_same(x, y) for x, y in zip(sorted(a, key=repr), sorted(b, key=repr))) and all(same_value(a[k], b[k]) for k in b)
    if isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(same_value, a, b))
    if isinstance(b, float):
        return type(a) is float and repr(a) == repr(b)
    return type(a) is type(b) and a == b


def run_case(desc):
    if desc[0] == "codec":
        _, name, v = desc
        if isinstance(v, tuple) and len(v) == 2 and v[0] == "PICK":
            v = PICK[v[1]]
        enc, dec = FAC[name]()
        blob = enc(v)
        check(isinstance(blob, bytes), "encoding is", type(blob))
        got = dec(blob)
        check(same_value(got, v), "decoded", repr(got)[:300], "expected", repr(v)[:300])
        check(same_value(FAC[name]()[1](enc(v)), v), "decoded by another pair")
    elif desc[0] == "mnem":
        _, name, ops = desc
        enc, dec = FAC[name]()
        memorize, remember = codecs.generic_mnemonic_factory()
        base = fresh()
        model = {}
        try:
            for op, i, v in ops:
                addr = f"{base}_{i}"
                if op == "mem":
                    got = memorize(v, addr, True, enc)
                    check(got == addr, "memorise returned", got)
                    model[i] = v
                elif op == "memx":
                    try:
                        memorize(v, addr, False, enc)
                        check(i not in model, "overwrote a forbidden address")
                        model[i] = v
                    except FileExistsError:
                        check(i in model, "refused a free address")
                elif op == "free":
                    try:
                        delete_block(addr)
                        check(i in model, "deleted nothing")
                    except FileNotFoundError:
                        check(i not in model, "cannot delete")
                    model.pop(i, None)
                for j in range(4):
                    a = f"{base}_{j}"
                    check(exists_block(a) is (j in model), "existence of", j)
                    if j in model:
                        got = remember(a, True, dec)
                        check(same_value(got, model[j]), op, i, "remembered at", j, repr(got)[:200], "expected", repr(model[j])[:200])
                        got = remember(a, decode=dec)
                        check(same_value(got, model[j]), op, i, "remembered at", j, repr(got)[:200])
                        b = remember(a, fetch=False)
                        check(bytes(b.buf) == fetch_block_bytes(a) == enc(model[j]), "raw block at", j)
                    else:
                        try:
                            remember(a, True, dec)
                        except FileNotFoundError:
                            continue
                        raise Fail("remembered something at a free address")
        finally:
            cleanup(base)


def cases(rng, tier):
    import random as _r
    for n in (0, 1, 255, 256, 4096, 65535, 65536, 1500000):
        for name in ("json", "ast", "pickle"):
            yield ("codec", name, "é'\n" * (n // 3))
            yield ("codec", name, list(range(min(n, 70000))))
            yield ("mnem", name, [("mem", 0, "x" * n), ("mem", 1, [n]), ("memx", 0, 1), ("mem", 0, "y"), ("mem", 0, "z" * (n + 1)), ("free", 1, 0), ("memx", 1, "w" * n), ("mem", 1, None)])
    for name in ("json", "ast", "pickle"):
        for v in (None, True, False, 0, -0.0, 0.0, "", [], {}, [None], [[]], [False, 0, 0.0], {"": ""}, {"a": {"a": {}}}, 10**400, -10**400, 5e-324, 1.7976931348623157e308, 0.1 + 0.2, "\ufeffbom", "\r\n", "\u2028", "'" * 3, '"' * 3, "\\", "{x}", "%s", "\x7f\x80\x9f", "𝄞"):
            yield ("codec", name, v)
            yield ("mnem", name, [("mem", 0, v), ("mem", 1, "other"), ("memx", 0, 1), ("mem", 0, v), ("free", 0, v), ("memx", 0, v)])
        deep = []
        for _ in range(60):
            deep = [deep, 1]
        yield ("codec", name, deep)
    for v in ((), ((),), (1,), {1}, {(1, 2): {3: {4, 5}}}, b"", b"\x00" * 3000, {None: None, True: 1, 2.5: (b"x",)}, {(): ()}, -1j, 1e22j, (-1, -2.5), [(-0.0,)], {-1: -1}, {frozenset(): 1} and "fs"):
        for name in ("ast", "pickle"):
            yield ("codec", name, v)
    for i in range(len(PICK)):
        yield ("codec", "pickle", ("PICK", i))
    for _ in range(1200 if tier == "quick" else 12000):
        yield ("codec", "json", rand_json(rng, 3))
        yield ("codec", "ast", rand_lit(rng, 3))
        yield ("codec", "pickle", rand_lit(rng, 3))
    for _ in range(300 if tier == "quick" else 3000):
        name = rng.choice(sorted(FAC))
        mk = (lambda: rand_json(rng, 2)) if name == "json" else (lambda: rand_lit(rng, 2))
        yield ("mnem", name, [(rng.choice(["mem", "mem", "memx", "free"]), rng.randrange(4), mk()) for _ in range(rng.randint(1, 10))])
