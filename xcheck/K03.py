from kcommon import *
from dustgoggles.codex.implements import Notepad
from dustgoggles.codex.codecs import json_codec_factory, ast_codec_factory
RULE = "random histories of set, set without overwriting, get, delete, clear and iteration over ordinary, colliding and reserved keys through one to three handles; a dict is the model; every used key read through every handle after every operation"
VALS = [1, 0, None, "s", "", "ünï", [1, 2, [3]], {"a": 1, (1, 2): None}, True, 1.5, (), b"bytes", "x" * 3000, {"shape": [3, 4]}, -7, frozenset([1]), range(3), 1 + 2j]
# keys that cannot be stored (they cannot name a block, or a block cannot hold them): refused, changing nothing
UNNAMEABLE = ["", "x" * 300, "a/b", "/a", "a/", "a\0b", "\ud800", "\ud800/"]
RESERVED = ["index", "index_key_0", "index_count", "index_name_x", "indexer", "index_1"]
class NoPickle:
    def __reduce__(self):
        raise RuntimeError("no")


CIRC = []
CIRC.append(CIRC)
UNSTORABLE = {"pickle": [lambda: 0, NoPickle(), [1, (i for i in "a")], {"a": [lambda: 0]}], "json": [{1, 2}, CIRC, {"a": b"x"}, {(1, 2): 3}], "ast": []}
MISSING = "no such thing"


def run_case(desc):
    codec, nh, ops = desc
    prefix = fresh()
    kw = {} if codec == "pickle" else {"codec_factory": {"json": json_codec_factory, "ast": ast_codec_factory}[codec]}
    try:
        hs = [Notepad(prefix, create=True, **kw)] + [Notepad(prefix, **kw) for _ in range(nh - 1)]
        model, used = {}, set()
        every = len(ops) % 2 == 0       # else handles keep whatever they last cached
        probe = Notepad(prefix, **kw)
        for step, (op, key, val, h) in enumerate(ops):
            d, s = hs[h % nh], str(key)
            res = s.startswith("index")
            if op != "unnameable":
                used.add(s)
            try:
                if op == "set":
                    d[key] = val
                elif op == "setm":
                    d.set(key, val)
                elif op == "setx":
                    d.set(key, val, exists_ok=False)
                elif op == "bad":
                    try:
                        if step % 2:
                            d[key] = UNSTORABLE[codec][val]
                        else:
                            d.set(key, UNSTORABLE[codec][val])
                    except KeyError:
                        check(res, "unstorable value refused with KeyError")
                    except Exception:
                        check(not res, op, key, "reserved key")
                    else:
                        raise Fail("an unstorable value was stored")
                elif op == "unnameable":
                    try:
                        d.set(key, val, exists_ok=bool(step % 2))
                    except Exception:
                        pass
                    else:
                        # should such a key become storable, it is a key like any other
                        model[s] = val
                        used.add(s)
                elif op == "del":
                    del d[key]
                elif op == "clear":
                    d.clear()
                err = None
            except KeyError as ex:
                err = ex
            if op in ("set", "setm"):
                check((err is not None) == res, op, key, "raised", repr(err))
                if not res:
                    model[s] = val
            elif op == "setx":
                check((err is not None) == (res or s in model), op, key, "raised", repr(err), "with keys", list(model))
                if err is None:
                    model[s] = val
            elif op == "del":
                check((err is not None) == (res or s not in model), op, key, "raised", repr(err), "with keys", list(model))
                if err is None:
                    del model[s]
            elif op == "clear":
                check(err is None, "clear raised", repr(err))
                model.clear()
            for i, hh in enumerate([probe] + (hs if every or step == len(ops) - 1 else [])):
                keys = list(hh.keys())
                check(len(keys) == len(model) and set(keys) == set(model), op, key, "handle", i, "keys", keys, "expected", list(model))
                check(list(hh.iterkeys()) == keys, "iterkeys")
                check(deep_same(list(hh.iteritems()), [(k, model[k]) for k in keys]), op, key, "iteritems", list(hh.iteritems()))
                check(deep_same(list(hh.itervalues()), [model[k] for k in keys]), op, key, "itervalues")
                for k in used:
                    if k in model:
                        got = hh[k]
                        check(deep_same(got, model[k]), op, key, "handle", i, "value of", k, "is", got, "expected", model[k])
                        check(deep_same(hh.get(k, MISSING), model[k]), op, key, "get of", k)
                    elif not k.startswith("index"):
                        try:
                            got = hh[k]
                        except KeyError:
                            pass
                        else:
                            raise Fail(f"{op} {key}: reading missing {k!r} gave {got!r}")
                        check(hh.get(k, MISSING) is MISSING, op, key, "get of missing", k)
                        check(hh.get(k) is None, op, key, "get of missing", k)
    finally:
        cleanup(prefix)


def cases(rng, tier):
    for c in ("pickle", "json"):
        for b in range(4):
            yield (c, 2, [("set", "a", 1, 0), ("bad", "b", b, 0), ("bad", "a", b, 1), ("setx", "b", "x", 1), ("bad", "b", b, 0), ("del", "b", None, 0), ("bad", "b", b, 1), ("bad", "index", b, 0), ("set", "b", 2, 0)])
    for u in UNNAMEABLE:
        yield ("pickle", 2, [("set", "a", 1, 0), ("unnameable", u, 5, 0), ("unnameable", u, 5, 1), ("set", "b", 2, 1), ("set", "c", 3, 0), ("unnameable", u, 6, 0),
                             ("del", "a", None, 0), ("unnameable", u, 7, 1), ("set", "a", 4, 1), ("clear", "a", 0, 0), ("set", "a", 1, 0)])
    for v in (None, 0, False, "", (), [], {}, 0.0, b""):
        yield ("pickle", 1, [("set", "a", v, 0), ("setx", "a", 1, 0), ("set", "b", v, 0), ("del", "a", None, 0), ("set", "a", v, 0), ("set", "a", "longer" * 50, 0), ("set", "a", v, 0)])
    for n in (1, 4095, 4096, 4097, 70000, 1200000):
        yield ("pickle", 2, [("set", "a", "x" * n, 0), ("set", "b", [0] * (n // 100), 1), ("set", "a", "y", 1), ("set", "a", "z" * (n + 1), 0), ("setx", "a", 0, 0), ("del", "b", None, 0)])
    yield ("pickle", 1, [("set", f"k{i}", i, 0) for i in range(30)] + [("del", f"k{i}", None, 0) for i in (0, 29, 15)] + [("set", "k0", "back", 0)])
    for v in VALS:
        yield ("pickle", 2, [("set", "a", v, 0), ("set", "b", 1, 1), ("setx", "a", 2, 0), ("set", "a", 3, 1), ("del", "a", None, 0), ("setx", "a", v, 0)])
    for r in RESERVED + [b"index", "Index", "_index", "inde", "xindex", ("index",)]:
        yield ("pickle", 1, [("set", "a", 1, 0), ("set", r, 2, 0), ("setx", r, 2, 0), ("del", r, None, 0), ("set", "b", 1, 0)])
    yield ("pickle", 2, [("set", k, i, i) for i, k in enumerate("abcdef")] + [("clear", "a", 0, 1), ("set", "a", 5, 0)])
    for i in range(250 if tier == "quick" else 3000):
        codec = rng.choice(["pickle", "pickle", "json", "ast"])
        vals = {"pickle": VALS, "json": [1, 0, None, "s", "ü", [1, [2]], {"a": None}, True, 1.5, "x" * 100], "ast": [1, None, "s\n'", (1, (2,)), {1: 2}, {3, 4}, b"\x00", [], 1.5, True]}[codec]
        ks = rng.sample(ANYKEYS, rng.randint(1, 5)) + (rng.sample(RESERVED, 1) if rng.random() < .3 else [])
        nh = rng.randint(1, 3)
        ops = [(rng.choice(["set", "set", "setm", "setx", "del", "del", "set", "clear" if rng.random() < .3 else "set"]), rng.choice(ks), rng.choice(vals), rng.randrange(nh))
               for _ in range(rng.randint(1, 10))]
        yield (codec, nh, ops)
