from kcommon import *
import json
from dustgoggles.codex.implements import MetaTagIndex
RULE = "random histories of add with metadata, overwrite and remove over overlapping keys, one to three handles; a dict of the last metadata is the model; all keys, listings and absent keys compared after every operation"
METAS = ["k", "None", "null", "0", "a" * 70000, [None], [[]], {"": None}, 2**70, -0.0, 1e-300, {"a": {"b": {"c": [0, False, None]}}}, "\x00", '"', 1, 0, "s", "", "ünï", [1, 2, [3]], {"a": 1, "b": [None, True]}, True, False, 1.5, [], {}, "x" * 500, {"shape": [3, 4], "dtype": "<f8"}, -7]


def run_case(desc):
    nolock, nh, ops = desc
    name = fresh()
    try:
        hs = [MetaTagIndex(name, no_lockout=nolock)]
        hs += [MetaTagIndex(name, create=False, no_lockout=nolock) for _ in range(nh - 1)]
        model, used = {}, set()
        every = len(ops) % 2 == 0       # else handles keep whatever they last cached
        probe = MetaTagIndex(name, create=False, no_lockout=nolock)
        big = len(ops) > 30
        for step, (op, key, val, h) in enumerate(ops):
            if big and step % 11 and step < len(ops) - 8:
                hs[0].add(key, val) if op == "add" else hs[0].remove(key)
                used.add(str(key))
                if op == "add":
                    model[str(key)] = val
                else:
                    model.pop(str(key))
                continue
            d, s = hs[h % nh], str(key)
            used.add(s)
            if op == "add":
                d.add(key, val)
                if val is not None or s not in model:
                    model[s] = val
            elif op == "addnone":
                d.add(key)
                model.setdefault(s, None)
            else:
                try:
                    d.remove(key) if op == "remove" else d.__delitem__(key)
                    check(s in model, "removing an absent key was not refused")
                    model.pop(s)
                except KeyError:
                    check(s not in model, "removing a present key was refused")
            for i, hh in enumerate([probe] + (hs if every or step == len(ops) - 1 else [])):
                keys, vals, items = hh.keys(), hh.values(), hh.items()
                check(len(keys) == len(model) and set(keys) == set(model), op, key, "handle", i, "keys", keys, "expected", list(model))
                check(deep_same([tuple(x) for x in items], list(zip(keys, vals))), op, key, "items", items, "keys", keys, "values", vals)
                for k, v in items:
                    check(deep_same(v, model[k]), op, key, "listed metadata of", k, "is", v, "expected", model[k])
                for k in used:
                    if k in model and model[k] is not None:
                        got = hh[k]
                        got = json.loads(got) if isinstance(got, (bytes, str)) else got
                        check(deep_same(got, model[k]), op, key, "metadata of", k, "is", got, "expected", model[k])
                    elif k not in model:
                        try:
                            got = hh[k]
                        except KeyError:
                            continue
                        raise Fail(f"looking up absent {k!r} gave {got!r}")
    finally:
        cleanup(name)


def cases(rng, tier):
    for n in (1, 2, 3, 4):
        ks = [f"k{i}" for i in range(n)]
        for i in range(n):
            for vals in ([10, 11, 12, 13], [None, 11, None, 13], [10, None, 12, None], ["a" * 30, "b", "c" * 20, 7]):
                ops = [("add", k, v, 0) for k, v in zip(ks, vals)] + [("remove", ks[i], None, 0), ("add", ks[i], None, 0), ("add", ks[i], "again", 0)]
                yield (True, 1, ops)
                yield (False, 2, ops)
    ks = [f"k{i}" for i in range(40)]
    for vals in (lambda i: i, lambda i: None if i % 3 else "v" * i, lambda i: "v" * (40 - i), lambda i: {"i": i} if i % 2 else 0):
        for dels in ((0, 39, 20), (39, 38, 37, 0, 1), (5,) * 1):
            yield (True, 1, [("add", k, vals(i), 0) for i, k in enumerate(ks)] + [("remove", ks[i], None, 0) for i in dels] + [("add", ks[dels[0]], None, 0), ("add", ks[-4], "again", 0)])
    for i in range(300 if tier == "quick" else 4000):
        ks = rng.sample(ANYKEYS, rng.randint(1, 5))
        nh = rng.randint(1, 3)
        ops = [(rng.choice(["add", "add", "add", "addnone", "remove", "del"]), rng.choice(ks), rng.choice(METAS + [None]), rng.randrange(nh)) for _ in range(rng.randint(1, 12))]
        yield (rng.random() < .7, nh, ops)
