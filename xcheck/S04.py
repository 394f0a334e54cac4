from lib import *
from dustgoggles.structures import NestingDict
RULE = "random sequences of chained assignments/reads/conversions on one NestingDict, compared with a plain nested dict built independently"


def no_nesting(d, where=()):
    check(type(d) is not NestingDict, "an auto-nesting dictionary remains at", where)
    if isinstance(d, Mapping):
        for k, v in d.items():
            no_nesting(v, where + (k,))


def plain(d):
    return {k: plain(v) if isinstance(v, NestingDict) else v for k, v in d.items()}


def run_case(desc):
    nd, model = NestingDict(), {}
    check(nd == {} and type(nd) is NestingDict, "a new one is empty")
    for op in desc:
        if op[0] == "set":
            node, m = nd, model
            ok = True
            for k in op[1][:-1]:
                if k in m and not isinstance(m[k], dict):
                    ok = False
                    break
                m = m.setdefault(k, {})
                had = k in node
                old = dict.get(node, k)
                node = node[k]
                check(type(node) is NestingDict, "indexing a chain did not give an auto-nesting dictionary", op)
                if had:
                    check(node is old, "an existing entry was replaced", op)
            if ok:
                node[op[1][-1]] = op[2]
                m[op[1][-1]] = op[2]
        elif op[0] == "get":
            node, m = nd, model
            for k in op[1]:
                if not isinstance(m, dict):
                    break
                m = m.setdefault(k, {})
                node = node[k]
                if isinstance(m, dict):
                    check(type(node) is NestingDict, "missing key did not create an auto-nesting dictionary", op)
                else:
                    check(node is m or node == m, "read", node, "expected", m)
        elif op[0] == "todict":
            same(plain(nd), model, "contents")
            target = nd
            got = target.todict()
            check(type(got) is dict, "conversion gave", type(got))
            no_nesting(got)
            same(got, model, "converted")
            # start over from the model: conversion may modify lower levels
            nd = NestingDict()

            def refill(n, m):
                for k, v in m.items():
                    if isinstance(v, dict):
                        n[k] = NestingDict() if rng_flag else n[k]
                        refill(n[k], v)
                    else:
                        n[k] = v
            rng_flag = len(model) % 2 == 0
            refill(nd, model)
    same(plain(nd), model, "contents")
    got = nd.todict()
    no_nesting(got)
    same(got, model, "converted")


def cases(rng, tier):
    for d in range(0, 9):
        yield [("set", list(range(d + 1)), "leaf")]
        yield [("get", list(range(d + 1)))]
        yield [("set", ["k"] * (d + 1), d), ("todict",)]
    yield [("set", [i % 4 for i in range(100)], "leaf")]
    yield [("set", [f"k{i}", i % 3], i) for i in range(300)] + [("get", ["k7", 9, 9]), ("todict",)]
    yield [("set", ["w", i, i], i) for i in range(2500)] + [("todict",)]
    for k in (0, None, False, "", (), 0.0, True, 1):
        yield [("set", [k, k], k), ("get", [k]), ("get", ["x", k]), ("todict",), ("set", [k, "y"], None), ("get", [1])]
    leaf = lambda: rng.choice([0, 1, None, "s", "", (1, 2), [1], 2.5])
    for _ in range(1500 if tier == "quick" else 15000):
        keys = rng.sample(KEYS, 3)
        ops = []
        for _ in range(rng.randint(1, 10)):
            path = [rng.choice(keys) for _ in range(rng.randint(1, 5))]
            ops.append(rng.choice([("set", path, leaf()), ("set", path, leaf()), ("get", path), ("todict",)]))
        yield ops
