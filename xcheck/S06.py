from lib import *
from dustgoggles.structures import to_records
RULE = "random mappings of mappings of even and uneven depth, several mapping types, default or explicit level names (lists, tuples, iterators); non-empty mappings only"


def rand_rec(rng, types):
    n = rng.randint(1, 3)
    ks = rng.sample(["p", "q", "r", "l1", 7, None, 2], n)
    vals = [rng.choice([0, 1, "v", None, [1], (2,)]) for _ in ks]
    return ("dict", list(zip(ks, vals)))


def rand_tree(rng, depth, types, mixed):
    """depth = levels above the innermost mappings"""
    n = rng.randint(1, 3)
    ks = []
    for k in rng.sample(KEYS, n):
        if not any(k == o for o in ks):
            ks.append(k)
    items = []
    for k in ks:
        if depth <= 1 or (mixed and rng.random() < .4):
            rec = rand_rec(rng, types)
            if mixed and rng.random() < .3:
                rec[1].append(("sub", ("dict", [("z", 1)])))
                rng.shuffle(rec[1])
            items.append((k, rec))
        else:
            items.append((k, rand_tree(rng, depth - 1, types, mixed)))
    return (rng.choice(types), items)


def depth_of(m):
    """levels above the innermost mappings"""
    return 1 + max((depth_of(v) if all(isinstance(x, Mapping) for x in v.values()) else 0) for v in m.values())


def oracle(m, names, path):
    out = []
    for k, v in m.items():
        p = path + [k]
        if all(isinstance(x, Mapping) for x in v.values()):
            out += oracle(v, names, p)
        else:
            rec = dict(v)
            for name, cat in zip(names, p):
                rec[name] = cat
            out.append(rec)
    return out


def run_case(desc):
    tree_d, mode, extra = desc
    m = build_sharing(tree_d)
    s = snapshot(m)
    d = depth_of(m)
    if mode == "default":
        names, arg = list(range(1, d + 1)), None
        got = to_records(m)
    else:
        names = [f"l{i}" if i % 2 == 0 else ("L", i) for i in range(d + extra)]
        arg = {"list": list(names), "tuple": tuple(names), "iter": iter(list(names))}[mode]
        got = to_records(m, level_names=arg)
        if mode == "list":
            check(arg == names, "level names were modified")
    want = oracle(m, names, [])
    check(isinstance(got, list) and len(got) == len(want), "got", got, "expected", want)
    for g, w in zip(got, want):
        check(isinstance(g, Mapping) and dict(g) == w, "record", g, "expected", w)
        check(all(type(g[k]) is type(w[k]) for k in w), "record", g, "expected", w)
    same(m, s, "input after flattening")
    check(all(g is not h for i, g in enumerate(got) for h in got[:i]), "records are shared")


def cases(rng, tier):
    for depth in range(1, 7):
        for mode in ("default", "list", "tuple", "iter"):
            d = ("dict", [("p", 1)])
            for i in range(depth):
                d = ("dict", [(f"k{i}", d), (f"j{i}", d), (f"h{i}", d)])
            yield (d, mode, 0)
    for w, mode in ((200, "default"), (200, "list")):
        rec = lambda i: ("dict", [("p", i), ("q", None), (1, 0), ("l1", "")])
        yield (("dict", [(f"k{i}", rec(i)) for i in range(w)]), mode, 0)
        yield (("dict", [(f"k{i}", ("dict", [(j, rec(j)) for j in range(i % 4 + 1)])) for i in range(w // 3)]), mode, 1)
    d = ("dict", [("p", 1)])
    for i in range(40):
        d = ("dict", [(f"k{i}", d)])
    for mode in ("default", "list", "iter"):
        yield (d, mode, 0)
        yield (("dict", [(0, ("dict", [(None, ("dict", [("", 0), ("p", None)])), ("", ("dict", [(0, "")]))])), (False or "f", ("dict", [("", ("dict", [("p", 0)]))]))]), mode, 0)
    for _ in range(1500 if tier == "quick" else 15000):
        yield (rand_tree(rng, rng.randint(1, 5), rng.choice([("dict",), ("dict", "OrderedDict", "MutMap", "DictSub", "OddDict")]),
                         rng.random() < .6), rng.choice(["default", "default", "list", "tuple", "iter"]), rng.randint(0, 2))
