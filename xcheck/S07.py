from lib import *
from dustgoggles.structures import unnest
RULE = "random nestings with keys that contain underscores or the escape string, colliding flat names, empty nested mappings; escapes '', quotes and longer strings; several nesting-type tuples"
MT = {"default": None, "dict": (dict,), "Mapping": (Mapping,), "MM": (MutMap,), "OD": (OrderedDict,), "dict+MM": (dict, MutMap)}


def oracle(m, mt, esc, path):
    out = []
    for k, v in m.items():
        if isinstance(v, mt):
            out += oracle(v, mt, esc, path + [k])
        else:
            name = "".join(f"{esc}{p}{esc}_" for p in map(str, path)) + str(k)
            out.append((name, v))
    return out


def run_case(desc):
    tree_d, esc, mt = desc
    m = build_sharing(tree_d)
    mts = MT[mt] or (dict,)
    if not isinstance(m, mts):
        return
    s = snapshot(m)
    kw = {}
    if MT[mt] is not None:
        kw["mtypes"] = mts
    if esc != "":
        kw["escape"] = esc
    want = dict(oracle(m, mts, esc, []))
    got = unnest(m, **kw)
    same(m, s, "input after unnesting")
    check(type(got) is dict, type(got))
    check(list(got) == list(want), "keys", list(got), "expected", list(want))
    for k in want:
        check(got[k] is want[k] or deep_same(got[k], want[k]), "value of", k, "got", got[k], "expected", want[k])


def cases(rng, tier):
    keys = ["a", "b", "a_b", "b_a", "", "_", 1, 2, None, (1,), "'x'", "\"", "a\"_", 1.5, "c"]
    for depth in range(0, 7):
        d = ("dict", [("leaf", 1), ("b", 2)])
        for i in range(depth):
            d = ("dict", [("t", i), (f"k{i}", d), (i, 5)])
        for esc in ("", "\"", "'", "_", "<>"):
            yield (d, esc, "default")
    wide = [(f"k{i}", ("dict", [("a", i), ("b_" * (i % 3), ("dict", [(i, None)]))]) if i % 7 == 3 else i % 5) for i in range(300)]
    d = ("dict", [("z", None)])
    for i in range(80):
        d = ("dict", [("e", ("dict", [])), (f"n{i % 3}", d), (i, i)])
    for esc in ("", "\"", "_"):
        yield (("dict", wide), esc, "default")
        yield (d, esc, "default")
        for k in (0, None, False, "", (), 1.0, True):
            yield (("dict", [(k, ("dict", [(k, k if not isinstance(k, tuple) else 5), ("t", ("dict", [(k, 1)]))])), ("u", 0)]), esc, "default")
            yield (("dict", [("a", ("dict", [(k, 1)])), (f"{esc}a{esc}_{k}", 2)]), esc, "default")
            yield (("dict", [(f"{esc}a{esc}_{k}", 2), ("a", ("dict", [(k, 1)]))]), esc, "default")
    for _ in range(2500 if tier == "quick" else 25000):
        yield (rand_nested(rng, rng.randint(0, 4), 4, rng.choice([("dict",), ("dict", "OrderedDict", "MutMap", "FrozenMap")]),
                           keys=keys, p_nest=.6),
               rng.choice(["", "", "\"", "'", "_", "ab", "\""]), rng.choice(sorted(MT)) if rng.random() < .5 else "default")
