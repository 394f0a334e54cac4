import itertools
from lib import *
from operator import eq, contains, ne

PREDS = {
    "true": lambda k, v: True, "false": lambda k, v: False,
    "key_a": lambda k, v: k == "a", "val_1": lambda k, v: v == 1,
    "truthy_nonbool": lambda k, v: [k] if isinstance(k, str) else [],
    "is_map": lambda k, v: isinstance(v, Mapping),
    "leafnone": lambda k, v: v is None,
    "both": lambda k, v: k == v,
    "strk": lambda k, v: isinstance(k, str) and len(k) > 0,
}
BASE = {"eq": eq, "ne": ne, "itemeq": lambda ref, k, v: ref == (k, v),
        "typ": lambda ref, x: type(ref) is type(x)}
MT = {"dict": (dict,), "default": None, "Mapping": (Mapping,), "OD": (OrderedDict,), "MM": (MutMap,),
      "dict+MM": (dict, MutMap), "none": ()}


def effective(rule):
    if rule[0] == "call":
        return PREDS[rule[1]]
    _, match, ref, base = rule
    f = BASE[base]
    if match == "key":
        return lambda k, v: f(ref, k)
    if match == "value":
        return lambda k, v: f(ref, v)
    return lambda k, v: f(ref, k, v)


def oracle(tree, pred, mtypes):
    out = [(k, tree[k]) for k in tree if pred(k, tree[k])]
    for k in tree:
        if isinstance(tree[k], mtypes):
            out.extend(oracle(tree[k], pred, mtypes))
    return out


def args_for(rule, mt):
    kw = {}
    if MT[mt] is not None:
        kw["mtypes"] = MT[mt]
    if rule[0] == "call":
        return PREDS[rule[1]], kw
    _, match, ref, base = rule
    if match != "key":
        kw["match"] = match
    if base != "eq":
        kw["base_pred"] = BASE[base]
    return ref, kw


def rules(rng):
    r = rng.random()
    if r < 0.4:
        return ("call", rng.choice(sorted(PREDS)))
    if r < 0.65:
        return ("const", "key", rng.choice(KEYS), rng.choice(["eq", "eq", "ne", "typ"]))
    if r < 0.9:
        return ("const", "value", rand_leaf(rng), rng.choice(["eq", "eq", "typ"]))
    return ("const", "item", (rng.choice(KEYS), rand_leaf(rng)), "itemeq")


def trees_small():
    """every tree of up to 2 levels over tiny keys"""
    leaves = [1, None]
    inner = [("dict", list(zip(ks, vs))) for n in range(3) for ks in itertools.permutations("ab", n)
             for vs in itertools.product(leaves, repeat=n)]
    vals = leaves + inner
    for n in range(3):
        for ks in itertools.permutations(["a", "b"], n):
            for vs in itertools.product(vals, repeat=n):
                yield ("dict", list(zip(ks, vs)))


def cases(rng, tier):
    for t in trees_small():
        for rule in (("call", "true"), ("const", "key", "a", "eq"), ("const", "value", None, "eq"),
                     ("const", "value", 1, "eq"), ("call", "is_map")):
            yield (t, rule, "default")
    # chains: deep, and siblings with the match only in a late branch
    for depth in (3, 5, 8, 40):
        for at in (0, depth // 2, depth):
            for sib in (0, 1, 3):
                d = ("dict", [("x", 1)]) if at < depth else ("dict", [("a", 5)])
                for i in reversed(range(depth)):
                    items = [(f"s{j}", ("dict", [("e", ("dict", []))])) for j in range(sib)]
                    if i == at:
                        items.append(("a", i))
                    items.append(("n", d))
                    items += [(f"t{j}", ("dict", [("a", 100 + i)])) for j in range(sib)]
                    d = ("dict", items)
                yield (d, ("const", "key", "a", "eq"), "default")
                yield (d, ("const", "key", "zz", "eq"), "default")
    # wide mappings and long chains; equal entries of different types; matches whose parts are falsy
    for w in (60, 400):
        wide = [(f"k{i}", ("dict", [("a", i), (i, None)]) if i % 7 == 3 else i % 5) for i in range(w)]
        for rule in (("const", "key", "a", "eq"), ("const", "key", f"k{w - 1}", "eq"), ("const", "value", 4, "eq"), ("const", "value", None, "eq"), ("call", "true"), ("call", "is_map")):
            yield (("dict", wide), rule, "default")
            yield (("dict", [("x", ("dict", [("y", ("dict", wide))])), ("a", 0)]), rule, "default")
    d = ("dict", [("end", None), ("a", 0)])
    for i in range(120):
        d = ("dict", [("e", ("dict", [])), ("n", d), ("v", i)])
    for rule in (("const", "key", "a", "eq"), ("const", "value", None, "eq"), ("const", "value", 0, "eq"), ("const", "key", "end", "eq"), ("call", "is_map")):
        yield (d, rule, "default")
    for falsy in (0, False, None, "", 0.0, (), ("dict", []), ("OrderedDict", [])):
        if not (isinstance(falsy, tuple) and falsy and falsy[0] in ("dict", "OrderedDict")):
            for rule in (("const", "key", falsy, "eq"), ("const", "value", falsy, "eq"), ("const", "value", falsy, "typ"), ("const", "key", falsy, "typ"), ("const", "item", (falsy, falsy), "itemeq")):
                yield (("dict", [("q", ("dict", [("p", 5), (falsy, falsy)])), ("r", 1)]), rule, "default")
                yield (("dict", [(falsy, falsy), ("r", ("dict", [(falsy, falsy), (falsy or "w", 2)]))]), rule, "default")
        else:
            for mt in ("default", "Mapping", "OD", "none"):
                yield (("dict", [("q", ("dict", [("p", falsy), ("a", 1)])), ("a", falsy)]), ("const", "key", "a", "eq"), mt)
                yield (("dict", [("q", falsy), ("a", falsy)]), ("call", "is_map"), mt)
    # the same mapping at several places
    for inner in (("dict", [("a", 1)]), ("dict", [("a", None), ("b", ("dict", [("a", 1)]))]), ("dict", [])):
        for t in (("dict", [("p", inner), ("q", inner)]), ("dict", [("p", inner), ("q", ("dict", [("r", inner), ("s", inner)])), ("t", inner)])):
            for extra in range(6):
                for rule in (("const", "key", "a", "eq"), ("const", "value", None, "eq"), ("call", "true"), ("call", "is_map")):
                    yield (("dict", t[1] + [("z", extra)]), rule, "default")
    for v in (1, True, 1.0):
        for k in (1, True, 1.0):
            yield (("dict", [("z", ("dict", [(k, v)])), (v, k), ("y", ("dict", [(2, True), (3, 1.0), (4, 1)]))]), ("const", "value", 1, "eq"), "default")
            yield (("dict", [("z", ("dict", [(k, v)])), (v, k)]), ("const", "value", k, "typ"), "default")
            yield (("dict", [("z", ("dict", [(k, v)])), (v, k)]), ("const", "key", True, "eq"), "default")
    n = 2500 if tier == "quick" else 30000
    for i in range(n):
        t = rand_nested(rng, rng.randint(0, 4), rng.randint(0, 5),
                        rng.choice([("dict",), ("dict", "OrderedDict", "MutMap", "FrozenMap", "DictSub", "OddDict")]),
                        p_nest=rng.choice([0.3, 0.6, 0.9]))
        yield (t, rules(rng), rng.choice(sorted(MT)) if rng.random() < .6 else "default")
