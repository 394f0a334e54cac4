from lib import *
from dustgoggles.structures import rmerge
import itertools
RULE = "all pairs of small two-level dicts plus random pairs of nested mappings of several types with overlapping keys; four nesting-type tuples"
MT = {"default": None, "dict": (dict,), "MM": (MutMap,), "dict+MM": (dict, MutMap), "Mapping": (Mapping,), "OD": (OrderedDict,), "none": ()}


def oracle(a, b, mt):
    out = {}
    for k in a:
        if k not in b:
            out[k] = a[k]
        elif isinstance(a[k], mt) and isinstance(b[k], mt):
            out[k] = oracle(a[k], b[k], mt)
        else:
            out[k] = b[k]
    for k in b:
        if k not in a:
            out[k] = b[k]
    return out


def eq_unordered(a, b, what):
    check(type(a) is type(b), what, "got", a, "expected", b)
    if isinstance(b, Mapping):
        check(len(a) == len(b) and set(a) == set(b), what, "got", a, "expected", b)
        for k in b:
            eq_unordered(a[k], b[k], what)
    else:
        check(deep_same(a, b), what, "got", a, "expected", b)


def leaves_kept(got, a, b, mt):
    for k in got:
        if k in a and k in b and isinstance(a[k], mt) and isinstance(b[k], mt):
            leaves_kept(got[k], a[k], b[k], mt)
        elif k in b:
            check(got[k] is b[k], "value at", k, "is not the second mapping's own")
        else:
            check(got[k] is a[k], "value at", k, "is not the first mapping's own")


def run_case(desc):
    da, db, mt = desc
    a, b = build_sharing(da), build_sharing(db)
    sa, sb = snapshot(a), snapshot(b)
    mts = MT[mt] or ((dict, OrderedDict) if mt == "default" else ())
    want = oracle(a, b, mts)
    got = rmerge(a, b) if MT[mt] is None else rmerge(a, b, mts)
    eq_unordered(got, want, "merged")
    leaves_kept(got, a, b, mts)
    same(a, sa, "first input after merging")
    same(b, sb, "second input after merging")
    check(got is not a and got is not b, "the result is one of the inputs")


def cases(rng, tier):
    inner = [1, None, ("dict", []), ("dict", [("x", 1)]), ("dict", [("x", 2), ("y", 3)])]
    small = [("dict", list(zip(ks, vs))) for n in range(3) for ks in (["a", "b"][:n], ["b", "a"][:n])
             for vs in itertools.product(inner, repeat=n)]
    for a, b in itertools.product(small[::2], small[::3]):
        yield (a, b, "default")
    for x, y in itertools.product([1, True, 1.0, 0, False, None, "", (), ("dict", [])], repeat=2):
        yield (("dict", [("k", x), ("m", ("dict", [("n", y), ("o", x)]))]), ("dict", [("k", y), ("m", ("dict", [("o", y)]))]), "default")
        if not isinstance(x, tuple) and not isinstance(y, tuple):
            yield (("dict", [(x, 1)]), ("dict", [(y, 2), ("q", ("dict", [(x, 3)]))]), "default")
            yield (("dict", [(x, ("dict", [(y, 1)]))]), ("dict", [(y, ("dict", [(x, 2)]))]), "default")
    wide = lambda off: [(f"k{i}", ("dict", [("a", i + off), (i, off)]) if i % 7 == 3 else i + off) for i in range(off, 250 + off)]
    def chain(n, leaf):
        d = ("dict", leaf)
        for i in range(n):
            d = ("dict", [(f"s{leaf[0][1]}", i), ("n", d), ("v", leaf[0][1])])
        return d
    for mt in MT:
        yield (("dict", wide(0)), ("dict", wide(40)), mt)
        yield (("OrderedDict", wide(5)), ("dict", wide(0)), mt)
        yield (chain(10, [("x", 1)]), chain(10, [("x", 2)]), mt)
        yield (chain(9, [("x", 1), ("y", 1)]), chain(8, [("x", 2)]), mt)
    types = ("dict", "OrderedDict", "MutMap", "DictSub", "FrozenMap", "OddDict")
    for _ in range(2500 if tier == "quick" else 30000):
        ks = rng.sample(KEYS, 5)
        ty = rng.choice([("dict",), types])
        d = rng.randint(0, 5)
        mk = lambda: rand_nested(rng, d, 4, ty, keys=ks, p_nest=rng.choice([.4, .8]))
        yield (mk(), mk(), rng.choice(sorted(MT)) if rng.random() < .6 else "default")
