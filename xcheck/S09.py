from lib import *
from collections import namedtuple, deque
from dustgoggles.structures import (reindex_mapping, enumerate_as_mapping, separate_by, get_from_all, listify,
                                    insert_after)
RULE = "random mappings, sequences and collections of several types for each helper; tests that return True, truthy non-True values, False and None"
TESTS = {"true": lambda x: True, "isstr": lambda x: isinstance(x, str), "truthy": lambda x: 1 if isinstance(x, int) else [x],
         "none": lambda x: None, "gt": lambda x: isinstance(x, int) and x > 0, "bool": lambda x: bool(x), "eq1": lambda x: x == 1, "one": lambda x: 1, "str": lambda x: "True", "in": lambda x: x in (None, "a", 2)}


class Coll:
    """a Collection that is neither a sequence nor a mapping"""
    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(self.items)

    def __contains__(self, x):
        return x in self.items


class SubList(list):
    pass


NTup = namedtuple("NTup", "x y")
SEQ = {"sublist": SubList, "deque": deque, "bytearray": lambda x: bytearray(i % 256 for i in range(len(x))),
       "keys": lambda x: dict.fromkeys(range(len(x))).keys(), "values": lambda x: dict(enumerate(x)).values(),
       "items": lambda x: dict(enumerate(x)).items(), "nt": lambda x: NTup(*(list(x) + [0, 1])[:2]), "list": list, "tuple": tuple, "str": lambda x: "".join(map(str, x)), "range": lambda x: range(len(x)),
       "coll": Coll, "bytes": lambda x: bytes(i % 256 for i in range(len(x))), "iter": iter, "gen": lambda x: (i for i in x)}


def run_case(desc):
    what, *rest = desc
    if what == "dd":
        key, = rest
        maps = [defaultdict(list, {"a": 1}), defaultdict(int), {"a": None}, OrderedDict(b=2), {"a": 0, "b": []}]
        keys0 = [list(m) for m in maps]
        got = get_from_all(key, maps, "d")
        check(len(got) == 5 and all(g == (m[key] if key in k0 else "d") or (isinstance(m, defaultdict) and key not in k0) for g, m, k0 in zip(got, maps, keys0)), "got", got)
        return
    if what == "reindex":
        m = build(rest[0])
        s = snapshot(m)
        got = reindex_mapping(m)
        check(isinstance(got, Mapping), type(got))
        check([type(k) for k in got] == [int] * len(m) and list(got) == list(range(len(m))), "keys", list(got))
        check(all(a is b for a, b in zip(got.values(), m.values())), "values", got)
        same(m, s, "input")
    elif what == "enumerate":
        kind, items = rest
        if kind == "none":
            got = enumerate_as_mapping(None)
            check(isinstance(got, Mapping) and len(got) == 0, "got", got)
            got["x"] = 1
            check(len(enumerate_as_mapping(None)) == 0, "the empty mapping is shared")
            return
        if kind == "mapping":
            m = build(items)
            s = snapshot(m)
            got = enumerate_as_mapping(m)
            check(got is m, "mapping not passed through")
            same(m, s, "input")
            return
        seq = SEQ[kind](items)
        elems = items if kind in ("iter", "gen") else list(seq)
        got = enumerate_as_mapping(seq)
        check(isinstance(got, Mapping) and list(got) == list(range(len(elems))), "keys", got)
        check(all(a is b or deep_same(a, b) for a, b in zip(got.values(), elems)), "values", got)
    elif what == "separate":
        kind, items, test = rest
        seq = SEQ[kind](items)
        elems = items if kind in ("iter", "gen") else list(seq)
        calls = []

        def ref(x):
            calls.append(x)
            return TESTS[test](x)
        got = separate_by(seq, ref)
        check(isinstance(got, tuple) and len(got) == 2, got)
        hits, misses = got
        wh = [x for x in elems if TESTS[test](x) is True]
        wm = [x for x in elems if TESTS[test](x) is not True]
        check(isinstance(hits, list) and isinstance(misses, list), got)
        check(len(hits) == len(wh) and all(a is b or deep_same(a, b) for a, b in zip(hits, wh)), "hits", hits, "expected", wh)
        check(len(misses) == len(wm) and all(a is b or deep_same(a, b) for a, b in zip(misses, wm)), "misses", misses, "expected", wm)
        check(hits is not misses, "shared")
    elif what == "getall":
        key, maps, default, form = rest
        ms = [build(m) for m in maps]
        coll = {"list": ms, "tuple": tuple(ms), "dict": {i * 2: m for i, m in enumerate(ms)}, "gen": (m for m in ms),
                "FrozenMap": FrozenMap({str(i): m for i, m in enumerate(ms)})}[form]
        s = snapshot(ms)
        got = get_from_all(fresh(key), coll) if default == "nodefault" else get_from_all(fresh(key), coll, default)
        d = None if default == "nodefault" else default
        want = [m[key] if key in m else d for m in ms]
        same(got, want, "values")
        same(ms, s, "input")
    elif what == "listify":
        kind, items = rest
        thing = {"scalar": lambda: items, "set": lambda: set(items), "dict": lambda: dict.fromkeys(items, 0),
                 **{k: (lambda k=k: SEQ[k](items)) for k in SEQ}}[kind]()
        if kind in ("scalar", "str", "iter", "gen"):
            got = listify(thing)
            check(isinstance(got, list) and len(got) == 1 and got[0] is thing, "got", got)
        else:
            want = list(thing)
            got = listify(thing)
            check(isinstance(got, list), type(got))
            check(len(got) == len(want) and all(a is b or deep_same(a, b) for a, b in zip(got, want)), "got", got, "expected", want)
    elif what == "insert":
        nk, nv, pk, md = rest
        m = build(md)
        s = snapshot(m)
        got = insert_after(nk, nv, fresh(pk), m)
        want = []
        for k in m:
            want.append((k, m[k]))
            if k == pk:
                want.append((nk, nv))
        check(isinstance(got, Mapping), type(got))
        same([tuple(i) for i in got.items()], want, "items")
        same(m, s, "input")
        check(got is not m, "the input itself was returned")


def cases(rng, tier):
    types = ("dict", "OrderedDict", "MutMap", "FrozenMap", "DictSub", "OddDict")
    yield ("enumerate", "none", None)
    for k in ("a", "b", "zz"):
        yield ("dd", k)
    big = [None, 0, "a", (1, "x"), 1.5, False, [], {}, "", 2**70] * 60
    for t in sorted(TESTS):
        yield ("separate", "list", big, t)
    for kind in sorted(SEQ):
        yield ("enumerate", kind, big)
        yield ("listify", kind, big)
    wide = ("dict", [(("k", i) if i % 3 else float(i) + .5 if i % 2 else f"key {i}", i) for i in range(700)])
    yield ("reindex", wide)
    for i in (0, 1, 5, 6, 350, 699):
        yield ("insert", "new", None, wide[1][i][0], wide)
        yield ("getall", wide[1][i][0], [wide, ("dict", []), wide], 0, "list")
    yield ("getall", "a", [("dict", [("a", v)]) for v in big] + [("dict", [])], "d", "tuple")
    one = ("dict", [(0, "zero"), (1, "one"), (2.0, "two"), ((1, 2), "t"), (10**20, "big"), ("two words", "s"), (None, "n")])
    for pk in (True, 1.0, False, 0.0, -0.0, 2, (1, 2), (True, 2.0), 10**20, 1e20, "two words", None, "None"):
        for nv in (None, False, [], "x"):
            yield ("insert", "new", nv, pk, one)
            yield ("insert", None if pk is not None else (), nv, pk, ("dict", [i for i in one[1] if i[0] is not None] if pk is not None else one[1]))
    item = lambda: rng.choice([0, 1, 2, -1, "a", "", None, True, False, (1,), 2.5, [1], "zz"])
    for i in range(2500 if tier == "quick" else 25000):
        n = rng.choice([0, 1, 2, 3, 5, 12, 12, 150])
        items = [item() for _ in range(n)]
        m = rand_nested(rng, rng.choice([0, 0, 1]), rng.choice([0, 1, 2, 5, 9]), types)
        k = i % 6
        if k == 0:
            yield ("reindex", m)
        elif k == 1:
            kind = rng.choice(["mapping"] + sorted(SEQ))
            yield ("enumerate", kind, m if kind == "mapping" else items)
        elif k == 2:
            yield ("separate", rng.choice(sorted(SEQ)), items, rng.choice(sorted(TESTS)))
        elif k == 3:
            yield ("getall", rng.choice(KEYS), [rand_nested(rng, 0, 6, ("dict", "OrderedDict", "MutMap", "FrozenMap")) for _ in range(rng.randint(0, 5))],
                   rng.choice(["nodefault", None, 0, "d", False]), rng.choice(["list", "tuple", "dict", "gen", "FrozenMap"]))
        elif k == 4:
            kind = rng.choice(["scalar", "set", "dict"] + sorted(SEQ))
            if kind == "scalar":
                yield ("listify", kind, rng.choice([0, None, 1.5, "s", "", True]))
            elif kind in ("set", "dict"):
                yield ("listify", kind, [x for x in items if not isinstance(x, list)])
            else:
                yield ("listify", kind, items)
        else:
            keys = [kk for kk, _ in m[1]]
            pk = rng.choice(keys) if keys and rng.random() < .8 else "absent"
            if pk == "new":
                continue
            yield ("insert", rng.choice(["new", 99, ("n",)]), item(), pk, m)
