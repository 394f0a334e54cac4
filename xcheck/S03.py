from lib import *
from dustgoggles import structures as st
import itertools
RULE = "random nestings of mutable mappings; filters on key/value/type; setters that replace leaves, wrap, convert or build new nested mappings; oracle rebuilds the expected tree recursively"
MTYPES = {"default": None, "dict": (dict,), "MM": (MutMap,), "dict+MM": (dict, MutMap), "all": (MutableMapping,), "OD": (OrderedDict,)}
FILT = {
    "true": lambda k, v: True, "false": lambda k, v: False, "key_a": lambda k, v: k == "a",
    "strkey": lambda k, v: isinstance(k, str), "one": lambda k, v: v == 1, "none": lambda k, v: v is None,
    "int": lambda k, v: isinstance(v, int), "map": lambda k, v: isinstance(v, Mapping),
    "leaf": lambda k, v: not isinstance(v, Mapping), "od": lambda k, v: isinstance(v, OrderedDict),
    "truthy": lambda k, v: v if isinstance(v, (int, str)) else 0, "big": lambda k, v: isinstance(v, int) and v > 1,
    "list": lambda k, v: isinstance(v, list),
}
SET = {
    "const": lambda k, v: 9, "none": lambda k, v: None, "pair": lambda k, v: (k, "was"),
    "inc": lambda k, v: v + 1 if isinstance(v, int) else v, "same": lambda k, v: v,
    "nest": lambda k, v: {"new": 7, "a": {"deep": 7}}, "todict": lambda k, v: dict(v) if isinstance(v, Mapping) else v,
    "tomm": lambda k, v: MutMap(v) if isinstance(v, Mapping) else MutMap({"q": 5}),
    "key": lambda k, v: k, "list": lambda k, v: [k],
    "float": lambda k, v: float(v) if isinstance(v, int) else v, "bool": lambda k, v: bool(v) if isinstance(v, (int, str)) else v,
    "odd_key": lambda k, v: {"b": 1, "x": 2, 0: 3, 1: 4}[k], "odd_value": lambda k, v: [v, v][v if isinstance(v, int) else 0], "method": lambda k, v: v.keys(),
    "empty": lambda k, v: {}, "copy": lambda k, v: type(v)(v) if isinstance(v, Mapping) else v,
}
LOOPS = {("true", "nest"), ("key_a", "nest"), ("strkey", "nest"), ("leaf", "nest"), ("big", "nest"), ("int", "nest"),
         ("truthy", "nest"), ("map", "nest"), ("true", "tomm"), ("strkey", "tomm"), ("leaf", "tomm"), ("truthy", "tomm"),
         ("int", "tomm"), ("big", "tomm")}


def oracle(node, filt, setter, mtypes):
    """new structure the edited mapping must equal"""
    items = []
    for k in list(node):
        v = node[k]
        if filt(k, v):
            v = setter(k, v)
        if isinstance(v, mtypes):
            v = oracle(v, filt, setter, mtypes)
        items.append((k, v))
    return type(node)(items)


def run_case(desc):
    tree_d, f, s, mt = desc
    mtypes = MTYPES[mt] if MTYPES[mt] is not None else (dict,)
    tree = build(tree_d)
    try:
        want = oracle(snapshot(tree), FILT[f], SET[s], mtypes)
    except Exception as ex:
        want = ex
    calls = []
    fcalls = []

    def filt(k, v):
        fcalls.append((k, v))
        return FILT[f](k, v)

    def setter(k, v):
        calls.append((k, v))
        return SET[s](k, v)
    kw = {} if MTYPES[mt] is None else {"mtypes": mtypes}
    nodes = [tree]
    inner = {}
    for k in tree:
        if isinstance(tree[k], mtypes) and not FILT[f](k, tree[k]):
            inner[k] = tree[k]
    if isinstance(want, Exception):
        try:
            st.dig_and_edit(tree, filt, setter, **kw)
        except Exception:
            return
        raise Fail(f"setter raised {want!r}: no exception got out")
    got = st.dig_and_edit(tree, filt, setter, **kw)
    check(got is tree, "the mapping passed in is not what was returned")
    same(got, want, "edited mapping")
    for k, v in inner.items():
        check(tree[k] is v, "nested mapping was replaced rather than edited in place at", k)


def cases(rng, tier):
    types = ("dict", "OrderedDict", "MutMap", "DictSub", "OddDict")
    for t in [("dict", []), ("dict", [("a", 1)]), ("dict", [("a", 1), ("b", ("dict", [("a", 1), ("c", ("dict", [("a", 1)]))]))]),
              ("dict", [("b", ("dict", [("c", ("dict", [("d", ("dict", [("a", 1)]))]))])), ("a", ("dict", [("a", ("dict", []))]))])]:
        for f in FILT:
            for s in SET:
                if (f, s) not in LOOPS:
                    yield (t, f, s, "default")
    wide = [(f"k{i}", ("dict", [("a", i), ("b", ("OrderedDict", [(i, None)]))]) if i % 7 == 3 else i % 5) for i in range(300)]
    d = ("dict", [("a", 1)])
    for i in range(100):
        d = ("dict", [("e", ("dict", [])), ("n", d), ("v", i), ("a", i % 3)])
    for t in (("dict", wide), d, ("MutMap", wide), ("dict", [(0, 0), (None, None), ("", ""), ((), ()), ("d", ("dict", [(0, False), (None, 0.0)]))])):
        for f in FILT:
            for s in SET:
                if (f, s) not in LOOPS and rng.random() < .4:
                    yield (t, f, s, rng.choice(sorted(MTYPES)))
    for i in range(2500 if tier == "quick" else 30000):
        f, s = rng.choice(sorted(FILT)), rng.choice(sorted(SET))
        if (f, s) in LOOPS:
            continue
        yield (rand_nested(rng, rng.randint(0, 4), rng.randint(0, 5), rng.choice([("dict",), types]), p_nest=.6,
                           leaf=lambda r: r.choice([0, 1, 2, 5, None, "a", "", (1,), [1], True])),
               f, s, rng.choice(sorted(MTYPES)) if rng.random() < .6 else "default")
