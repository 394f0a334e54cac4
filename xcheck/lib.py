import zlib
"""Helpers shared by the cross-check modules: no code from the repository."""
from collections import OrderedDict, UserDict, defaultdict
from collections.abc import Mapping, MutableMapping
import copy


class Fail(Exception):
    pass


def check(cond, *msg):
    if not cond:
        raise Fail(" ".join(str(m) for m in msg)[:1500])


def same(a, b, what):
    """equality including type, order of dicts, identity irrelevant"""
    if not deep_same(a, b):
        raise Fail(f"{what}: got {a!r}, expected {b!r}"[:1500])


def deep_same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Mapping):
        return (len(a) == len(b)
                and all(deep_same(x, y) for x, y in zip(a.keys(), b.keys()))
                and all(deep_same(a[k], b[k]) for k in a.keys()))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(deep_same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and a != a:
        return b != b
    try:
        return bool(a == b)
    except Exception:
        return False


class FrozenMap(Mapping):
    """a Mapping that is not a dict"""
    def __init__(self, *a, **k):
        self._d = dict(*a, **k)

    def __getitem__(self, k):
        return self._d[k]

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def __repr__(self):
        return f"FrozenMap({self._d!r})"

    def __or__(self, other):
        return FrozenMap(self._d | dict(other))

    def copy(self):
        return FrozenMap(self._d)


class MutMap(MutableMapping):
    """a MutableMapping that is not a dict"""
    def __init__(self, *a, **k):
        self._d = dict(*a, **k)

    def __getitem__(self, k):
        return self._d[k]

    def __setitem__(self, k, v):
        self._d[k] = v

    def __delitem__(self, k):
        del self._d[k]

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def __repr__(self):
        return f"MutMap({self._d!r})"


class DictSub(dict):
    pass


class OddDict(dict):
    """a mapping that is false even when it has items"""
    def __bool__(self):
        return False


MAPTYPES = {"dict": dict, "OrderedDict": OrderedDict, "MutMap": MutMap, "FrozenMap": FrozenMap,
            "DictSub": DictSub, "OddDict": OddDict}

# nested mapping descriptions: ("T", [(key, desc), ...]) with T in MAPTYPES, else a leaf literal


def is_node(d):
    return isinstance(d, tuple) and len(d) == 2 and isinstance(d[0], str) and d[0] in MAPTYPES \
        and isinstance(d[1], list)


def build(d, types=MAPTYPES):
    if is_node(d):
        return types[d[0]]([(k, build(v, types)) for k, v in d[1]])
    return d


def build_sharing(d):
    """like build; for every other description, equal parts are one object met at several places"""
    if zlib.crc32(repr(d).encode()) & 1:
        return build(d)
    seen = {}

    def go(d):
        if not is_node(d):
            return d
        k = repr(d)
        if k not in seen:
            seen[k] = MAPTYPES[d[0]]([(q, go(v)) for q, v in d[1]])
        return seen[k]
    return go(d)


def rand_leaf(rng):
    return rng.choice([0, 1, 2, 3, -1, "", "a", "b", "x", None, True, False, 1.5, (1, 2), [1], [], "key",
                       ("a", 1), 0, 1, "a"])


KEYS = ["a", "b", "c", 0, 1, 2, "x", "", None, (1, "a"), 1.5, "key", "a_b", True]


def rand_nested(rng, depth, width, types=("dict",), leaf=rand_leaf, keys=KEYS, p_nest=0.5, min_width=0):
    n = rng.randint(min_width, width)
    ks = []
    for k in rng.sample(keys, min(n, len(keys))):
        if not any(k == o for o in ks):
            ks.append(k)
    items = []
    for k in ks:
        if depth > 0 and rng.random() < p_nest:
            items.append((k, rand_nested(rng, depth - 1, width, types, leaf, keys, p_nest, min_width)))
        else:
            items.append((k, leaf(rng)))
    return (rng.choice(types), items)


def snapshot(obj):
    """deep structural copy for later comparison; keeps types"""
    return copy.deepcopy(obj)


def fresh(x):
    """an equal value that is another object, where there is one"""
    if isinstance(x, bool) or x is None:
        return x
    if type(x) is tuple:
        return tuple([fresh(i) for i in x])
    if type(x) is str:
        return "".join(list(x))
    if type(x) is int:
        return int(str(x))
    if type(x) is float:
        return float(repr(x))
    if type(x) is bytes:
        return bytes(bytearray(x))
    return x
