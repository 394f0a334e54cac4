from lib import *
from collections import namedtuple
from dustgoggles.structures import get_from, getitemattr
from dustgoggles import structures as st
RULE = "random nestings of dicts, lists, tuples, named tuples and attribute objects with random paths (present, missing, out of range, wrong type, negative, unhashable); oracle resolves item first, then attribute"
NT = namedtuple("NT", ["a", "b"])
DEF = object()


class Box:
    def __init__(self, **k):
        self.__dict__.update(k)

    def __repr__(self):
        return f"Box({self.__dict__})"


class Prop:
    """attributes that are computed, or refuse"""
    def __init__(self, inner):
        self.__dict__["inner"] = inner

    @property
    def a(self):
        return self.inner

    @property
    def b(self):
        raise AttributeError("not now")

    def __getattr__(self, name):
        if name.startswith("dyn"):
            return [name]
        raise AttributeError(name)

    def __eq__(self, o):
        return isinstance(o, Prop) and deep_same(self.inner, o.inner)


class LenZero(list):
    """a list that is falsy and has attributes"""
    def __len__(self):
        return 0


class Both(dict):
    """has items and attributes of the same names"""


def mk(d):
    kind, items = d
    if kind == "leaf":
        return items
    if kind == "dict":
        return {k: mk(v) for k, v in items}
    if kind == "list":
        return [mk(v) for _, v in items]
    if kind == "tuple":
        return tuple(mk(v) for _, v in items)
    if kind == "nt":
        vs = [mk(v) for _, v in items][:2]
        return NT(*(vs + [0, 0])[:2])
    if kind == "box":
        return Box(**{str(k): mk(v) for k, v in items if isinstance(k, str) and k.isidentifier()})
    if kind == "both":
        b = Both({k: mk(v) for k, v in items})
        b.a, b.extra = "attr a", "attr extra"
        return b
    if kind == "prop":
        return Prop(mk(items[0][1]) if items else None)
    if kind == "lz":
        z = LenZero([mk(v) for _, v in items])
        z.a, z.extra = None, {"a": 0}
        return z
    if kind == "dd":
        return defaultdict(lambda: "made", {k: mk(v) for k, v in items})
    if kind == "fm":
        return FrozenMap({k: mk(v) for k, v in items})


def resolve(coll, path):
    """(found, value)"""
    level = coll
    for key in path:
        try:
            level = level[key]
            continue
        except (KeyError, IndexError, TypeError):
            pass
        if not isinstance(key, str) or not hasattr(level, key):
            return False, None
        level = getattr(level, key)
    return True, level


def agree(a, b):
    """the same value; methods are looked up anew each time"""
    if a is b or deep_same(a, b):
        return True
    return type(a) is type(b) and callable(a) and hasattr(a, "__self__") and a.__name__ == b.__name__ and deep_same(a.__self__, b.__self__)


def hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def run_case(desc):
    d, paths = desc
    coll = mk(d)
    for path in paths:
        path = tuple(fresh(k) for k in path)
        found, want = resolve(coll, path)
        for d in (None, 0, "", [], KeyError("x"), False):
            got = get_from(coll, list(path), d)
            check((agree(got, want)) if found else got is d, "path", path, "default", d, "got", got, "expected", want if found else d)
        got = get_from(coll, keys=dict.fromkeys(path) if all(map(hashable, path)) and len(dict.fromkeys(path)) == len(path) else path, default=DEF)
        check((agree(got, want)) if found else got is DEF, "path", path, "got", got, "expected", want if found else "the default")
        for cont in (list(path), tuple(path), iter(list(path))):
            got = get_from(coll, cont, DEF)
            if found:
                check(agree(got, want), "path", path, "got", got, "expected", want)
            else:
                check(got is DEF, "path", path, "got", got, "expected the default")
        got = get_from(coll, path)
        if found:
            check(agree(got, want), "path", path, "got", got, "expected", want)
        else:
            check(got is None, "path", path, "got", got, "expected None")


def cases(rng, tier):
    kinds = ["dict", "list", "tuple", "nt", "box", "both", "fm", "dict", "dict", "prop", "lz"]
    keys = ["a", "b", "extra", "keys", 0, 1, -1, 2, 5, None, (1,), "zz", 1.5, "upper", b"a", -9, True, "__class__", "real", "__len__", "__doc__", "imag", "dyn", "inner", "", 0.0, 1.0, False, 10**20, "append", "is_integer"]

    def tree(depth):
        if depth == 0 or rng.random() < .2:
            return ("leaf", rng.choice([0, 1, None, "str", "", 2.5, True, False]))
        ks = []
        for k in rng.sample(["a", "b", 0, 1, None, (1,), "extra", 2], rng.randint(0, 4)):
            ks.append(k)
        return (rng.choice(kinds), [(k, tree(depth - 1)) for k in ks])
    yield (("dict", []), [(), ("a",), (0,), (None,), ([],)])
    yield (("list", []), [(), ("a",), (0,), (-1,), ({},), (slice(0, 0).start,)])
    for v in (None, 0, 1, True, False, "", "s", 2.5, 0.0, (), b""):
        for a in ("__class__", "real", "imag", "upper", "__len__", "zz", 0, -1, None, True, "__doc__"):
            yield (("dict", [("a", ("leaf", v))]), [("a",), ("a", a), ("a", a, "__class__"), ("a", a, "zz"), (a,)])
            yield (("leaf", v), [(), (a,), (a, "__class__"), (a, a)])
    for depth in (8, 50, 300):
        t, p = ("leaf", "end"), []
        for i in range(depth):
            kind = ["dict", "list", "box", "nt", "both", "fm"][i % 6]
            if kind in ("dict", "box", "both", "fm"):
                t, k = (kind, [("z", ("leaf", i)), ("b", t)]), "b"
            else:
                t, k = (kind, [(0, ("leaf", None)), (1, t)]), (1 if i % 2 else -1)
            p.insert(0, k)
        yield (t, [tuple(p), tuple(p[:-1]), tuple(p) + ("zz",), tuple(p) + ("__class__",), tuple(p[:-1]) + ("qq",)])
    yield (("dict", [(i, ("leaf", i * 1000)) for i in range(3000)]), [(2999,), (3000,), (500.0,), (True,)])
    yield (("list", [(i, ("leaf", i * 1000)) for i in range(3000)]), [(2999,), (3000,), (-3000,), (-3001,), (True,), (1.0,)])
    for _ in range(2500 if tier == "quick" else 25000):
        t = tree(rng.randint(1, 4))
        paths = [tuple(rng.choice(keys) for _ in range(rng.randint(0, 4))) for _ in range(4)]
        # paths that follow the tree, then maybe go wrong
        for _ in range(4):
            node, p = t, []
            while node[0] != "leaf" and node[1] and rng.random() < .85:
                i = rng.randrange(len(node[1]))
                k, child = node[1][i]
                if node[0] in ("list", "tuple"):
                    k = rng.choice([i, i - len(node[1])])
                elif node[0] == "nt":
                    if i > 1:
                        break
                    k = rng.choice([i, "ab"[i]])
                p.append(k)
                node = child
            if rng.random() < .4:
                p.append(rng.choice(keys))
            paths.append(tuple(p))
        if rng.random() < .1:
            paths.append(([1],))
        yield (t, paths)
