from lib import *
from dustgoggles.structures import HashDict
RULE = "random sequences of assignments and reads under several equivalence functions (hash, modulus, case folding, length, type, constant); model keeps a representative per class"


class V:
    """value with identity, an equivalence class and a hash"""
    def __init__(self, c, i):
        self.c, self.i = c, i

    def __hash__(self):
        return hash(self.c)

    def __eq__(self, o):
        return isinstance(o, V) and self.i == o.i

    def __bool__(self):
        return self.i % 4 != 0

    def __len__(self):
        return self.i % 2

    def __repr__(self):
        return f"V({self.c},{self.i})"

    def __deepcopy__(self, memo):
        return self


EQ = {"hash": None, "cls": lambda v: v.c, "mod": lambda v: v.i % 3, "const": lambda v: 0, "str": repr, "none": lambda v: None if v.i % 2 else v.c,
      "neg": lambda v: -(v.i % 2), "tup": lambda v: (v.c, v.i % 2)}


def run_case(desc):
    eq, ops = desc
    hd = HashDict() if EQ[eq] is None else HashDict(EQ[eq])
    cls = EQ[eq] or hash
    first, at, pool = {}, {}, {}
    for op in ops:
        if op[0] == "set":
            v = pool.setdefault(op[2], V(*op[2])) if op[2][1] % 3 == 0 else V(*op[2])
            hd[op[1]] = v
            c = cls(v)
            first.setdefault(c, v)
            at[op[1]] = c
        else:
            if op[1] in at:
                got = hd[op[1]]
                check(cls(got) == at[op[1]], "key", op[1], "returns", got, "of another class than", at[op[1]])
                check(got is first[at[op[1]]], "key", op[1], "does not return the first object of its class")
        for k, c in at.items():
            got = hd[k]
            check(got is first[c], "key", k, "returns", got, "expected", first[c])
    kept = [x for x in gc_values(hd) if isinstance(x, V)]
    ids = {id(x) for x in kept}
    check(len(ids) <= len(first), "more than one value kept per class:", kept)


def gc_values(hd):
    out = []
    for a in vars(hd).values():
        if isinstance(a, Mapping):
            out += list(a.values())
        elif isinstance(a, (list, tuple, set)):
            out += list(a)
    return out


def cases(rng, tier):
    keys = ["a", "b", "c", 0, 1, None, (1,), "d", 0.0, ""]
    for eq in sorted(EQ):
        yield (eq, [("set", i, (i % 50, i)) for i in range(150)] + [("set", i % 40, (i % 7, i)) for i in range(120)])
        for k in (0, 0.0, False, None, "", ()):
            yield (eq, [("set", k, (0, 0)), ("get", k), ("set", k, (1, 3)), ("set", "z", (0, 1)), ("set", k, (0, 2)), ("get", "z"), ("set", 0, (5, 5)), ("get", k)])
    for _ in range(2000 if tier == "quick" else 20000):
        ops, i = [], 0
        ks = rng.sample(keys, rng.randint(1, 5))
        for _ in range(rng.randint(1, 14)):
            i += 1
            if rng.random() < .75:
                ops.append(("set", rng.choice(ks), (rng.choice([0, 1, 2, "x", -1]), rng.choice([i, i, rng.randint(0, 5)]))))
            else:
                ops.append(("get", rng.choice(ks)))
        yield (rng.choice(sorted(EQ)), ops)
