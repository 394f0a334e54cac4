from kcommon import *
from dustgoggles.codex.implements import TagIndex, MetaTagIndex
RULE = "random histories of add (with and without refusing), remove, check and update over overlapping key sets, through one to three handles on one name, with and without locking; model is an ordered set of strings; every present and absent key looked up after every operation"


def bulk(cls, nolock, n, removals, key):
    """many keys, looked at from time to time"""
    C = {"tag": TagIndex, "meta": MetaTagIndex}[cls]
    name = fresh()
    try:
        d, e = C(name, no_lockout=nolock), None
        e = C(name, create=False, no_lockout=nolock)
        mk = {"k": lambda i: f"k{i}", "int": lambda i: i * 1000, "neg": lambda i: -i, "tup": lambda i: ("x", i), "long": lambda i: "y" * i + "z", "uni": lambda i: "é" * (i % 7) + chr(0x4e00 + i)}[key]
        order = []

        def look(what):
            got = list(e.update())
            check(got == order, what, "lists", len(got), "keys, expected", len(order), "first difference",
                  next(((i, g, w) for i, (g, w) in enumerate(zip(got + [None], order + [None])) if g != w), None))
            for i in {0, 1, len(order) // 2, len(order) - 1, 254, 255, 256, 257, 65535} & set(range(len(order))):
                check(e.check(order[i]) == i, what, "position of", order[i], "is", e.check(order[i]), "expected", i)
        for i in range(n):
            (d if i % 3 else e).add(mk(i))
            order.append(str(mk(i)))
            if i % 97 == 0:
                look(("added", i))
        look("all added")
        for i in range(0, n, 37):
            check(d.add(mk(i)) == order.index(str(mk(i))), "adding a present key")
        look("added again")
        for j, r in enumerate(removals):
            i = r % len(order)
            k = order[i]
            (d if j % 2 else e).remove(k)
            order[i] = order[-1]
            order.pop()
            check(e.check(k) is None, "removed", k, "is found at", e.check(k))
            if sorted(e.update()) != sorted(order):
                look(("removed", i))
            order[:] = list(e.update())         # which key takes the freed place is not part of the contract
            look(("removed", i))
        for i in range(n):
            check((d.check(mk(i)) is not None) == (str(mk(i)) in order), "at the end, key", mk(i))
    finally:
        cleanup(name)


def run_case(desc):
    if desc[0] == "bulk":
        return bulk(*desc[1:])
    cls, nolock, nh, ops = desc
    C = {"tag": TagIndex, "meta": MetaTagIndex}[cls]
    name = fresh()
    try:
        hs = [C(name, no_lockout=nolock)]
        hs += [C(name, create=False, no_lockout=nolock) for _ in range(nh - 1)]
        model = set()
        used = set()
        check(list(hs[0].update()) == [], "a new index is not empty")
        looks = any(o[0] == "look" for o in ops)
        every = not looks and len(ops) % 2 == 0       # else handles keep whatever they last cached
        probe = C(name, create=False, no_lockout=nolock)
        for step, (op, key, h) in enumerate(ops):
            d = hs[h % nh]
            s = str(key)
            used.add(s)
            positions = {k: probe.check(k) for k in model}
            if op == "add":
                got = d.add(key)
                if s in model:
                    check(got == positions[s], "adding a present key returned", got, "not", positions[s])
                check(isinstance(got, int), "add returned", got)
                model.add(s)
            elif op == "addx":
                try:
                    got = d.add(key, exists_ok=False)
                    check(s not in model, "a present key was accepted:", key)
                    model.add(s)
                except FileExistsError:
                    check(s in model, "an absent key was refused:", key)
            elif op == "look":
                got = list(d.update())
                check(len(got) == len(model) and set(got) == model, "after a while, handle", h % nh, "lists", got, "expected", sorted(model))
                used.discard(s)
            elif op in ("remove", "del"):
                before = content(name)
                try:
                    if op == "del":
                        del d[key]
                    else:
                        d.remove(key)
                    check(s in model, "removing an absent key was not refused")
                    model.discard(s)
                except KeyError:
                    check(s not in model, "removing a present key was refused")
                    after = content(name)
                    skip = lambda c: {k: v for k, v in c.items() if "_count" not in k}
                    check(skip(before) == skip(after), "refused removal changed the index")
            for i, hh in enumerate([probe] + (hs if every or step == len(ops) - 1 else [])):
                got = list(hh.update())
                check(len(got) == len(model) and set(got) == model, op, key, "handle", i, "lists", got, "expected", sorted(model))
                for k in used:
                    at = hh.check(k)
                    if k in model:
                        check(isinstance(at, int) and 0 <= at < len(got) and got[at] == k, op, key, "key", k, "found at", at, "in", got)
                    else:
                        check(at is None, op, key, "absent key", k, "found at", at)
            if cls == "tag":
                # nothing but the length, the lock counter, and two blocks per key
                b = [x for x in blocks(name) if x != name and not x.endswith("_count")]
                check(len(b) == 2 * len(model), "blocks left over", b)
    finally:
        cleanup(name)


def cases(rng, tier):
    for cls in ("tag", "meta"):
        for n in (1, 2, 3, 4, 12):
            ks = [f"k{i}" for i in range(n)]
            for order in (list(range(n)), list(reversed(range(n))), [n // 2] + [i for i in range(n) if i != n // 2]):
                ops = [("add", k, 0) for k in ks]
                ops += [("remove", ks[i], 0) for i in order]
                ops += [("add", k, 0) for k in reversed(ks)]
                yield (cls, False, 1, ops)
                yield (cls, True, 2, ops)
    for cls in ("tag", "meta"):
        for n in (1, 2, 4, 5, 9):
            ks = [f"k{i}" for i in range(n)]
            for out in {0, n // 2, n - 1}:
                yield (cls, True, 2, [("add", k, 0) for k in ks] + [("look", "", 0), ("look", "", 1), ("remove", ks[out], 0), ("add", "new", 1), ("look", "", 0), ("look", "", 1),
                                                                     ("remove", "new", 0), ("add", ks[out], 0), ("look", "", 1), ("look", "", 0)])
    yield ("bulk", "tag", True, 300, (0, 298, 254, 255, 256, 128, 0, 0), "k")
    yield ("bulk", "tag", False, 60, (0, 58, 30, 1, 2), "int")
    yield ("bulk", "meta", True, 270, (255, 256, 0, 100), "tup")
    yield ("bulk", "meta", True, 40, tuple(range(40)), "long")
    yield ("bulk", "tag", True, 70, (-1, -2, 0) * 20, "uni")
    yield ("bulk", "tag", True, 30, (0,) * 30, "neg")
    for i in range(350 if tier == "quick" else 4000):
        ks = rng.sample(ANYKEYS, rng.randint(1, 6))
        nh = rng.randint(1, 3)
        kinds = ["add", "add", "addx", "remove", "del"] + (["look", "add"] if i % 3 == 0 else [])
        ops = [(rng.choice(kinds), rng.choice(ks), rng.randrange(nh)) for _ in range(rng.randint(1, 14))]
        yield (rng.choice(["tag", "tag", "meta"]), rng.random() < .6, nh, ops)
    ops = [("add", f"k{i}", 0) for i in range(300)] + [("remove", f"k{i}", 0) for i in (0, 299, 255, 256, 128)]
    if tier != "quick":
        yield ("tag", True, 1, ops)
