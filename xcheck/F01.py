from lib import *
import itertools
from operator import or_, and_
from dustgoggles.func import intersection, disjoint, are_in
RULE = "all families of up to three iterables over a three-element universe and random families of up to six iterables of mixed kinds (lists with repeats, tuples, sets, dicts, strings, ranges, iterators)"
KINDS = {"list": list, "tuple": tuple, "set": set, "frozenset": frozenset, "dict": dict.fromkeys, "iter": iter, "gen": lambda x: (i for i in x)}


def run_case(desc):
    what, fam, extra = desc
    if what == "int":
        its = [KINDS[k](v) for k, v in fam]
        want = {x for x in fam[0][1] if all(x in v for _, v in fam)}
        got = intersection(*its)
        check(isinstance(got, (set, frozenset)) and got == want, "intersection", got, "expected", want)
    elif what == "dis":
        its = [KINDS[k](v) for k, v in fam]
        shared = {x for x in fam[0][1] if all(x in v for _, v in fam)}
        want = [[x for x in it if x not in shared] for it in [KINDS[k](v) for k, v in fam]]
        snap = [copy.copy(i) for i in its]
        got = disjoint(*its)
        check(isinstance(got, list) and [list(g) for g in got] == want, "disjoint", got, "expected", want)
        check(its == snap, "input changed")
    elif what == "each":
        n, kinds = fam
        build_ = [list, tuple, set, frozenset, dict.fromkeys]
        lists = [build_[(i + kinds) % 5](x for x in range(n + 2) if x != i) for i in range(n)]
        check(intersection(*lists) == {n, n + 1}, "each of", n, "misses one element:", intersection(*lists))
        got = disjoint(*lists)
        check(got == [[x for x in v if x < n] for v in lists], "disjoint parts when each of", n, "misses one element")
        got = are_in(list(range(n)))
        check(not any(got(v) for v in lists) and got(range(n)) and not are_in(tuple(range(n)), or_)([n]) and are_in(tuple(range(n)), or_)([n - 1]), "membership of", n)
    elif what == "many":
        seed, n, size = fam
        import random
        r = random.Random(seed)
        uni = [i for i in range(1, size)] + [float(i) + .5 for i in range(size)] + [("t", i) for i in range(size)] + [str(i) + " x" for i in range(size)] + [None, "", 0, -1, -2, 2**61 - 1, b"", frozenset()]
        every = r.sample(uni, size // 3)
        lists = []
        for _ in range(n):
            v = r.sample(uni, size) + every
            v = [fresh(x) for x in v] + [fresh(x) for x in r.sample(v, size // 4)]
            r.shuffle(v)
            lists.append(v)
        miss = r.randrange(n)
        lists[miss] = [x for x in lists[miss] if x not in every[:size // 6]]
        sets = [set(v) for v in lists]
        shared = {x for x in lists[0] if all(x in s for s in sets)}
        got = intersection(*lists)
        check(isinstance(got, (set, frozenset)) and got == shared, "intersection of", n, "got", sorted(map(repr, got ^ shared))[:5], "wrongly in or out")
        got = disjoint(*lists)
        want = [[x for x in v if x not in shared] for v in lists]
        check(isinstance(got, list) and len(got) == n and all(len(g) == len(w) and all(a is b for a, b in zip(g, w)) for g, w in zip(got, want)), "disjoint parts", got, want)
        for v in (every, every[:1], every + [object()], every[:-1]):
            for c in (lists[0], sets[0], dict.fromkeys(lists[0]), lists[miss], tuple(lists[-1])):
                for oper, f in ((None, all), (and_, all), (or_, any)):
                    p = are_in(v) if oper is None else are_in(v, oper)
                    check(bool(p(c)) == f(x in c for x in v), "membership of", len(v))
    elif what == "live":
        items = list(fam)
        pred, anyp = are_in(items), are_in(items, or_)
        cont = []
        for x in items:
            check(bool(pred(cont)) is False, "contains all of", items, "said of", cont)
            check(bool(anyp(cont)) is (len(cont) > 0), "contains any of", items, "said of", cont)
            cont.append(fresh(x))
        check(bool(pred(cont)) is True and bool(pred(set(cont))) is True and bool(pred([])) is False, "after growing", cont)
        items.append("another")
        check(bool(are_in(items)(cont)) is False and bool(are_in(tuple(items))(cont + ["another"])) is True, "another")

        class Has:
            def __contains__(self, x):
                return [x] if x == items[0] else ""
        check(bool(are_in(items[:1])(Has())) is True and bool(are_in(items)(Has())) is False and bool(are_in(items, or_)(Has())) is True, "container of its own kind")
    else:
        items, container, oper = fam
        it = KINDS[items[0]](items[1])
        cont = KINDS[container[0]](container[1])
        if oper == "default":
            pred = are_in(it)
            want = all(x in container[1] for x in items[1])
        else:
            pred = are_in(it, oper={"and": and_, "or": or_}[oper])
            want = (all if oper == "and" else any)(x in container[1] for x in items[1])
        for _ in range(2):
            got = pred(cont)
            check(bool(got) == want and isinstance(got, (bool, int)), "membership", got, "expected", want)


def cases(rng, tier):
    yield ("live", ["a", 1, (1, 2), None, "", 2.5], None)
    yield ("live", [None, 0], None)
    yield ("live", ["only"], None)
    yield ("live", [""], None)
    for n in (2, 3, 10, 65, 130, 300):
        for kinds in range(5):
            yield ("each", (n, kinds), None)
    for n, size in ((1, 30), (2, 400), (7, 60), (12, 40), (33, 30), (70, 24), (3, 1500)):
        for s in range(3):
            yield ("many", (s, n, size), None)
    subs = [list(c) for n in range(4) for c in itertools.combinations("abc", n)]
    for n in (1, 2, 3):
        for fam in itertools.product(subs, repeat=n):
            if n < 3 or rng.random() < .3:
                yield ("int", [("list", v) for v in fam], None)
                yield ("dis", [("list", v) for v in fam], None)
    for a in subs[1:]:
        for b in subs:
            for o in ("default", "and", "or"):
                yield ("in", (("list", a), ("tuple", b), o), None)
    uni = ["a", "b", "", 0, 1, None, (1, 2), 2.5, True, "ab", -1, frozenset([1])]
    for _ in range(1500 if tier == "quick" else 15000):
        pick = lambda: [rng.choice(uni) for _ in range(rng.choice([0, 1, 2, 3, 6, 12]))]
        common = pick()
        fam = [(rng.choice(["list", "tuple", "set", "frozenset", "dict"]), pick() + (common if rng.random() < .8 else [])) for _ in range(rng.randint(1, 6))]
        fam2 = []
        for k, v in fam:
            rng.shuffle(v)
            fam2.append((k, list(dict.fromkeys(v)) if k in ("set", "frozenset", "dict") else v))
        yield ("int", [(rng.choice([k, "iter", "gen"]), v) for k, v in fam2], None)
        yield ("dis", fam2, None)
        items = list(dict.fromkeys(pick())) or ["a"]
        yield ("in", ((rng.choice(["list", "tuple", "set"]), items), (rng.choice(["list", "tuple", "set", "dict"]), pick() + (items if rng.random() < .5 else [])),
                      rng.choice(["default", "and", "or"])), None)
