from compsim import *
RULE = "random programs of 1-40 steps over every step-mapping form, each run one to three times by call, execute or iteration, compared call by call with an independent simulation"
run_case = lambda d: (run_program(d), None)[1] if isinstance(d, dict) else run_multi(d)


def run_multi(d):
    """the default pipeline and growth between runs"""
    if d[0] == "default":
        c = Composition()
        check(c(d[1]) is d[1] and c.execute(d[1]) is d[1], "default composition is the identity")
    elif d[0] == "state":
        # stateful steps: each execution must make the same calls in the same order
        n, k = d[1], d[2]
        seen = []
        c = Composition({f"s{i}": (lambda x, i=i: seen.append((i, x)) or (i, len(seen))) for i in range(n)})
        for r in range(k):
            start = len(seen)
            got = c.execute(("r", r))
            check([i for i, _ in seen[start:]] == list(range(n)), "order", seen[start:])
            want = [("r", r)] + [(i, start + i + 1) for i in range(n - 1)]
            check([x for _, x in seen[start:]] == want, "signals", seen[start:], "expected", want)
            check(got == (n - 1, start + n), "result", got)
    elif d[0] == "interleave":
        # two iterations of one composition at once
        n = d[1]
        c = Composition([lambda x, i=i: x + (i,) for i in range(n)])
        a, b = c.itercall(("a",)), c.itercall(("b",))
        for i in range(n):
            check(next(a) == ("a",) + tuple(range(i + 1)), "a", i)
            check(next(b) == ("b",) + tuple(range(i + 1)), "b", i)
        for it in (a, b):
            try:
                next(it)
            except StopIteration:
                continue
            raise Fail("too many outputs")


def cases(rng, tier):
    for s in (0, None, "x", (1,)):
        yield ("default", s)
    for n in (130, 700, 1400):
        yield ("state", n, 1)
        yield ("interleave", n)
    for n in (1, 2, 3, 7, 60):
        for k in (1, 2, 3):
            yield ("state", n, k)
        yield ("interleave", n)
    for i in range(1500 if tier == "quick" else 15000):
        yield program(rng, runs=3, inserts=.15, sends=.15,
                      kinds=rng.choice([("plain",), ("plain", "partial", "curry")]))
