from compsim import *
RULE = "random programs with zero to four sends per step of every kind (into steps, lists, dicts, writers, pipes only), unknown step names, repeated executions; call log, targets and inserts compared with an independent simulation"
run_case = lambda d: (run_program(d), None)[1]


def cases(rng, tier):
    one = lambda sends, n=3, runs=2, **k: {"steps": [(i, (f"f{i}", "plain", (), ())) for i in range(n)], "inserts": {}, "sends": sends,
                                            "form": "list", "form2": k.get("form2", "ctor"), "runs": [("exec", "S", None)] * runs, "optional": False, "track": False}
    kinds = [("p1", None, None), (None, ("step", 2), 1), ("p1", ("step", 2), "x"), (None, ("step", 0), 0), (None, ("list", 0), None), ("p1", ("list", 0), None),
             (None, ("list", 0), 0), ("p2", ("list", 1), -1), (None, ("dict", 0), "k"), ("p1", ("dict", 0), None), (None, ("writer", 0), None),
             ("p2", ("writer", 0), None), ("p1N", ("dict", 0), 0), ("pN", ("list", 0), 1), (None, ("step", "later"), 0)]
    for a in kinds:
        for n in (0, 1, 2):
            for f in ("ctor", "add"):
                yield one({n: [a]}, form2=f)
        for b in kinds:
            yield one({0: [a, b]})
            yield one({0: [a], 1: [b]})
            yield one({0: [a, b, a]}, n=1)
    for _ in range(2000 if tier == "quick" else 20000):
        yield program(rng, kinds=rng.choice([("plain",), ("plain", "partial")]), inserts=.3, sends=1., runs=3, track=rng.random() < .2)
