from compsim import *
import itertools
RULE = "all occupancy patterns of four positions split between inserts and baked-in arguments for plain, partial and curried steps; random keyword overlaps; each executed up to three times"
run_case = lambda d: (run_program(d), None)[1]


def cases(rng, tier):
    base = lambda step, ins, runs=2: {"steps": [("s", step)], "inserts": {"s": ins}, "sends": {}, "form": "dict", "form2": "ctor",
                                      "runs": [("exec", "SIG", None)] * runs, "optional": False, "track": False}
    for occ in itertools.product([0, 1], repeat=5):
        ins = {i: f"i{i}" for i, o in enumerate(occ) if o}
        yield base(("f0", "plain", (), ()), ins)
        yield base(("f0", "plain", (), ()), dict(reversed(list(ins.items()))))
        for nb in range(4):
            for kind in ("partial", "curry"):
                yield base((f"f0", kind, tuple(f"b{i}" for i in range(nb)), ()), ins)
    for ik in itertools.product([0, 1], repeat=3):
        for bk in itertools.product([0, 1], repeat=3):
            for kind in ("partial", "curry"):
                yield base(("f0", kind, ("b0",), tuple(("xyz"[i], f"b{i}") for i in range(3) if bk[i])),
                           {"xyz"[i]: (f"i{i}" if i else None) for i in range(3) if ik[i]})
    yield base(("f0", "plain", (), ()), {i: i for i in range(12) if i != 10})
    yield base(("f0", "partial", tuple(range(11)), ()), {3: "x", 12: "y"})
    for _ in range(2000 if tier == "quick" else 20000):
        yield program(rng, n=rng.choice([1, 2, 3]), kinds=("plain", "partial", "curry"), inserts=.95, runs=3, sends=.1)
