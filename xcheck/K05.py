from kcommon import *
from dustgoggles.codex.implements import Sticky
RULE = "random histories of note, stick, read, reread and pull on one to four addresses through old and new handles, objects of very different sizes; model holds the object at each address and the objects each handle may have cached"
VALS = ["y" * 4096, "z" * 200000, [None], {}, [], 0.0, (None,), "None", {"a": None}, [[]], 2**80, "ünï",1, 0, None, "s", "", "x" * 5000, [1, 2, [3]], {"a": (1, 2)}, True, False, 1.5, b"", b"\x00" * 17, (), -7, frozenset([1])]


def run_case(desc):
    naddr, ops = desc
    base = fresh()
    try:
        at = {}            # address -> object
        handles = []       # [sticky, address, cached object or NOTHING]
        for op in ops:
            err = None
            if op[0] == "note":
                addr = f"{base}_{op[1] % naddr}"
                n = Sticky.note(op[2], addr)
                check(isinstance(n, Sticky), n)
                at[addr] = op[2]
                handles.append([n, addr, op[2]])
            elif op[0] == "handle":
                addr = f"{base}_{op[1] % naddr}"
                handles.append([Sticky(addr), addr, None])
            elif not handles:
                continue
            else:
                h = handles[op[1] % len(handles)]
                if op[0] == "stick":
                    h[0].stick(op[2])
                    at[h[1]] = op[2]
                    h[2] = op[2]
                elif op[0] in ("read", "reread"):
                    got = h[0].read() if op[0] == "read" else h[0].read(reread=True)
                    want = at.get(h[1])
                    if op[0] == "read" and h[2] is not None:
                        check(deep_same(got, h[2]) or deep_same(got, want), "cached read", got, "expected", h[2], "or", want)
                    else:
                        check(deep_same(got, want), op[0], "gave", got, "expected", want)
                    if h[1] in at:
                        h[2] = got
                elif op[0] == "pull":
                    try:
                        h[0].pull()
                        check(h[1] in at, "pulling nothing succeeded")
                    except FileNotFoundError:
                        check(h[1] not in at, "pulling failed")
                    at.pop(h[1], None)
            for i in range(naddr):
                addr = f"{base}_{i}"
                got = Sticky(addr).read()
                check(deep_same(got, at.get(addr)), op, "address", i, "reads", repr(got)[:100], "expected", repr(at.get(addr))[:100])
                check(str(Sticky(addr)) is not None)
    finally:
        cleanup(base)


def cases(rng, tier):
    for a in VALS:
        for b in VALS:
            yield (2, [("note", 0, a), ("handle", 0), ("reread", 1), ("stick", 0, b), ("reread", 1), ("read", 0), ("pull", 1), ("reread", 0), ("note", 0, a), ("note", 1, b)])
    for n in (1, 5, 40):
        yield (1, [("note", 0, "start")] + [op for i in range(n) for op in (("stick", 0, "x" * (i * 37 % 100)), ("handle", 0), ("reread", i + 1), ("read", 0))])
        yield (1, [("note", 0, 1)] + [("note", 0, [i] * i) for i in range(n)] + [("reread", 0), ("pull", 0), ("reread", 0), ("read", 1), ("stick", 0, None), ("reread", 1)])
    for _ in range(700 if tier == "quick" else 8000):
        ops = []
        for _ in range(rng.randint(1, 12)):
            r = rng.random()
            if r < .25:
                ops.append(("note", rng.randrange(4), rng.choice(VALS)))
            elif r < .4:
                ops.append(("handle", rng.randrange(4)))
            elif r < .6:
                ops.append(("stick", rng.randrange(9), rng.choice(VALS)))
            elif r < .9:
                ops.append((rng.choice(["read", "reread"]), rng.randrange(9)))
            else:
                ops.append(("pull", rng.randrange(9)))
        yield (rng.randint(1, 3), ops)
