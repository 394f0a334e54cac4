from lib import *
from dustgoggles.composition import Composition
from compsim import RecTracker
RULE = "random sequences of add_step, add_insert, add_send, add_capture(s), reindex and runs on random compositions, with every untouched entry compared before and after each operation"


def fn(i):
    f = lambda *a, **k: (i, a[0] if a else None)
    f.__name__ = f"fn{i}"
    return f


def run_case(desc):
    form, n, pre, ops, tracked = desc
    fns = [fn(i) for i in range(n)]
    names = list(range(n)) if form != "dict" else ["a", "b", 3, 0, "z", 7][:n]
    arg = {"dict": dict(zip(names, fns)), "list": list(fns), "tuple": tuple(fns)}[form]
    tr = RecTracker() if tracked else None
    inserts, sends = {}, {}
    if pre == "dicts":
        inserts = {names[0]: {1: "x"}, "ghost": {0: 1}}
        sends = {names[-1]: [(None, [0], 0)]}
        c = Composition(arg, sends={k: list(v) for k, v in sends.items()}, inserts={k: dict(v) for k, v in inserts.items()}, tracker=tr)
    elif pre == "lists":
        inserts = {0: {1: "x"}, 1: {}}
        sends = {0: [(None, [0], 0)], 1: []}
        c = Composition(arg, sends=[list(v) for v in sends.values()], inserts=[dict(v) for v in inserts.values()], tracker=tr)
    else:
        c = Composition(arg, tracker=tr)
    steps = dict(zip(names, fns))
    if tracked:
        for k in names:
            sends.setdefault(k, []).append("track")
    k = 100
    captures = None

    def compare(what):
        check(list(c.steps.keys()) == list(steps.keys()), what, "step names", list(c.steps), "expected", list(steps))
        check(all(c.steps[x] is steps[x] for x in steps), what, "step objects differ")
        check(c.index == tuple(steps), what, "index", c.index)
        for nm, have, want in (("inserts", c.inserts, inserts), ("sends", c.sends, sends)):
            check({x: v for x, v in have.items() if len(v)}.keys() == {x: v for x, v in want.items() if len(v)}.keys(), what, nm, have, "expected", want)
        for s in inserts:
            if inserts[s]:
                check(list(c.inserts[s].items()) == list(inserts[s].items()), what, "inserts of", s, c.inserts[s], "expected", inserts[s])
        for s, want in sends.items():
            have = c.sends.get(s, [])
            check(len(have) == len(want), what, "sends of", s, have, "expected", want)
            for h, w in zip(have, want):
                if w == "track":
                    check(callable(h[0]) and h[1] is None, what, "tracking send", h)
                else:
                    check(len(h) == 3 and all(a is b or (a == b and not isinstance(b, list)) for a, b in zip(h, w)), what, "send of", s, h, "expected", w)

    compare("constructor")
    for op in ops:
        k += 1
        if op[0] == "step":
            f = fn(k) if len(op) == 2 else op[2]
            name = op[1]
            if name is None:
                c.add_step(f)
                name = len(steps) + 1
            else:
                c.add_step(f, name)
            steps[name] = f
            if tracked:
                sends.setdefault(name, []).append("track")
        elif op[0] == "insert":
            c.add_insert(op[1], op[2], op[3])
            inserts.setdefault(op[1], {})[op[2]] = op[3]
        elif op[0] == "send":
            pipe = fn(k) if op[2] else None
            target = {"none": None, "list": [0, 0], "dict": {}, "int": 0, "str": "a", "elist": []}[op[3]]
            if pipe is None and target is None:
                before = {a: list(b) for a, b in c.sends.items()}
                try:
                    c.add_send(op[1])
                except ValueError:
                    pass
                else:
                    raise Fail("a send with neither pipe nor target was accepted")
                check({a: list(b) for a, b in c.sends.items()} == before, "refused send changed the sends")
            else:
                c.add_send(op[1], pipe, target, op[4])
                sends.setdefault(op[1], []).append((pipe, target, op[4]))
        elif op[0] == "capture":
            t = None if op[2] else ["old"]
            c.add_capture(op[1], t)
            have = c.sends[op[1]][-1]
            check(isinstance(have[1], list) and have[0] is None and have[2] == 0 and (t is None or have[1] is t), "capture", have)
            sends.setdefault(op[1], []).append((None, have[1], 0))
        elif op[0] == "captures":
            c.add_captures()
            captures = c.captures
            check(set(captures) == set(steps), "captures", captures)
            for s in steps:
                sends.setdefault(s, []).append((None, captures[s], 0))
        elif op[0] == "reindex":
            c.reindex()
            steps = dict(enumerate(steps.values()))
            if tracked or captures:
                captures = None
        elif op[0] == "run" and all(callable(f) for f in steps.values()):
            # inserts may make a step take other arguments, but fn accepts anything
            outs = list(c.itercall(("run", k)))
            if captures is not None:
                for s, o in zip(steps, outs):
                    if s in captures:
                        check(captures[s] == [o], "capture of", s, captures[s], "expected", [o])
            for ss in c.sends.values():
                for p, t, x in ss:
                    if isinstance(t, (int, str)):
                        pass
            # sends with step targets add inserts: fold them into the model
            for s, o in zip(steps, outs):
                for w in sends.get(s, []):
                    if w != "track" and isinstance(w[1], (int, str)):
                        inserts.setdefault(w[1], {})[w[2]] = w[0](o) if w[0] else o
        compare(op)


def cases(rng, tier):
    for i in range(2500 if tier == "quick" else 25000):
        form = rng.choice(["dict", "list", "tuple"])
        n = rng.randint(1, 6)
        names = ["a", "b", 3, 0, "z", 7, 1, 2, "ghost", "later", 50, "", ("t", 1), -1, 2.5]
        ops, tracked = [], rng.random() < .3
        for _ in range(rng.randint(1, 8) if i % 50 else 60):
            r = rng.random()
            if r < .25:
                ops.append(("step", rng.choice([None] + names)))
            elif r < .45:
                ops.append(("insert", rng.choice(names), rng.choice([0, 1, 2, "x", "y", "zz"]), rng.choice([None, 0, "v", (1,), "", [], {}])))
            elif r < .65:
                ops.append(("send", rng.choice(names), rng.random() < .5, rng.choice(["none", "none", "list", "dict", "int", "str"]), rng.choice([0, 1])))
            elif r < .72:
                ops.append(("capture", rng.choice(names), rng.random() < .5))
            elif r < .8:
                ops.append(("captures",))
            elif r < .88:
                ops.append(("reindex",))
            else:
                ops.append(("run",))
        if i % 10 == 3 and not tracked:
            ops = [("step", o[1], rng.choice(["text", 5, ()])) if o[0] == "step" and rng.random() < .5 else o for o in ops] + [("reindex",)]
        yield (form, n, rng.choice(["none", "dicts", "lists"]) if form != "dict" or n > 1 else "none", ops, tracked)
