"""Programs over compositions, run on the real class and on an independent simulation."""
from lib import *
from functools import partial
import io
from cytoolz import curry
from dustgoggles.composition import Composition
from dustgoggles.tracker import TrivialTracker

EXC = {"ValueError": ValueError, "KeyError": KeyError, "TypeError": TypeError, "RuntimeError": RuntimeError,
       "IndexError": IndexError, "AttributeError": AttributeError, "KeyboardInterrupt": KeyboardInterrupt,
       "SystemExit": SystemExit, "FileNotFoundError": FileNotFoundError, "ZeroDivisionError": ZeroDivisionError,
       "AssertionError": AssertionError, "UnicodeError": UnicodeError}


class Boom(Exception):
    pass


class Falsy(Exception):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


EXC.update(Boom=Boom, Falsy=Falsy, RecursionError=RecursionError, OSError=OSError, TimeoutError=TimeoutError, StopAsyncIteration=StopAsyncIteration,
           UserWarning=UserWarning, NotImplementedError=NotImplementedError, MemoryError=MemoryError)
OUT = {"N": None, "X": ValueError("an output"), "D": {"k": 0}, "L": [], "O": 0, "F": False, "T": ("t", (1,)), "S": "", "Y": {}}


class RecTracker(TrivialTracker):
    def __init__(self):
        self.calls = []
        self.name = None

    def track(self, func, **md):
        self.calls.append((func, md))


class Writer:
    def __init__(self):
        self.got = []

    def write(self, x):
        self.got.append(x)


class World:
    """call log shared by every callable of one run; raises at the planned call"""
    def __init__(self, fail=None, kept=None):
        self.log = []
        self.kept = {} if kept is None else kept     # exceptions raised again as the same object
        self.fail = fail            # (callable label, n-th call of it, exception name)
        self.counts = {}
        self.raised = None

    def call(self, label, a, k):
        n = self.counts[label] = self.counts.get(label, 0) + 1
        self.log.append((label, a, tuple(sorted(k.items(), key=repr))))
        if self.fail and self.fail[0] == label and self.fail[1] == n:
            kind = self.fail[2]
            if kind.startswith("same:"):
                ex = self.kept.setdefault(kind, EXC[kind[5:]]("planned again"))
            else:
                ex = EXC[kind](f"planned {label} {n}")
            self.raised = ex
            raise ex
        return self.output(label, n, a, k)

    @staticmethod
    def output(label, n, a, k):
        if label[-1] in OUT:
            return OUT[label[-1]]
        if label.endswith("Z"):
            return a[0] if a else 0
        return (label, n)


class Obj:
    """a callable without a name"""
    def __init__(self, fn, label):
        self.fn, self.label = fn, label

    def __call__(self, *a, **k):
        return self.fn(*a, **k)

    def method(self, *a, **k):
        return self.fn(*a, **k)


class SubList(list):
    pass


class SubDict(dict):
    pass


TARGET = {"list": lambda: list(range(100, 103)), "dict": dict, "sublist": lambda: SubList(range(100, 103)), "subdict": SubDict}


def mkfn(world, label):
    def fn(*a, **k):
        return world.call(label, a, k)
    fn.__name__ = label
    fn.label = label
    return fn


# step description: (label, kind, baked args, baked kwargs), kind in plain/partial/curry
def mkstep(world, d):
    label, kind, args, kwargs = d
    fn = mkfn(world, label)
    if kind == "plain":
        return fn
    if kind == "object":
        return Obj(fn, label)
    if kind == "method":
        return Obj(fn, label).method
    if kind == "partial":
        return partial(fn, *args, **dict(kwargs))
    if kind == "curry":
        return curry(fn, *args, **dict(kwargs))


class Sim:
    """independent reading of what a composition must do"""
    def __init__(self, world, steps, inserts, sends, targets):
        self.w, self.steps, self.inserts, self.sends, self.targets = world, steps, inserts, sends, targets

    def assemble(self, name, state):
        label, kind, args, kwargs = self.steps[name]
        pos, kw = {}, {}
        if kind in ("partial", "curry"):
            pos.update(enumerate(args))
            kw.update(dict(kwargs))
        for k, v in self.inserts.get(name, {}).items():
            if isinstance(k, int):
                pos[k] = v
            elif isinstance(k, str):
                kw[k] = v
        hole = 0
        while hole in pos:
            hole += 1
        pos[hole] = state
        return label, tuple(pos[i] for i in sorted(pos)), kw

    def deliver(self, thing, target, pointer):
        kind = target[0]
        if kind == "step":
            self.inserts.setdefault(target[1], {})[pointer] = thing
        elif kind.endswith("list"):
            t = self.targets[target]
            if pointer is None:
                t.append(thing)
            else:
                t[pointer] = thing
        elif kind.endswith("dict"):
            self.targets[target][pointer] = thing
        elif kind == "writer":
            self.targets[target].append(thing)

    def run(self, signal):
        state = signal
        for name in list(self.steps):
            label, a, k = self.assemble(name, state)
            state = self.w.call(label, a, k)
            for pipe, target, pointer in self.sends.get(name, ()):
                thing = state
                if pipe is not None:
                    thing = self.w.call(pipe, (state,), {})
                if target is not None:
                    self.deliver(thing, target, pointer)
            yield name, state


def sim_targets(sends):
    out = {}
    for ss in sends.values():
        for _, t, _p in ss:
            if t is not None and t[0] != "step":
                out[t] = dict(TARGET, writer=list)[t[0]]()
    return out


def real_targets(sends):
    out = {}
    for ss in sends.values():
        for _, t, _p in ss:
            if t is not None and t[0] != "step":
                out[t] = dict(TARGET, writer=Writer)[t[0]]()
    return out


def run_program(d, checks=("all",)):
    """d: dict with steps [(name, stepdesc)], inserts {name: {k: v}}, sends {name: [(pipe, target, pointer)]},
    form, runs [(mode, signal, fail)], optional, track"""
    names = [n for n, _ in d["steps"]]
    world = World()
    made = {}
    stepobjs = {n: made.setdefault(s, mkstep(world, s)) for n, s in d["steps"]}     # one object for one description
    targets = real_targets(d["sends"])
    pipes = {}

    def real_send(s):
        pipe, target, pointer = s
        if pipe is not None:
            pipe = pipes.setdefault(pipe, mkfn(world, pipe))
        if target is not None:
            target = target[1] if target[0] == "step" else targets[target]
        return pipe, target, pointer
    tracker = RecTracker() if d.get("track") else None
    steps_arg = dict(stepobjs)
    if d["form"] == "list":
        steps_arg = list(stepobjs.values())
    elif d["form"] == "tuple":
        steps_arg = tuple(stepobjs.values())
    elif d["form"] in MAPTYPES:
        steps_arg = MAPTYPES[d["form"]](stepobjs)
    ctor = {}
    if d["form2"] == "ctor":
        ctor = {"inserts": {n: dict(v) for n, v in d["inserts"].items()},
                "sends": {n: [real_send(s) for s in v] for n, v in d["sends"].items()}}
    comp = Composition(steps_arg, tracker=tracker, optional=d["optional"], **ctor)
    if d["form2"] == "add":
        for n, v in d["inserts"].items():
            for k, x in v.items():
                comp.add_insert(n, k, x)
        for n, v in d["sends"].items():
            for s in v:
                p, t, x = real_send(s)
                comp.add_send(n, p, t, x)
    sim = Sim(World(), dict(d["steps"]), {n: dict(v) for n, v in d["inserts"].items()}, d["sends"], sim_targets(d["sends"]))
    frozen = [(n, s, getattr(s, "args", None), dict(getattr(s, "keywords", {}) or {})) for n, s in comp.steps.items()]
    check(list(comp.steps.keys()) == names, "steps of the composition", list(comp.steps), "expected", names)
    for mode, signal, fail in d["runs"]:
        world.log.clear(), world.counts.clear()
        world.fail, world.raised = fail, None
        w = sim.w = World(fail, sim.w.kept)
        n_track = len(tracker.calls) if tracker else 0
        # expected
        outs, failed_at, exc = [], None, None
        try:
            for name, state in sim.run(signal):
                outs.append(state)
        except BaseException as ex:
            exc = ex
            failed_at = names[len(outs)]
        # actual
        got, gexc, partial_outs = None, None, []
        try:
            if mode == "iter":
                it = comp.itercall(signal)
                check(world.log == [], "iterating ran a step before it was asked to")
                prefix_log = 0
                while True:
                    before = len(world.log)
                    try:
                        x = next(it)
                    except StopIteration:
                        break
                    partial_outs.append(x)
                    check(len(partial_outs) <= len(outs), "too many outputs", partial_outs, outs)
                    check(x is outs[len(partial_outs) - 1] or deep_same(x, outs[len(partial_outs) - 1]), "yielded", x, "expected", outs[len(partial_outs) - 1])
                    labels = [e[0] for e in world.log[before:] if e[0].startswith("f")]
                    check(labels == [dict(d["steps"])[names[len(partial_outs) - 1]][0]], "one step of iteration called", labels)
                got = partial_outs[-1] if partial_outs else signal
                check(len(partial_outs) == len(outs) or exc is not None, "outputs", partial_outs, "expected", outs)
            elif mode == "call":
                got = comp(signal)
            else:
                got = comp.execute(signal)
        except Fail:
            raise
        except BaseException as ex:
            gexc = ex
        # calls
        check(len(world.log) == len(w.log), "calls made", world.log, "expected", w.log)
        for g, e in zip(world.log, w.log):
            check(deep_same(g, e), "call", g, "expected", e)
        if exc is None:
            check(gexc is None, "raised", repr(gexc))
            want = outs[-1]
            check(got is want or deep_same(got, want), "returned", got, "expected", want)
        else:
            ordinary = isinstance(exc, Exception)
            if mode == "iter" or not d["optional"] or not ordinary:
                same = gexc is world.raised if w.raised is not None else type(gexc) is type(exc)    # a delivery may fail too
                check(same and gexc is not None, "let out", type(gexc), repr(gexc), "expected", repr(world.raised), "returned", got)
            else:
                check(gexc is None and got is None, "optional composition gave", got, repr(gexc))
        # tracking
        if tracker and mode != "iter":
            new = tracker.calls[n_track:]
            fails = [c for c in new if "exception" in c[1]]
            done = [c for c in new if "exception" not in c[1]]
            check(len(done) == len([x for x in outs]) or (exc is not None and len(done) in (len(outs), len(outs) + 1)), "step records", new)
            for (f, md), n in zip(done, names):
                check(f is stepobjs[n] and md.get("step") == n, "step record", f, md, "expected", n)
            if exc is None:
                check(not fails, "failure recorded without a failure", fails)
            elif isinstance(exc, Exception):
                check(len(fails) == 1, len(fails), "failure records")
                check(fails[0][0] is stepobjs[failed_at], "failure record names", fails[0][0], "expected", failed_at)
                check(type(exc).__name__ in str(fails[0][1]["exception"]), "failure record", fails[0][1])
        # targets and inserts
        for t, tgt in targets.items():
            have = tgt.got if isinstance(tgt, Writer) else tgt
            check(deep_same(have, sim.targets[t]), "target", t, "holds", have, "expected", sim.targets[t])
        have = {k: v for k, v in comp.inserts.items() if v}
        want = {k: v for k, v in sim.inserts.items() if v}
        check(set(have) == set(want) and all(have[k] == want[k] and all(deep_same(have[k][p], want[k][p]) for p in want[k]) for k in want),
              "inserts", have, "expected", want)
        # frame
        check(len(frozen) == len(comp.steps), "steps changed")
        for (n, s, a, k), (n2, s2) in zip(frozen, comp.steps.items()):
            check(n == n2 and s is s2, "steps changed at", n)
            check(getattr(s2, "args", None) == a and dict(getattr(s2, "keywords", {}) or {}) == k, "baked-in arguments changed at", n)
    return comp


def rand_step(rng, i, kinds, suffix=("", "", "", "", "N", "Z", "X", "D", "L", "O", "F", "T", "S", "Y")):
    kind = rng.choice(kinds)
    if kind == "plain" and rng.random() < .2:
        kind = rng.choice(["object", "method"])
    args, kwargs = (), ()
    if kind in ("partial", "curry"):
        args = tuple(rng.choice(["p0", 1, None, ("t",)]) for _ in range(rng.randint(0, 3)))
        kwargs = tuple((k, rng.choice([1, "baked", None])) for k in rng.sample(["x", "y", "z"], rng.randint(0, 2)))
    return (f"f{i}{rng.choice(suffix)}", kind, args, kwargs)


def rand_inserts(rng, names, p=.5, maxpos=4):
    out = {}
    for n in names + ["ghost"]:
        if rng.random() < p:
            d = {}
            for k in rng.sample(list(range(maxpos)) + ["x", "y", "w", "_u", "_", True, False], rng.randint(0, 4)):
                d[k] = rng.choice(["ins", 0, None, ("i", k), 7])
            out[n] = d
    return out


def rand_sends(rng, names, p=.6, pipes=True, kinds=("step", "list", "dict", "writer", None)):
    out = {}
    c = 0
    for n in names + (["ghost"] if rng.random() < .2 else []):
        if rng.random() < p:
            ss = []
            for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 4, 9, 20])):
                c += 1
                pipe = None
                if pipes and rng.random() < .4:
                    pipe = f"p{rng.randint(0, c)}" + rng.choice(["", "", "N"])
                k = rng.choice(kinds)
                if k is None:
                    if pipe is None:
                        pipe = f"p{c}"
                    ss.append((pipe, None, None))
                elif k == "step":
                    ss.append((pipe, ("step", rng.choice([n for n in names if isinstance(n, (str, int))] + ["later"])), rng.choice([0, 1, 2, "x", "q"])))
                elif k == "list":
                    ss.append((pipe, (rng.choice(["list", "list", "sublist"]), rng.choice([c, 0])), rng.choice([None, None, None, 0, 2, -1, 0, 2, -1, 3, -4, 9])))
                elif k == "dict":
                    ss.append((pipe, (rng.choice(["dict", "dict", "subdict"]), rng.choice([c, 0])), rng.choice(["k", 0, None, "j"])))
                else:
                    ss.append((pipe, ("writer", rng.choice([c, 0])), None))
            out[n] = ss
    return out


def int_or_str(names):
    return all(isinstance(n, (int, str)) for n in names)


def program(rng, n=None, kinds=("plain",), inserts=0., sends=0., fail=0., runs=2, optional=False, track=False, modes=("call", "exec", "iter"),
            exc=("ValueError", "KeyError", "TypeError", "RuntimeError", "IndexError", "AttributeError", "FileNotFoundError", "ZeroDivisionError")):
    n = rng.choice([1, 1, 2, 2, 3, 4, 6, 11]) if n is None else n
    form = rng.choice(["dict", "dict", "list", "tuple", "OrderedDict", "MutMap", "DictSub"])
    if form not in ("list", "tuple"):
        pool = ["a", "b", "c", "d", "e", 0, 1, 2, 5, 9, "0", "z", "step", "x", 100]
        if rng.random() < .3:
            pool += ["", None, ("t", 1), 2.5, -1, ()]
        names = rng.sample(pool, n)
    else:
        names = list(range(n))
    steps = [(nm, rand_step(rng, i, kinds)) for i, nm in enumerate(names)]
    if n > 1 and rng.random() < .15:
        i, j = sorted(rng.sample(range(n), 2))
        steps[j] = (steps[j][0], steps[i][1])
    ins = rand_inserts(rng, names, .6) if rng.random() < inserts else {}
    snd = rand_sends(rng, names) if rng.random() < sends else {}
    rr = []
    for _ in range(rng.randint(1, runs)):
        f = None
        if rng.random() < fail:
            cands = [s[0] for _, s in steps] + [p for ss in snd.values() for p, _, _ in ss if p]
            f = (rng.choice(cands), rng.choice([1, 1, 1, 2]), rng.choice(["", "", "same:"]) + rng.choice(exc))
        rr.append((rng.choice(modes), rng.choice(["sig", 0, None, (1, 2), "", False, [], {"k": 1}, 2.5]), f))
    return {"steps": steps, "inserts": ins, "sends": snd, "form": form, "form2": rng.choice(["ctor", "add"]), "runs": rr,
            "optional": optional, "track": track}
