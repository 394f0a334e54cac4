"""Shared memory that other processes change between any two accesses: rely and guarantee for a lock of numbered slots.

The abstract state is a counter c, the set of slots (numbers whose marker block exists), the slots ever taken, and the lock blocks.
RELY, before every access of ours, the others may have changed the state in any way such that
  c has not decreased; slots ever taken stay so; a slot once taken and now free is at most c; a lock block has its slot;
  our own slot is still there, our lock block is as we left it, and if our slot was above c at some moment since we took it, it still is.
GUARANTEE, required of every access of ours:
  one slot at a time; only our own blocks are created or removed; a slot is given up only once c has reached it and its lock block is gone;
  c is set only to our slot n, while n has been above c and c has reached n - 1.
That every guarantee implies every other process's rely, and that two processes cannot both be in the state in which the lock is held, are lemmas
of the contract (specs/K07.py).  Accesses are taken to be atomic.

Loops that are run in such a world are cut: one arbitrary iteration from a state of which only the loop's inferred invariant is known."""
import sys, time, z3
from multiprocessing.shared_memory import SharedMemory
from . import core, models, shm
from .core import *
from .models import *
from .engine import Restart, Slots, unchanged

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


class Shared:
    """one process's view"""
    def __init__(self, name, quiet=False):
        self.name, self.quiet = shm.sterm(name), quiet
        self.pool, self.facts = [], []
        self.own, self.ownlock, self.claim = None, False, FALSE
        self.settled = False                  # giving up a slot is not expected
        self.prompt = False                   # no loop is expected to go round twice
        self.c = self.int("count")
        self.has, self.ever, self.locked = self.pred("slot"), self.pred("ever"), self.pred("locked")
        core.E.run.add(self.c >= 0)
        self.consistent()

    def int(self, what):
        return z3.Int(core.E.run.fresh(what))

    def pred(self, what):
        f = z3.Function(core.E.run.fresh(what), I, B)
        return lambda k: f(k)

    # ---- facts about all slots
    def index(self, t):
        t = z3.simplify(t)
        if not any(z3.eq(t, p) for p in self.pool):
            self.pool.append(t)
            for f in list(self.facts):
                core.E.run.add(f(t))
        return t

    def forall(self, f):
        self.facts.append(f)
        for t in list(self.pool):
            core.E.run.add(f(t))

    def consistent(self):
        c, has, ever, locked = self.c, self.has, self.ever, self.locked
        self.forall(lambda k: z3.And(z3.Implies(has(k), ever(k)), z3.Implies(z3.And(ever(k), z3.Not(has(k))), k <= c), z3.Implies(locked(k), has(k))))

    # ---- the others
    def others(self):
        """anything the others may do"""
        if self.quiet:
            return
        c0, ever0, locked0 = self.c, self.ever, self.locked
        self.c, self.has, self.ever, self.locked = self.int("count"), self.pred("slot"), self.pred("ever"), self.pred("locked")
        ever = self.ever
        core.E.run.add(self.c >= c0)
        self.forall(lambda k: z3.Implies(ever0(k), ever(k)))
        self.consistent()
        self.keep_own(locked0)

    def keep_own(self, locked0):
        if self.own is not None:
            m = self.index(self.own)
            core.E.run.add(z3.And(self.has(m), self.locked(m) == locked0(m)))
            core.E.run.add(z3.Implies(self.claim, m > self.c))

    # ---- accesses
    def take(self, kind, k):
        self.others()
        if kind == "count":
            return False                       # AXIOM: the counter exists already
        self.index(k)
        if kind == "marker":
            if core.E.decide(self.has(k)):
                return False
            demand("guarantee.one_slot_at_a_time", z3.BoolVal(self.own is None))
            has, ever = self.has, self.ever
            self.has, self.ever = (lambda j: z3.Or(j == k, has(j))), (lambda j: z3.Or(j == k, ever(j)))
            self.own, self.claim, self.ownlock = k, k > self.c, False
        else:
            if core.E.decide(self.locked(k)):
                return False
            demand("guarantee.lock_only_on_own_slot", k == self.own if self.own is not None else FALSE)
            locked = self.locked
            self.locked, self.ownlock = (lambda j: z3.Or(j == k, locked(j))), True
        self.consistent()
        return True

    def there(self, kind, k):
        self.others()
        if kind == "count":
            return True
        self.index(k)
        return core.E.decide((self.has if kind == "marker" else self.locked)(k))

    def drop(self, kind, k):
        self.others()
        if kind == "count":
            demand("guarantee.counter_kept", FALSE)
            raise Unsupported("the counter removed")
        self.index(k)
        mine = k == self.own if self.own is not None else FALSE
        if kind == "marker":
            if not core.E.decide(self.has(k)):
                raise FileNotFoundError(2, "No such file or directory")
            demand("guarantee.only_own_slot_given_up", mine)
            if self.settled:
                demand("alone.first_slot_found_is_kept", FALSE)
            demand("guarantee.slot_given_up_when_passed", k <= self.c)
            demand("guarantee.slot_given_up_without_lock", z3.Not(self.locked(k)))
            has = self.has
            self.has = lambda j: z3.And(j != k, has(j))
            self.own, self.claim = None, FALSE
        else:
            if not core.E.decide(self.locked(k)):
                raise FileNotFoundError(2, "No such file or directory")
            demand("guarantee.only_own_lock_removed", mine)
            locked = self.locked
            self.locked, self.ownlock = (lambda j: z3.And(j != k, locked(j))), False

    def read(self):
        self.others()
        if self.own is not None:
            self.claim = z3.Or(self.claim, self.own > self.c)
        return self.c

    def write(self, v):
        self.others()
        mine = v == self.own if self.own is not None else FALSE
        demand("guarantee.counter_set_only_by_holder", z3.And(mine, self.claim, self.c >= v - 1))
        self.c, self.claim = v, FALSE
        self.consistent()

    def holding(self):
        """our slot is above the counter, which has reached the one before"""
        return z3.And(self.claim, self.c >= self.own - 1) if self.own is not None else FALSE


def demand(name, c):
    core.E.requirement(name, lambda: core.E.prove_now(c))


def here():
    return core.E.run.shared


class Block:
    def __init__(self, kind, k):
        self.kind, self.k = kind, k

    @property
    def name(self):
        w = here()
        tail = {"count": ["_count"], "marker": ["_", strf(Val.i(self.k))] if self.k is not None else [], "lock": ["_", strf(Val.i(self.k)), "_lock"] if self.k is not None else []}
        return wstr(shm.join([w.name] + tail[self.kind]))

    @property
    def buf(self):
        return Buffer(self)

    def unlink(self):
        here().drop(self.kind, self.k)

    def close(self):
        pass


class Buffer:
    def __init__(self, block):
        self.block = block

    def tobytes(self, order=None):
        if self.block.kind != "count":
            raise Unsupported("content of a lock block")
        return SBytes(shm.int_bytes(here().read(), 5))

    def __setitem__(self, k, data):
        if self.block.kind != "count" or not (isinstance(k, slice) and k == slice(None)):
            raise Unsupported("lock block written")
        t = z3.simplify(byterm(data))
        if not (z3.is_app(t) and t.decl().name() == "to_bytes"):
            raise Unsupported("counter written in another form")
        here().write(t.arg(1))


def parse(a):
    """(kind, number) of a block's name"""
    w = here()
    parts = shm.flat(a)
    if not parts or isinstance(parts[0], str) or not z3.eq(parts[0], w.name):
        raise Unsupported("a block that is not the lock's")
    rest = parts[1:]
    if rest == ["_count"]:
        return "count", None
    if rest and isinstance(rest[0], str) and rest[0].startswith("_"):
        if len(rest) == 1:
            body = rest[0][1:]
            kind = "lock" if body.endswith("_lock") else "marker"
            body = body[:-5] if kind == "lock" else body
            if body.isdigit():
                return kind, z3.IntVal(int(body))
        elif rest[0] == "_" and shm.int_part(rest[1]) is not None and rest[2:] in ([], ["_lock"]):
            return "lock" if rest[2:] else "marker", shm.int_part(rest[1])
    raise Unsupported(f"block name {a}")


def shared_memory(name, create, size):
    kind, k = parse(shm.name_term(name))
    if create is True:
        if not here().take(kind, k):
            raise FileExistsError(17, "File exists")
    elif not here().there(kind, k):
        raise FileNotFoundError(2, "No such file or directory")
    return Block(kind, k)


# ---- loops
class Range(Sym):
    """a range with symbolic bounds"""
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __dv_loop__(self, names):
        return CutFor(self, names)


def ranges(*a):
    if len(a) not in (1, 2, 3) or any(as_int(x) is None for x in a):
        raise Unsupported("range of this kind")
    ts = [as_int(x) for x in a]
    if len(ts) == 3:
        st = z3.simplify(ts[2])
        if z3.is_int_value(st) and st.as_long() == -1:
            return Range(z3.simplify(ts[1] + 1), z3.simplify(ts[0] + 1))
        if not (z3.is_int_value(st) and st.as_long() == 1):
            raise Unsupported("range of this kind")
    lo, hi = (z3.IntVal(0), ts[0]) if len(ts) == 1 else ts[:2]
    return Range(lo, hi)


def backwards(x):
    if isinstance(x, Range):
        return x
    raise Unsupported("reversed")


class Cut:
    """what a cut loop changes, and which of the candidate invariants do not hold of it; found by trying"""
    def __init__(self):
        self.mods, self.dropped = set(), set()


def cut_info(frame):
    return core.E.cuts.setdefault((frame.f_code, frame.f_lasti), Cut())


class Loop:
    """entering a loop at an arbitrary iteration, and coming back to its head"""
    def __init__(self, names, frame):
        run = core.E.run
        self.names, self.frame, self.info = names, frame, cut_info(frame)
        self.w = here()
        self.lock = self.w.lock
        for n, c in self.candidates().items():
            self.hold(n, c)
        self.before = Slots(run, run.inst_frames())
        for n in names:
            if n in frame.f_locals:
                frame.f_locals[n] = Poison(n)
                core.ctypes.pythonapi.PyFrame_LocalsToFast(core.ctypes.py_object(frame), core.ctypes.c_int(0))
        run.weak = True
        self.w.others()
        for sid in sorted(self.info.mods, key=str):
            self.forget(sid)
        self.w.others()
        self.start = dict(self.lock.__dict__)
        for n, f in self.candidates(assumed=True).items():
            if n not in self.info.dropped:
                f()
        self.after = Slots(run, run.inst_frames())

    def forget(self, sid):
        run = core.E.run
        name = sid[2]
        d = self.lock.__dict__
        if name in ("number", "floor", "spins"):
            d[name] = SInt(self.w.int(name))
            self.w.index(d[name].t)
        elif name == "acquired":
            d[name] = wbool(z3.Bool(run.fresh(name)))
        elif name == "marker":
            if core.E.decide(z3.Bool(run.fresh("has_marker"))):
                m = self.w.int("ticket")
                self.w.own, self.w.claim, self.w.ownlock = m, z3.Bool(run.fresh("claim")), False
                self.w.index(m)
                run.add(z3.Not(self.w.locked(m)))
                self.w.keep_own(self.w.locked)
                run.add(self.w.ever(m))
                d[name] = Block("marker", m)
            else:
                self.w.own, self.w.claim = None, FALSE
                d[name] = None
        else:
            raise Unsupported(f"a cut loop changes {name}")

    def hold(self, name, c):
        """a candidate holds here, or is no invariant"""
        if name in self.info.dropped:
            return
        if c is None:
            return
        if not core.E.valid(c):
            if core.E.check(core.E.run.solver, TRUE) == z3.unsat:
                raise PathEnd()
            self.info.dropped.add(name)
            raise Restart()

    def candidates(self, assumed=False):
        """name -> formula here (None: says nothing), or name -> how to assume it"""
        w, d, run = self.w, self.lock.__dict__, core.E.run
        marker, number, floor, acquired = d["marker"], as_int(d["number"]), None if d["floor"] is None else as_int(d["floor"]), bool_term(d["acquired"])
        out = {}
        if marker is not None:
            if marker.kind != "marker" or w.own is None or not core.E.valid(marker.k == w.own):
                raise Unsupported("a marker that is not our slot")
            out["marker_is_number"] = number == marker.k
            out["claimed"] = w.claim
        elif w.own is not None:
            raise Unsupported("a slot without its marker")
        out["acquired_only_when_holding"] = z3.Implies(acquired, z3.And(w.holding(), number == w.own) if w.own is not None else FALSE)
        out["not_acquired"] = z3.Not(acquired)
        if floor is not None:
            out["floor_below"] = floor < number
            out["floor_reached"] = floor <= w.c
            tried = lambda k: z3.Implies(z3.And(floor < k, k < number), w.ever(k))
            if assumed:
                ever = w.ever
                out["tried"] = lambda: w.forall(lambda k: z3.Implies(z3.And(floor < k, k < number), ever(k)))
            else:
                out["tried"] = tried(w.index(w.int("any")))
        if assumed:
            return {n: (c if callable(c) else (lambda c=c: run.add(c))) for n, c in out.items()}
        return out

    def again(self):
        """the body fell through to the head: the invariant holds, and only what was forgotten has changed"""
        run = core.E.run
        now, more = Slots(run, run.inst_frames()), False
        for sid, v in self.after.v.items():
            if sid[0] == "var" and sid[2] in self.names and self.before.frames[sid[1]] is self.frame:
                continue
            if sid not in now.v or not unchanged(v, now.v[sid]):
                if sid[0] == "attr" and run.objs[sid[1]] is self.lock and sid not in self.info.mods:
                    self.info.mods.add(sid)
                    more = True
                    continue
                if sid[0] == "attr" and sid in self.info.mods:
                    continue
                raise Unsupported(f"a cut loop changes {sid}")
        if more:
            raise Restart()
        for n, c in self.candidates().items():
            self.hold(n, c)


class CutFor:
    """for each element of a range: what holds of an arbitrary element after its iteration, and stays so, holds of all at the end"""
    def __init__(self, rng, names):
        self.rng, self.names, self.loop, self.x = rng, names, None, None

    def __iter__(self):
        return self

    def __next__(self):
        run = core.E.run
        frame = sys._getframe(1)
        if self.loop is None:
            self.loop = Loop(self.names, frame)
            w, lo, hi = self.loop.w, self.rng.lo, self.rng.hi
            if core.E.decide(z3.Bool(run.fresh("element"))):
                self.x = w.index(w.int("element"))
                run.add(z3.And(lo <= self.x, self.x < hi))
                return SInt(self.x)
            if "passed" not in self.loop.info.dropped:
                c = w.c
                w.forall(lambda k: z3.Implies(z3.And(lo <= k, k < hi), k <= c))
                w.index(hi - 1)
            raise StopIteration
        self.loop.hold("passed", self.x <= self.loop.w.c)
        self.loop.again()
        raise PathEnd()


class CutWhile(Sym):
    def __init__(self):
        self.loop, self.asked = None, False

    def __iter__(self):
        return self

    def note(self, c):
        raise Unsupported("loop protocol")

    def __next__(self):
        if self.loop is None:
            self.loop = Loop((), sys._getframe(1))
            return False
        self.loop.again()
        raise PathEnd()


class Prompt(Sym):
    """a loop that ends after one round"""
    def __init__(self):
        self.rounds = 0

    def __iter__(self):
        return self

    def note(self, c):
        raise Unsupported("loop protocol")

    def __next__(self):
        self.rounds += 1
        if self.rounds > 2:
            demand("alone.one_look_suffices", FALSE)
            raise PathEnd()
        return False


def while_iter():
    return Prompt() if here().prompt else CutWhile()


def interference(name, quiet=False):
    """from here on, shared memory is the blocks of the lock of this name, used by others as well"""
    run = core.E.run
    run.shared = Shared(name, quiet)
    run.outside[id(range)] = ranges
    run.outside[id(reversed)] = backwards
    run.outside[id(time.sleep)] = lambda t: None
    run.outside[id(SharedMemory)] = lambda name=None, create=False, size=0, track=True: shared_memory(name, create, size)
    return run.shared


def watch(lock):
    """the lock object whose loops are cut"""
    here().lock = lock


def claim(lock, number, locked=True):
    """the lock object holds the lock with this number, as __enter__ leaves it"""
    w = here()
    n = as_int(number)
    w.own, w.claim, w.ownlock = n, TRUE, locked
    w.index(n)
    core.E.run.add(z3.And(w.has(n), w.ever(n), w.locked(n) if locked else z3.Not(w.locked(n)), n > w.c))
    lock.marker, lock.number = Block("marker", n), SInt(n)
    if locked:
        lock.lock = Block("lock", n)


def given(c):
    core.E.run.add(bool_term(c) if not isinstance(c, z3.ExprRef) else c)
