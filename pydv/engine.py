"""Path exploration, loop summaries and proof obligations."""
import copy
import contextlib, ctypes, itertools, os, sys, time, traceback, types
import z3
from . import core
from .core import *
from .core import _d


class Restart(BaseException):
    pass


UNBOUND = type("Unbound", (), {"__repr__": lambda s: "UNBOUND"})()


class LoopInfo:
    """what one loop does, found by executing its body once from an arbitrary state"""
    def __init__(self, key):
        self.key, self.W, self.round, self.exits, self.trans, self.sig = key, {}, 0, False, [], None
        self.reached, self.reqs = False, []


class BasePull:
    """position of an iteration over one symbolic base sequence"""
    def __init__(self, chunk):
        self.c = chunk
        self.lo, self.hi = z3.simplify(chunk.lo_t()), z3.simplify(chunk.hi_t())
        self.state, self.endless = "new", False

    def pull(self):
        run = E_.run
        run.alive()
        if self.state == "done":
            return None
        try:
            if self.state == "generic":
                return run.back_edge(self)
            return run.first_pull(self)
        except (Unsupported, PathEnd, Restart):
            raise
        except Exception as ex:
            # an error of the engine must not look like an exception of the program
            if os.environ.get("PYDV_TRACE"):
                import traceback; traceback.print_exc(limit=-4)
            raise Unsupported(f"internal: {type(ex).__name__}: {ex}")


core.BasePull = BasePull


def int_like(v):
    return (type(v) is int) or isinstance(v, SInt)


def str_like(v):
    return isinstance(v, (str, SStr))


def kind_of(entry, final, sid):
    if sid[0] == "world":
        return "world"
    if entry is UNBOUND or isinstance(entry, Poison):
        return "dead"
    if isinstance(entry, DictC):
        return "dict"
    if isinstance(entry, list):
        return "list"
    if isinstance(entry, SymList) and isinstance(final, SymList):
        return "list"
    if isinstance(entry, SymDict) and isinstance(final, SymDict):
        return "dict"
    if isinstance(entry, SymSet) and isinstance(final, (SymSet, set)):
        return "set"
    if int_like(entry) and int_like(final):
        return "int"
    if str_like(entry) and str_like(final):
        return "str"
    if isinstance(entry, (bool, SBool)) and isinstance(final, (bool, SBool)):
        return "bool"
    return "val"


SORT = {"int": I, "str": S, "bool": B, "val": Val, "world": World, "list": Sq, "dict": Val}


def slot_term(kind, v):
    """the z3 term of a slot value of a given kind"""
    if kind == "int":
        return as_int(v)
    if kind == "str":
        return sterm(v)
    if kind == "bool":
        return bool_term(v)
    if kind == "world":
        return v
    if kind == "list":
        return eseq(v if isinstance(v, list) else v.c)
    if kind == "dict":
        return edict(v if isinstance(v, DictC) else v.c)
    return embed(v)


def slot_wrap(kind, t, sid):
    if kind == "int":
        return wint(t)
    if kind == "str":
        return wstr(t)
    if kind == "bool":
        return wbool(t)
    if kind == "world":
        return t
    if kind == "list":
        c = wseq(t)
        return c if sid[0] == "box" else SymList(c)
    if kind == "dict":
        c = DictC(t)
        return c if sid[0] == "box" else SymDict.of(c)
    return wrap(t)


def unchanged(a, b):
    if a is b:
        return True
    if isinstance(a, Poison) and isinstance(b, Poison):
        return True
    if isinstance(a, DictC) and isinstance(b, DictC):
        return ((a.base is None) == (b.base is None)) and (a.base is None or z3.eq(a.base, b.base)) and unchanged(a.upd, b.upd)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(unchanged(x, y) for x, y in zip(a, b))
    if isinstance(a, U) and isinstance(b, U):
        return unchanged(a.v, b.v)
    if type(a) is tuple and type(b) is tuple:
        return len(a) == len(b) and all(unchanged(x, y) for x, y in zip(a, b))
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return z3.eq(a, b)
    if isinstance(a, Box) and not isinstance(a, (FrozenList, FrozenDict)):
        return False
    return same_syntax(a, b)


class Slots:
    """the places whose value may change from one pull to the next"""
    def __init__(self, run, frames):
        self.frames = frames
        out = {}
        for d, f in enumerate(frames):
            for n, v in f.f_locals.items():
                if "__dv_" not in n and n != ".0":
                    out["var", d, n] = v
        for k, b in enumerate(run.boxes):
            out["box", k] = b.c
        for k, o in enumerate(run.objs):
            for n, v in o.__dict__.items():
                if n not in ("_c", "_id"):
                    out["attr", k, n] = v
        out["world",] = run.world
        for k, g in enumerate(run.gens):
            f = g.gi_frame
            if f is None:
                out["gen", k] = ("finished",)
            elif not g.gi_running:
                out["gen", k] = ("at", f.f_lasti)
                for n, v in f.f_locals.items():
                    if "__dv_" not in n and n != ".0":
                        out["gvar", k, n] = v
        skip = {id(bp) for bp in run.active}
        for k, it in enumerate(run.iters):
            if id(getattr(it, "base", None)) in skip and it.inner is None:
                continue
            where, t = it.dv_pos()
            out["where", k] = where
            if t is not None:
                out["pos", k] = wint(t)
        self.nbox, self.nobj, self.ngen, self.niter = len(run.boxes), len(run.objs), len(run.gens), len(run.iters)
        self.v = out


class Run:
    """one execution of the driver along one sequence of decisions"""

    def __init__(self, engine, prefix, target=None):
        self.e = engine
        self.prefix, self.dec, self.target = list(prefix), [], target
        self.solver = z3.Solver()
        self.solver.set("timeout", engine.feas_ms)
        self.solver.set("random_seed", 7)
        self.pc, self.branch, self.asserted = [], [], set()
        self.n = 0
        self.boxes, self.objs, self.objix = [], [], {}
        self.iters, self.gens, self.sorted, self.fms = [], [], [], []
        self.world = z3.Const("w0", World)
        self.alts, self.elements, self.ufacts, self.ne_depth = [], [], [], 0
        self.dead = False
        self.active = []                      # loops whose body is being executed generically
        self.folds, self.loopinst = [], []
        self.local = 0                        # depth of local exploration
        self.fresh_names = {}
        self.clo = {}
        self.root = None
        self.unfold = {}
        # how opaque code behaves in this run
        self.mode = "pure"                    # or "effect"
        self.raises = False
        self.attr_hook = self.iter_hook = self.method_hook = self.call_hook = None
        self.total_attrs = self.total_items = self.text_attrs = frozenset()
        self.exc_scanned = {}
        self.outside = {}
        self.kinds = {}                       # term id -> "map" | "seq"
        self.containers = "map"
        self.iterables_raise = False
        self.unique_upds = []
        self.contracts = {}
        self.keep = []
        self.mem = None
        self.shared, self.weak = None, False  # memory other processes change; some loop is known by an inferred invariant only
        self.cut = None                       # loops over known sequences this long are cut
        self.order = None                     # how opaque values compare, where a contract says

    def alive(self):
        if self.dead:
            raise PathEnd()

    def newbox(self, b):
        b.__dict__["_id"] = len(self.boxes)
        self.boxes.append(b)

    def write(self, b):
        self.alive()
        k = b.__dict__.get("_id")
        if k is None or k >= len(self.boxes) or self.boxes[k] is not b:
            raise Unsupported("mutation of an object created outside the run")

    def newgen(self, g):
        self.gens.append(g)

    def newobj(self, o):
        if id(o) not in self.objix:
            self.objix[id(o)] = len(self.objs)
            self.objs.append(o)

    def fresh(self, base="k"):
        self.n += 1
        return f"{base}!{self.n}"

    # ---------------------------------------------------------- facts and decisions
    def add(self, f):
        f = z3.simplify(f)
        if z3.is_true(f):
            return
        if f.get_id() in self.asserted:
            return
        self.asserted.add(f.get_id())
        self.pc.append(f)
        self.solver.add(f)
        if self.e.exc_types:
            self.exceptions_in(f)

    def exceptions_in(self, f):
        """the exception axioms for every exception a condition speaks about"""
        todo = [f]
        while todo:
            t = todo.pop()
            if t.get_id() in self.exc_scanned:
                continue
            self.exc_scanned[t.get_id()] = t
            if not z3.is_app(t):
                continue
            if t.num_args() == 2 and t.decl().name() == "excisa":
                known = self.e.exc_types.get(t.arg(1).get_id())
                if known is not None:
                    self.e.exc_facts(t.arg(0), known[0])
            todo.extend(t.children())

    def decide(self, cond):
        self.alive()
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = len(self.dec)
        if k < len(self.prefix):
            c = self.prefix[k]
            if c not in (0, 1, "T", "F"):
                raise RuntimeError(f"replay diverged: {c} at decision {cond}")
            forced, val = c in ("T", "F"), c in (1, "T")
        else:
            t = self.e.check(self.solver, cond)
            f = self.e.check(self.solver, z3.Not(cond)) if t != z3.unsat else z3.sat
            if t == z3.unsat:
                c, val, forced = "F", False, True
            elif f == z3.unsat:
                c, val, forced = "T", True, True
            else:
                c, val, forced = 1, True, False
                self.alts.append(tuple(self.dec) + (0,))
        self.dec.append(c)
        lit = cond if val else z3.Not(cond)
        self.add(lit)
        self.branch.append((lit, forced))
        return val

    def token(self, compute):
        """a replayable non-branching choice"""
        k = len(self.dec)
        c = self.prefix[k] if k < len(self.prefix) else compute()
        self.dec.append(c)
        return c

    # ---------------------------------------------------------- pulls
    def inst_frames(self):
        f = sys._getframe(1)
        out = []
        while f is not None and f is not self.root:
            if "__dv_mod__" in f.f_globals and f.f_code.co_name != "<module>":
                out.append(f)
            f = f.f_back
        out.reverse()
        return out

    def first_pull(self, bp):
        e = self.e
        frames = self.inst_frames()
        sig = tuple((f.f_code, f.f_lasti) for f in frames)
        if not bp.endless and self.token(lambda: "empty" if e.check(self.solver, bp.lo < bp.hi) == z3.unsat else "some") == "empty":
            bp.state = "done"
            return None
        key = tuple(self.dec)
        info = e.active.get(key)
        analysing = info is not None
        if info is None:
            info = e.loops.get(key)
        if info is None:
            info = e.analyse(self, key)
        if not analysing and not info.trans:
            # never comes back to this program point: take one element
            self.dec.append("one")
            if not bp.endless and not self.decide(bp.lo < bp.hi):
                bp.state = "done"
                return None
            j = bp.lo
            bp.lo = z3.simplify(bp.lo + 1)
            bp.state = "new"
            return e.element(bp.c.atom, j), j
        self.dec.append(("loop", info.round) if analysing else "loop")
        slots = Slots(self, frames)
        bp.info, bp.sig, bp.slots = info, sig, slots
        kid = e.keyid(key)
        lo, hi, atom = bp.lo, bp.hi, bp.c.atom
        if analysing:
            info.sig = sig
            j = z3.Int(f"j!{kid}")
            self.add(lo <= j if bp.endless else z3.And(lo <= j, j < hi))
            if e.check(self.solver, z3.BoolVal(True)) == z3.unsat:
                self.dead = True
                raise PathEnd()
            bp.j = j
            info.H = {}
            for sid in sorted(info.W, key=str):
                self.havoc(info, sid, slots, kid)
            x = e.element(atom, j)
            self.enter(bp, frames)
            info.reached = True
            return x, j
        lp = e.summary(self, info, bp, slots, kid)
        if bp.endless:
            self.dec.append("ends")
            self.add(z3.Not(lp.all))
        if bp.endless or info.exits and not self.decide(lp.all):
            j = lp.first
            self.add(lo <= j if bp.endless else z3.And(lo <= j, j < hi))
            bp.j = j
            self.put(info, slots, lp, j)
            e.ufact(atom, lo, j, lp.B)
            x = e.element(atom, j)
            self.add(z3.Not(lp.B(x, j)))
            if bp.endless:
                # two searches over the numbers may differ by a step taken before the loop
                e.element(atom, z3.simplify(j + 1))
                e.element(atom, z3.simplify(j - 1))
            bp.branch_from = None
            self.enter(bp, frames)
            if e.check(self.solver, z3.BoolVal(True)) == z3.unsat:
                self.dead = True
                raise PathEnd()
            return x, j
        self.put(info, slots, lp, hi)
        e.ufact(atom, lo, hi, lp.B)
        bp.state = "done"
        return None

    def enter(self, bp, frames):
        bp.state = "generic"
        bp.after = Slots(self, frames)
        bp.mark = len(self.branch)
        bp.memlen = len(self.mem.log) if self.mem is not None else 0
        bp.freshmark = self.n
        self.active.append(bp)

    def havoc(self, info, sid, slots, kid):
        kind = info.W[sid]
        if kind == "dead":
            self.set_slot(slots, sid, Poison(sid[-1]))
            return
        name = f"h!{kid}!" + "_".join(map(str, sid))
        if kind == "set":
            p = z3.Function(name, Val, B)
            self.set_slot(slots, sid, SymSet(lambda k: p(k)))
            info.H[sid] = p
            return
        h = z3.Const(name, SORT[kind])
        info.H[sid] = h
        self.set_slot(slots, sid, slot_wrap(kind, h, sid))

    def put(self, info, slots, lp, t):
        for sid in sorted(info.W, key=str):
            self.set_slot(slots, sid, lp.value(sid, t))

    def set_slot(self, slots, sid, v):
        if sid[0] == "var":
            f = slots.frames[sid[1]]
            d = f.f_locals
            if v is UNBOUND:
                return
            d[sid[2]] = v
            ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(f), ctypes.c_int(0))
        elif sid[0] == "box":
            self.boxes[sid[1]].__dict__["_c"] = v
        elif sid[0] == "pos":
            self.iters[sid[1]].dv_seek(as_int(v) if isinstance(v, SInt) else z3.IntVal(v))
        elif sid[0] == "gvar":
            f = self.gens[sid[1]].gi_frame
            if v is not UNBOUND:
                f.f_locals[sid[2]] = v
                ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(f), ctypes.c_int(0))
        elif sid[0] == "attr":
            if v is not UNBOUND:
                self.objs[sid[1]].__dict__[sid[2]] = v
        else:
            self.world = v

    def back_edge(self, bp):
        e, info = self.e, bp.info
        frames = self.inst_frames()
        sig = tuple((f.f_code, f.f_lasti) for f in frames)
        same = len(frames) == len(bp.slots.frames) and all(a is b for a, b in zip(frames, bp.slots.frames)) and sig == bp.sig
        if self.local:
            raise Unsupported("iteration during a proof step")
        if self.mem is not None and len(self.mem.log) != bp.memlen:
            raise Unsupported("shared memory written in a loop")
        if self.target is not None and self.target is not info and bp in self.active:
            # an enclosing loop goes on: the loop being analysed was left
            at = [k for k, b in enumerate(self.active) if b.info is self.target]
            if at and self.active.index(bp) < at[0]:
                self.target.exits = True
        if not same:
            # the iteration goes on from another place: the loop at the first place was left
            if self.target is info:
                info.exits = True
                self.dead = True
                raise PathEnd()
            if e.active.get(info.key) is info:
                self.dead = True
                raise PathEnd()
            bp.lo = z3.simplify(bp.j + 1)
            bp.state = "new"
            self.active.remove(bp)
            return self.first_pull(bp)
        if self.target is info:
            self.record(bp, frames)
        self.dead = True
        raise PathEnd()

    def record(self, bp, frames):
        info = bp.info
        now, was = Slots(self, frames).v, bp.after.v
        finals, grew = {}, False
        for sid, v in now.items():
            if sid[0] == "box" and sid[1] >= bp.after.nbox or sid[0] == "attr" and sid[1] >= bp.after.nobj \
                    or sid[0] in ("gen", "gvar") and sid[1] >= bp.after.ngen or sid[0] in ("where", "pos") and sid[1] >= bp.after.niter:
                continue
            old = was.get(sid, UNBOUND)
            if unchanged(old, v):
                continue
            if sid[0] in ("gen", "where") or sid[0] == "pos" and old is UNBOUND:
                raise Unsupported("an iterator outside the loop moves on in it")
            if isinstance(v, SV) and (old is None or isinstance(old, bool)) and self.e.valid(v.t == embed(old)):
                continue
            if isinstance(v, SBool) and isinstance(old, bool) and self.e.valid(v.t == z3.BoolVal(old)):
                continue
            entry = bp.slots.v.get(sid, UNBOUND)
            k = kind_of(entry, v, sid)
            if sid not in info.W:
                info.W[sid] = k
                grew = True
            elif info.W[sid] != k and info.W[sid] not in ("val", "dead"):
                info.W[sid] = "val"
                grew = True
            finals[sid] = v
        if grew:
            raise Restart()
        for sid, kind in info.W.items():
            if kind == "dead":
                continue
            v = finals.get(sid, now.get(sid, UNBOUND))
            if kind == "list":
                finals[sid] = freeze(list(v if isinstance(v, list) else v.c))
            elif kind == "dict":
                c = v if isinstance(v, DictC) else v.c
                finals[sid] = DictC(c.base, freeze(list(c.upd)))
            elif kind == "set":
                finals[sid] = v
            else:
                try:
                    finals[sid] = slot_term(kind, v)
                except Unsupported:
                    info.W[sid] = "dead"
                    raise Restart()
                if finals[sid] is None:
                    info.W[sid] = "val"
                    raise Restart()
        conds = [lit for lit, forced in self.branch[bp.mark:] if not forced]
        # symbols made up inside the body would be shared by all iterations
        made = [n for n in consts(conds + all_terms(finals)) if "!" in n and n.split("!")[0] in ("k", "b") and int(n.split("!")[1]) > bp.freshmark]
        if made:
            raise Unsupported(f"loop body depends on an unconstrained value {made[0]}")
        for t in all_terms(finals):
            pass
        info.trans.append((conds, finals))


def all_terms(finals):
    out = []
    for v in finals.values():
        if isinstance(v, z3.ExprRef):
            out.append(v)
        elif isinstance(v, DictC):
            if v.base is not None:
                out.append(v.base)
            terms(v.upd, out)
        elif isinstance(v, (list, tuple)):
            terms(v, out)
    return out


class Summary:
    """closed forms of one loop at one place of one run"""

    def __init__(self, run, info, bp, slots, kid):
        e = run.e
        self.run, self.info, self.bp = run, info, bp
        self.atom, self.lo, self.hi = bp.c.atom, bp.lo, bp.hi
        self.entry = {sid: slots.v.get(sid, UNBOUND) for sid in info.W}
        self.X, self.IX = z3.Const(f"x!{kid}", Val), z3.Int(f"ix!{kid}")
        j = z3.Int(f"j!{kid}")
        self.abs = [(elt(self.atom.t, j), self.X), (j, self.IX)]
        H, T = info.H, info.trans
        self.form = {}
        names = {}
        for sid, h in H.items():
            names[h.name() if isinstance(h, z3.FuncDeclRef) else h.decl().name()] = sid
        self.names = names
        W = {s: k for s, k in info.W.items() if k != "dead"}
        self.T, self.W = T, W
        # integers that step by a constant
        for sid, k in W.items():
            if k == "int":
                d = {str(z3.simplify(f[sid] - H[sid])) for _, f in T}
                if len(d) == 1 and z3.is_int_value(z3.simplify(T[0][1][sid] - H[sid])):
                    self.form[sid] = ("lin", z3.simplify(T[0][1][sid] - H[sid]).as_long())
        # integers computed from those, that turn out to step by a constant too
        again = True
        while again:
            again = False
            for sid, k in W.items():
                if k != "int" or sid in self.form or len({f[sid].get_id() for _, f in T}) > 1:
                    continue
                t = T[0][1][sid]
                ns = consts([t])
                if any(names[n] not in self.form for n in ns if n in names) or set(ns) & {self.X.decl().name()} or funcs([t]):
                    continue
                e0 = as_int(self.entry[sid]) if int_like(self.entry[sid]) else None
                if e0 is None:
                    continue
                g = self.sub(t, self.X, self.IX)
                d = z3.simplify(z3.substitute(g, (self.IX, self.IX + 1)) - g)
                if z3.is_int_value(d) and z3.is_true(z3.simplify(g == e0 + d * (self.IX + 1 - self.lo))):
                    self.form[sid] = ("lin", d.as_long())
                    again = True
        # lists and dicts that only grow
        for sid, k in W.items():
            if k == "list" and all(f[sid] and isinstance(f[sid][0], F) and f[sid][0].body is None and f[sid][0].lo is None
                                   and f[sid][0].hi is None and z3.eq(f[sid][0].atom.t, H[sid]) for _, f in T):
                self.form[sid] = ("grow", [(c, f[sid][1:]) for c, f in T])
            elif k == "dict" and all(f[sid].base is not None and z3.eq(f[sid].base, H[sid]) for _, f in T):
                self.form[sid] = ("grow", [(c, f[sid].upd) for c, f in T])
        for sid, k in W.items():
            if k == "dict" and sid not in self.form and self.shrinks(sid, H, T):
                self.form[sid] = ("shrink", None)
        T = self.T = self.own_entries(H, T)
        for sid, f in list(self.form.items()):
            if f[0] == "shrink":
                name = H[sid].decl().name()
                kept = [(c, z3.eq(f_[sid].base, H[sid])) for c, f_ in T]
                if name in consts([q for c, f_ in T for q in c + all_terms({s: v for s, v in f_.items() if s != sid})]):
                    del self.form[sid]
                else:
                    self.form[sid] = ("shrink", kept)
        for sid, f in list(self.form.items()):
            if f[0] == "grow":
                self.form[sid] = ("grow", [(c, f_[sid].upd if W[sid] == "dict" else f_[sid][1:]) for c, f_ in T])
                name = H[sid].decl().name()
                if name in consts([q for d in self.form[sid][1] for q in terms(d[1], [])] + [q for c, _ in T for q in c]):
                    raise Unsupported("a container that grows by what it holds")
        # copies of another slot's next value
        def dep(ts):
            return {names[n] for n in consts(ts) if n in names} | {names[n] for n in funcs(ts) if n in names}
        scal = [s for s, k in W.items() if s not in self.form and k not in ("list", "dict", "set")]
        deps = {}
        for sid in scal:
            ts = [f[sid] for _, f in T]
            if len({t.get_id() for t in ts}) > 1:
                ts = ts + [q for c, _ in T for q in c]
            deps[sid] = dep(ts)
        for sid in scal:
            if sid in deps[sid] or sid[0] == "world":
                continue
            for o in scal:
                if o != sid and o not in [s for s, f in self.form.items() if f[0] == "copy"] and W[o] == W[sid] \
                        and o in deps[o] and all(z3.eq(f[o], f[sid]) for _, f in T):
                    self.form[sid] = ("copy", o)
                    break
            else:
                if not any(sid in deps[o] for o in scal if o != sid):
                    self.form[sid] = ("last", None)
        rest = [s for s in W if s not in self.form]
        bad = [s for s in rest if W[s] == "set"]
        self.fold = [s for s in rest if W[s] not in ("set",)]
        for s in bad:
            self.form[s] = ("setfold", None)
        self.T, self.W = T, W
        self.folds = {}
        self.body = {}
        self.all_folds = self.fold
        for group in self.groups():
            self.fold = group
            self.make_fold()
        for s in bad:
            self.make_setfold(s)
        self.make_B()

    def shrinks(self, sid, H, T):
        """a dictionary that loses, in a loop over all its keys, the current key or nothing"""
        e0 = self.entry[sid]
        c0 = e0 if isinstance(e0, DictC) else getattr(e0, "c", None)
        if not isinstance(c0, DictC) or c0.base is None or c0.upd or not self.atom.unique or self.atom.view is not None:
            return False
        keys = dkeys(c0.base)
        if not z3.eq(self.atom.t, keys) or not z3.is_true(z3.simplify(self.lo == 0)) or not z3.is_true(z3.simplify(self.hi == slen(keys))):
            return False
        here = self.abs[0][0]
        forms = [f[sid] for _, f in T]
        if not all(isinstance(f, DictC) and f.base is not None and not f.upd for f in forms):
            return False
        gone = [z3.eq(f.base, core.withoutf(H[sid], here)) for f in forms]
        return any(gone) and all(g or z3.eq(f.base, H[sid]) for g, f in zip(gone, forms))

    def own_entries(self, H, T):
        """in a loop over distinct keys where a dictionary is only set at the current key, what it has there so far is what it had before the loop"""
        for sid, f in self.form.items():
            if f[0] not in ("grow", "shrink") or self.W[sid] != "dict" or not self.atom.unique or self.atom.view is not None:
                continue
            here = self.abs[0][0]
            if f[0] == "grow" and not all(isinstance(u, U) and isinstance(u.v[0], SV) and z3.eq(u.v[0].t, here) for _, d in f[1] for u in d):
                continue
            if H[sid].decl().name() not in consts([q for c, f_ in T for q in c + all_terms(f_)]):
                continue
            e0 = self.entry[sid]
            t = core.lookup_term(e0 if isinstance(e0, DictC) else e0.c, here)
            if t is None:
                continue
            p = [(dget(H[sid], here), t[1])]

            def put(v):
                if isinstance(v, z3.ExprRef):
                    return v if z3.eq(v, H[sid]) else z3.simplify(z3.substitute(v, *p))
                if isinstance(v, DictC):
                    return DictC(v.base, subst(v.upd, p))
                return subst(v, p) if isinstance(v, list) else v
            T = [([put(q) for q in c], {s: put(v) for s, v in f_.items()}) for c, f_ in T]
        return T

    # every slot's term at index t
    def term(self, sid, t):
        kind = self.W[sid]
        f = self.form[sid]
        e0 = self.entry[sid]
        if f[0] == "lin":
            return z3.simplify(as_int(e0) + f[1] * (t - self.lo))
        if f[0] == "fold":
            return f[1](t)
        if f[0] == "copy":
            return z3.simplify(z3.If(t == self.lo, slot_term(kind, e0), self.term(f[1], t)))
        return slot_term(kind, self.value(sid, t))

    def value(self, sid, t):
        kind = self.info.W[sid]
        if kind == "dead":
            return Poison(sid[-1])
        f, e0 = self.form[sid], self.entry[sid]
        if f[0] == "grow":
            body = self.grow_body(sid)
            new = [] if body is None else [F(body, self.atom, self.lo, z3.simplify(t))]
            if kind == "list":
                c = list(e0 if isinstance(e0, list) else e0.c) + new
                return c if sid[0] == "box" else SymList(c)
            c0 = e0 if isinstance(e0, DictC) else e0.c
            c = DictC(c0.base, list(c0.upd) + new)
            return c if sid[0] == "box" else SymDict.of(c)
        if f[0] == "shrink":
            base = (e0 if isinstance(e0, DictC) else e0.c).base
            entry = [U((SV(self.X), SV(dget(base, self.X))))]
            kept = z3.simplify(z3.Or([z3.And([self.sub(q, self.X, self.IX) for q in c]) for c, k in f[1] if k]))
            chunks = [F(Body(self.X, self.IX, [(kept, entry)], False), self.atom, self.lo, z3.simplify(t))]
            if not z3.eq(z3.simplify(t), z3.simplify(self.hi)):
                chunks.append(F(Body(self.X, self.IX, [(z3.BoolVal(True), entry)], True), self.atom, z3.simplify(t), self.hi))
            c = DictC(None, chunks)
            return c if sid[0] == "box" else SymDict.of(c)
        if f[0] == "last":
            i1 = z3.simplify(t - 1)
            x1 = elt(self.atom.t, i1)
            last = self.ite([(c, f_[sid]) for c, f_ in self.T], x1, i1)
            if z3.eq(z3.simplify(t), z3.simplify(self.lo)):
                return e0
            return slot_wrap(kind, z3.simplify(z3.If(t == self.lo, slot_term(kind, e0), last)), sid)
        if f[0] == "setfold":
            return f[1](t)
        return slot_wrap(kind, self.term(sid, t), sid)

    def sub(self, t, x, ix, only=None):
        """a transition term with the state replaced by its closed form at ix and the element by x"""
        t = z3.substitute(t, *self.abs)
        ns = consts([t])
        p = [(self.info.H[self.names[n]], self.term(self.names[n], self.IX)) for n in ns if n in self.names]
        if p:
            t = z3.substitute(t, *p)
        t = self.sub_sets(t, self.IX)
        return z3.simplify(z3.substitute(t, (self.X, x), (self.IX, ix)))

    def sub_sets(self, t, ix):
        for n in funcs([t]):
            if n in self.names:
                s = self.names[n]
                t = subst_fun(t, self.info.H[s], lambda k: self.form[s][1](ix).pred(k))
        return t

    def ite(self, cases, x, ix):
        r = None
        for c, v in reversed(cases):
            v = self.sub(v, x, ix)
            r = v if r is None else z3.If(z3.And([self.sub(q, x, ix) for q in c]), v, r)
        return z3.simplify(r)

    def grow_body(self, sid):
        if sid in self.body:
            return self.body[sid]
        groups = []
        for c, delta in self.form[sid][1]:
            if not delta:
                continue
            for g in groups:
                if unchanged(g[1], delta):
                    g[0].append(c)
                    break
            else:
                groups.append(([c], delta))
        p = self.abs
        br = []
        every = len(groups) == 1 and sum(len(g[0]) for g in groups) == len(self.T) and not self.info.exits
        for cs, delta in groups:
            cond = z3.BoolVal(True) if every else z3.simplify(z3.Or([z3.And([self.sub(q, self.X, self.IX) for q in c]) for c in cs]))
            br.append((cond, self.sub_chunks(delta)))
        total = every or (sum(len(g[0]) for g in groups) == len(self.T))
        self.body[sid] = Body(self.X, self.IX, br, total) if br else None
        return self.body[sid]

    def sub_chunks(self, chunks):
        ch = subst(chunks, self.abs)
        ns = consts(terms(ch, []))
        p = [(self.info.H[self.names[n]], self.term(self.names[n], self.IX)) for n in ns if n in self.names]
        if p:
            ch = subst(ch, p)
        fs = [n for n in funcs(terms(ch, [])) if n in self.names]
        if fs:
            raise Unsupported("a growing set inside a list")
        return ch

    def groups(self):
        """the folded slots, those that depend on each other together, in the order of their dependencies"""
        D = list(self.fold)
        if not D:
            return []
        conds = [q for c, _ in self.T for q in c]
        need = {}
        if self.info.exits and any(self.names[n] in D for n in consts(conds) if n in self.names):
            return [D]
        for s in D:
            ts = [f[s] if isinstance(f[s], z3.ExprRef) else slot_term(self.W[s], f[s]) for _, f in self.T]
            if len({t.get_id() for t in ts}) > 1:
                ts = ts + conds
            seen, todo = set(), [self.names[n] for n in consts(ts) if n in self.names]
            while todo:
                o = todo.pop()
                if o in seen:
                    continue
                seen.add(o)
                if self.form.get(o, ("",))[0] == "copy":
                    todo.append(self.form[o][1])
                elif o in self.W and o not in D:
                    ts2 = []
                    for _, f in self.T:
                        if isinstance(f[o], z3.ExprRef):
                            ts2.append(f[o])
                        else:
                            ts2 += all_terms({o: f[o]})
                    if self.form.get(o, ("",))[0] != "lin":
                        todo += [self.names[n] for n in consts(ts2 + conds) if n in self.names]
            need[s] = {o for o in seen if o in D and o != s}
        reach = {s: set(need[s]) for s in D}
        for _ in D:
            for s in D:
                for o in list(reach[s]):
                    reach[s] |= reach[o]
        out, left = [], list(D)
        while left:
            for s in left:
                g = [o for o in left if o == s or (o in reach[s] and s in reach[o])]
                if all(o in g or o not in left for m in g for o in reach[m]):
                    break
            else:
                return [D]
            out.append(g)
            left = [o for o in left if o not in g]
        return out

    def make_fold(self):
        e, run, D = self.run.e, self.run, self.fold
        st = {s: z3.Const(f"$s{k}_{SORT[self.W[s]]}", SORT[self.W[s]]) for k, s in enumerate(D)}
        holder = {}
        for s in D:
            self.form[s] = ("fold", lambda t, s=s: st[s])      # the state symbol while the steps are computed
        step = {}
        for s in D:
            vals = [(c, slot_term(self.W[s], f[s]) if not isinstance(f[s], z3.ExprRef) else f[s]) for c, f in self.T]
            if len({v.get_id() for _, v in vals}) == 1:
                vals = vals[:1]
            step[s] = self.ite(vals, self.X, self.IX)
        Bst = z3.simplify(z3.Or([z3.And([self.sub(q, self.X, self.IX) for q in c]) for c, _ in self.T])) if self.info.exits else z3.BoolVal(True)
        init = {s: slot_term(self.W[s], self.entry[s]) for s in D}
        inst = e.unify_fold(run, self.atom.t, self.lo, self.hi, self.X, self.IX, D, st, step, init, Bst)
        for s in D:
            self.form[s] = ("fold", inst[s])
        self.body = {}

    def make_setfold(self, s):
        k = z3.Const("$key", Val)
        p0 = self.entry[s]
        st = z3.Const("$s0_Bool", B)
        self.form[s] = ("setfold", lambda t: SymSet(lambda q: st))
        cases = []
        for c, f in self.T:
            cases.append((c, f[s].pred(k) if isinstance(f[s], SymSet) else setof(f[s]).pred(k)))
        # pointwise: membership of the same key only
        r = None
        for c, v in reversed(cases):
            v2 = subst_fun(z3.substitute(v, *self.abs), self.info.H[s], lambda q: st)
            for t in applied(v, self.info.H[s]):
                if not z3.eq(t, k):
                    raise Unsupported("set loop depends on other members")
            v2 = z3.substitute(v2, (self.X, self.X))
            r = v2 if r is None else z3.If(z3.And([self.sub(q, self.X, self.IX) for q in c]), v2, r)
        step = {s: z3.simplify(r)}
        e = self.run.e
        cache = {}

        def at(t):
            def pred(q):
                q = z3.simplify(q)
                if q.get_id() not in cache:
                    pr = lambda u: z3.substitute(u, (k, q))
                    cache[q.get_id()] = e.unify_fold(self.run, self.atom.t, self.lo, self.hi, self.X, self.IX, [s], {s: st},
                                                     {s: pr(step[s])}, {s: p0.pred(q)}, z3.BoolVal(True))[s]
                    self.run.keep.append(q)
                return cache[q.get_id()](t)
            return SymSet(pred)
        self.form[s] = ("setfold", at)

    def make_B(self):
        conds = [c for c, _ in self.T]
        if not self.info.exits:
            self.B = lambda x, ix: z3.BoolVal(True)
            self.all = z3.BoolVal(True)
            return
        bt = z3.simplify(z3.Or([z3.And([self.sub(q, self.X, self.IX) for q in c]) for c in conds]))
        self.bt = bt
        self.B = lambda x, ix: z3.simplify(z3.substitute(bt, (self.X, x), (self.IX, ix)))
        self.all, self.first = self.run.e.unify_all(self.run, self.atom.t, self.lo, self.hi, self.X, self.IX, bt)


def funcs(ts):
    seen, out, todo = set(), set(), list(ts)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
            todo.extend(t.children())
    return out


def applied(t, f):
    out, todo = [], [t]
    while todo:
        q = todo.pop()
        if z3.is_app(q):
            if q.num_args() and q.decl().eq(f):
                out.append(q.arg(0))
            todo.extend(q.children())
    return out


def subst_fun(t, f, fn):
    if not z3.is_app(t) or t.num_args() == 0:
        return t
    ch = [subst_fun(c, f, fn) for c in t.children()]
    if t.decl().eq(f):
        return fn(ch[0])
    return t.decl()(*ch)


class Obligation:
    def __init__(self, name):
        self.name, self.status, self.detail, self.checks, self.t = name, "discharged", "", 0, 0.0
        self.reached = False
        self.kinds = set()      # how checks failed: refuted, sat (countermodel in the abstraction), shape, unknown, unsupported


class Engine:
    def __init__(self, budget=300):
        global E_
        core.E = self
        E_ = self
        self.feas_ms, self.prove_ms = 4000, 15000
        self.run = None
        self.objs, self.objids, self.keepobj = {}, {}, []
        self.fm_ids, self.fm_depth, self.different = {}, 0, {}
        self.keyids, self.loops, self.active = {}, {}, {}
        self.obl, self.assumed = {}, []
        self.queries, self.solver_s = 0, 0.0
        self.t0, self.budget = time.time(), budget
        self.codeids = {}
        self.functions = set()
        self.nb = 0
        self.Restart = Restart
        self.name = "?"
        self.reach = {}
        self.paths = 0
        self.analysing = 0
        self.trace = False

    # ------------------------------------------------------------ solver
    def check(self, solver, cond):
        self.queries += 1
        t = time.time()
        if t - self.t0 > self.budget:
            raise Unsupported("time budget exhausted")
        r = solver.check(cond)
        self.solver_s += time.time() - t
        return r

    def valid(self, f):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return self.check(self.run.solver, z3.Not(f)) == z3.unsat

    def decide(self, c):
        return self.run.decide(c)

    def decide_eq(self, a, b):
        return bool(cmp_eq(a, b))

    def fact(self, f):
        if self.run is not None:
            for c in self.collectors:
                c.append(f)
            self.run.add(f)

    collectors = ()
    exc_types = {}

    @contextlib.contextmanager
    def collect(self):
        out = []
        self.collectors = self.collectors + (out,)
        try:
            yield out
        finally:
            self.collectors = self.collectors[:-1]

    def keyid(self, key):
        return self.keyids.setdefault((self.name, key), len(self.keyids))

    def objid(self, v):
        if isinstance(v, types.FunctionType) and v.__closure__ is not None and "__dv_mod__" in v.__globals__:
            raise Unsupported("closure identity")
        if self.run is not None and id(v) in self.run.objix:
            return 1000000 + self.run.objix[id(v)]
        if isinstance(v, types.FunctionType) and "<locals>" in v.__qualname__ and "__dv_mod__" in v.__globals__:
            return 500000 + self.codeid(v.__code__)
        if isinstance(v, types.FunctionType) and v.__name__ == "<lambda>" and "__dv_mod__" in v.__globals__:
            return 500000 + self.codeid(v.__code__)
        k = id(v)
        if k not in self.objids:
            if not (isinstance(v, (type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType, types.MethodType, types.GenericAlias))
                    or callable(v) or isinstance(v, (float, complex, frozenset, BaseException)) or v in (Ellipsis, NotImplemented)):
                raise Unsupported(f"native object of type {type(v).__name__} used as a value")
            self.objids[k] = len(self.objids) + 1
            self.keepobj.append(v)
            self.objs[self.objids[k]] = (v,)
        return self.objids[k]

    def codeid(self, code):
        return self.codeids.setdefault((code.co_filename, code.co_qualname, code.co_firstlineno), len(self.codeids))

    # ------------------------------------------------------------ exploration
    def explore(self, driver, prefix=(), target=None):
        stack = [tuple(prefix)]
        outer = self.run
        while stack:
            p = stack.pop()
            if time.time() - self.t0 > self.budget:
                raise Unsupported("time budget exhausted")
            r = Run(self, p, target)
            self.run = r
            r.root = sys._getframe(0)
            self.paths += 1
            if self.paths > 20000:
                raise Unsupported("too many paths")
            try:
                driver(r)
                if target is not None and r.reached_target():
                    target.exits = True
            except PathEnd:
                pass
            finally:
                self.run = outer
            stack.extend(r.alts)

    def analyse(self, run, key):
        info = LoopInfo(key)
        self.active[key] = info
        self.analysing += 1
        try:
            while True:
                info.trans, info.exits, info.reqs = [], False, []
                try:
                    self.explore(self.driver, key, info)
                    break
                except Restart:
                    info.round += 1
                    if info.round > 40:
                        raise Unsupported("loop analysis does not settle")
                finally:
                    self.run = run
        finally:
            del self.active[key]
            self.analysing -= 1
        for name, ok, why, refutes, path in info.reqs:
            self.settle(name, ok, why, refutes, path)
        self.loops[key] = info
        if self.trace:
            print("LOOP", info.sig and [(c.co_qualname, l) for c, l in info.sig], info.W, "exits", info.exits, "trans", len(info.trans))
            for c, f in info.trans:
                print("   ", [str(q)[:100] for q in c], {k: str(v)[:200] for k, v in f.items()})
        return info

    def summary(self, run, info, bp, slots, kid):
        return Summary(run, info, bp, slots, kid)

    # ------------------------------------------------------------ folds
    def shape(self, ts, fixed):
        """canonical text of terms with their free constants abstracted, and those constants"""
        cs = consts(ts)
        txt = [t.sexpr() for t in ts]
        free = [n for n in cs if n not in fixed]
        big = " ".join(txt)
        free.sort(key=lambda n: big.find(n if "!" not in n and "|" not in n else n))
        import re
        order = {}
        for m in re.finditer(r"\|[^|]*\||[^\s()]+", big):
            n = m.group(0).strip("|")
            if n in cs and n not in fixed and n not in order:
                order[n] = len(order)
        free = sorted(order, key=order.get)
        ph = [(cs[n], z3.Const(f"$c{k}_{cs[n].sort()}", cs[n].sort())) for k, n in enumerate(free)]
        ren = [z3.substitute(t, *ph) if ph else t for t in ts]
        return "|".join(t.sexpr() for t in ren), [cs[n] for n in free]

    def unify_fold(self, run, at, lo, hi, X, IX, D, st, step, init, Bst):
        out, rest = {}, []
        for s in D:
            r = None
            if st[s].sort() == B and z3.is_true(Bst) and not any(st[o].decl().name() in consts([step[s]]) for o in D if o is not s):
                r = self.bool_fold(run, at, lo, X, IX, st[s], step[s], init[s])
            if r is None:
                rest.append(s)
            else:
                out[s] = r
        if any(st[s].decl().name() in consts([step[o] for o in rest]) for s in out):
            out, rest = {}, list(D)
        if rest:
            out.update(self.unify_fold_(run, at, lo, hi, X, IX, rest, st, step, init, Bst))
        return out

    def bool_fold(self, run, at, lo, X, IX, st, step, init):
        """a truth value that is only ever and-ed, or only ever or-ed, along the loop"""
        f = z3.simplify(z3.substitute(step, (st, z3.BoolVal(False))))
        t = z3.simplify(z3.substitute(step, (st, z3.BoolVal(True))))
        if not z3.is_false(f) and not z3.is_true(t):
            return None

        def form(h):
            if z3.eq(z3.simplify(h), z3.simplify(lo)):
                return init
            a, first = self.unify_all(run, at, lo, z3.simplify(h), X, IX, t if z3.is_false(f) else z3.simplify(z3.Not(f)), True)
            return z3.simplify(z3.And(init, a) if z3.is_false(f) else z3.Or(init, z3.Not(a)))
        return form

    def unify_fold_(self, run, at, lo, hi, X, IX, D, st, step, init, Bst):
        # an earlier loop over the same elements with the same start and step has the same states
        key = ("fold", z3.simplify(z3.And([st[s] == step[s] for s in D])).sexpr(), at.sexpr(), lo.sexpr(), str([init[s].sexpr() for s in D]))
        for inst in run.folds:
            if not (z3.eq(inst["at"], at) and z3.eq(z3.simplify(inst["lo"]), z3.simplify(lo))):
                continue
            names = list(inst["D"])
            if len(names) < len(D):
                continue
            for perm in itertools.permutations(names, len(D)):
                if any(inst["st"][q].sort() != st[s].sort() for q, s in zip(perm, D)):
                    continue
                if not all(z3.eq(inst["init"][q], init[s]) or self.valid(inst["init"][q] == init[s]) for q, s in zip(perm, D)):
                    continue
                if self.fold_steps_equal(run, inst, perm, at, lo, hi, X, IX, D, st, step, Bst):
                    return {s: inst["fn"][q] for q, s in zip(perm, D)}
        mapping = [(X, z3.Const("$X", Val)), (IX, z3.Int("$I"))]
        order = sorted(D, key=lambda s: (str(st[s].sort()), str(z3.substitute(step[s], *mapping).sexpr())))
        ren = [(st[s], z3.Const(f"$t{k}_{st[s].sort()}", st[s].sort())) for k, s in enumerate(order)]
        ts = [z3.substitute(step[s], *(mapping + ren)) for s in order]
        text, caps = self.shape(ts, {"$X", "$I"} | {r[1].decl().name() for r in ren})
        fid = self.fm_ids.setdefault("FOLD " + text, len(self.fm_ids))
        args = [init[s] for s in order] + caps
        fn = {}
        for k, s in enumerate(order):
            f = z3.Function(f"FOLD{fid}_{k}", Sq, I, I, *[a.sort() for a in args], st[s].sort())
            fn[s] = lambda t, f=f: f(at, lo, t, *args)
            self.fact(fn[s](lo) == init[s])
        inst = {"at": at, "lo": lo, "hi": hi, "D": list(D), "st": st, "step": step, "init": init, "fn": fn, "X": X, "IX": IX}
        run.folds.append(inst)
        return fn

    def fold_steps_equal(self, run, inst, perm, at, lo, hi, X, IX, D, st, step, Bst):
        g = {s: z3.Const(f"$g{k}_{st[s].sort()}", st[s].sort()) for k, s in enumerate(D)}
        i = z3.Int("$gi")
        x = elt(at, i)
        p2 = [(st[s], g[s]) for s in D] + [(X, x), (IX, i)]
        p1 = [(inst["st"][q], g[s]) for q, s in zip(perm, D)] + [(inst["X"], x), (inst["IX"], i)]
        others = {inst["st"][q].decl().name() for q in inst["D"] if q not in perm}
        claims = []
        for q, s in zip(perm, D):
            a, b = z3.substitute(inst["step"][q], *p1), z3.substitute(step[s], *p2)
            if others & set(consts([a])):
                return False
            claims.append(z3.simplify(a == b))
        claim = z3.simplify(z3.And(claims))
        if z3.is_true(claim):
            return True
        with self.context([lo <= i, i < hi, z3.substitute(Bst, *p2)]):
            self.known_element(at, i)
            return self.valid(claim)

    def unify_all(self, run, at, lo, hi, X, IX, bt, facts=False):
        for inst in run.loopinst:
            if z3.eq(inst["at"], at) and z3.eq(inst["lo"], lo) and z3.eq(inst["hi"], hi):
                i = z3.Int("$gi")
                x = elt(at, i)
                a = z3.substitute(inst["bt"], (inst["X"], x), (inst["IX"], i))
                b = z3.substitute(bt, (X, x), (IX, i))
                claim = z3.simplify(a == b)
                ok = z3.is_true(claim)
                if not ok:
                    with self.context([lo <= i, i < hi]):
                        self.known_element(at, i)
                        ok = self.valid(claim)
                if ok:
                    return inst["all"], inst["first"]
        t = z3.substitute(bt, (X, z3.Const("$X", Val)), (IX, z3.Int("$I")))
        text, caps = self.shape([t], {"$X", "$I"})
        fid = self.fm_ids.setdefault("ALL " + text, len(self.fm_ids))
        a = z3.Function(f"ALL{fid}", Sq, I, I, *[c.sort() for c in caps], B)(at, lo, hi, *caps)
        f = z3.Function(f"FIRST{fid}", Sq, I, I, *[c.sort() for c in caps], I)(at, lo, hi, *caps)
        run.loopinst.append({"at": at, "lo": lo, "hi": hi, "bt": bt, "X": X, "IX": IX, "all": a, "first": f})
        if facts:
            at_ = lambda x, j: z3.substitute(bt, (X, x), (IX, j))
            self.fact(z3.Or(a, z3.And(lo <= f, f < hi, z3.Not(at_(self.known_element(at, f), f)))))
            self.ufact(at, lo, hi, lambda x, j: z3.Implies(a, at_(x, j)))
            self.ufact(at, lo, f, lambda x, j: z3.Implies(z3.Not(a), at_(x, j)))
        return a, f

    def unify_fm(self, c, r):
        """an earlier flat-map over the same elements with an equal body is the same sequence"""
        run = self.run
        for c2, r2, rep in run.fms:
            if z3.eq(r, r2):
                return rep
        if not self.unifying:
            self.unifying, saved = True, (self.why, self.refutes, self.unknown, self.sat)
            try:
                lo, hi = z3.simplify(c.lo_t()), z3.simplify(c.hi_t())
                for c2, r2, rep in run.fms:
                    if z3.eq(c2.atom.t, c.atom.t) and z3.eq(z3.simplify(c2.lo_t()), lo) and z3.eq(z3.simplify(c2.hi_t()), hi) \
                            and len(c2.body.branches) <= 4 >= len(c.body.branches):
                        # pairs that were different on many paths are taken to differ (only proofs are lost by that)
                        pair = (r.sexpr(), r2.sexpr())
                        if self.different.get(pair, 0) >= 8:
                            continue
                        try:
                            same = self.cases(lambda: self.same_body(c, c2, lo, hi))
                        except Unsupported:
                            same = False
                        self.different[pair] = 0 if same else self.different.get(pair, 0) + 1
                        if same:
                            run.fms.append((c, r, rep))
                            self.fact(r == rep)
                            return rep
            finally:
                self.unifying = False
                self.why, self.refutes, self.unknown, self.sat = saved
            run.fms.append((c, r, r))
        return r

    unifying = False

    # ------------------------------------------------------------ elements and universal facts
    def bound(self):
        self.nb += 1
        d = self.fm_depth
        return z3.Const(f"bx!{self.nb}", Val), z3.Int(f"bi!{self.nb}")

    def element(self, atom, j):
        j = z3.simplify(j) if isinstance(j, z3.ExprRef) else z3.IntVal(j)
        x = elt(atom.t, j)
        self.known_element(atom.t, j)
        return x

    def known_element(self, at, j):
        run = self.run
        x = elt(at, j)
        for a, i in run.elements:
            if z3.eq(a, at) and z3.eq(i, j):
                return x
        run.elements.append((at, j))
        rng = z3.And(j >= 0, j < L(at))
        if at.decl().name() == "dkeys":
            run.add(z3.Implies(rng, z3.And(dget(at.arg(0), x) != Val.absent, indexf(at, x) == j)))
        else:
            run.add(z3.Implies(rng, memf(at, x)))
        if at.decl().eq(core.revf):
            run.add(z3.Implies(rng, x == elt(at.arg(0), L(at) - 1 - j)))
        if at.decl().name() == "sortedq":
            core.SORTED_HOOK(at, j, x)
        for h in getattr(run, "element_hooks", ()):
            h(at, j, x)
        for fa, lo, hi, B_ in run.ufacts:
            if z3.eq(fa, at):
                run.add(z3.Implies(z3.And(lo <= j, j < hi), B_(x, j)))
        return x

    def ufact(self, atom, lo, hi, B_):
        run = self.run
        at = atom.t if isinstance(atom, Atom) else atom
        if z3.is_true(B_(z3.Const("$q", Val), z3.Int("$qi"))):
            return
        run.ufacts.append((at, lo, hi, B_))
        for a, i in list(run.elements):
            if z3.eq(a, at):
                run.add(z3.Implies(z3.And(lo <= i, i < hi), B_(elt(at, i), i)))

    def member(self, c, kt):
        """kt is an element of the identity chunk c (or of the base of c)"""
        at = c.atom.t
        kt = z3.simplify(kt)
        whole = c.lo is None and c.hi is None
        if kt.decl().name() == "elt" and z3.eq(kt.arg(0), at):
            j = kt.arg(1)
            if self.valid(z3.And(c.lo_t() <= j, j < c.hi_t())):
                return z3.BoolVal(True)
        if at.decl().name() == "dkeys":
            m = dget(at.arg(0), kt) != Val.absent
        else:
            m = memf(at, kt)
        ix = indexf(at, kt)
        self.fact(z3.Implies(m, z3.And(0 <= ix, ix < L(at), elt(at, ix) == kt)))
        whole = whole or (self.valid(c.lo_t() <= 0) and self.valid(c.hi_t() >= L(at)))
        if whole:
            return m
        if at.decl().name() == "dkeys":
            return z3.And(m, c.lo_t() <= ix, ix < c.hi_t())
        return memf(echunk(F(None, c.atom, c.lo, c.hi)), kt)

    def index_of(self, c, kt):
        if kt.decl().name() == "elt" and z3.eq(kt.arg(0), c.atom.t):
            return kt.arg(1)
        j = indexf(c.atom.t, kt)
        self.known_element(c.atom.t, j)
        return j

    def assume_empty(self, c):
        """the chunk is known to be empty"""
        if c.body is None:
            self.fact(c.hi_t() <= c.lo_t())
            return
        if one_unit(c):
            self.fact(c.hi_t() <= c.lo_t())
            return
        al, first, (X, IX, con) = core.nonempty_parts(c)
        self.fact(al)
        self.ufact(c.atom, c.lo_t(), c.hi_t(), lambda x, j: z3.simplify(z3.Not(z3.substitute(con, (X, x), (IX, j)))))

    # ------------------------------------------------------------ contexts: facts added and taken back
    def context(self, facts):
        return _Context(self.run, facts)

    def cases(self, fn):
        """run fn under every combination of the decisions it makes, within the current facts; True if all return True"""
        run = self.run
        saved = (run.dec, run.prefix, run.alts, run.branch)
        stack, ok = [()], True
        run.local += 1
        try:
            while stack and ok:
                p = stack.pop()
                run.prefix, run.dec, run.alts, run.branch = list(p), [], [], []
                with self.context([]):
                    try:
                        ok = bool(fn())
                    except PathEnd:
                        run.dead = False
                stack.extend(run.alts)
        finally:
            run.local -= 1
            run.dec, run.prefix, run.alts, run.branch = saved
        return ok

    # ------------------------------------------------------------ sequences
    def simplify_seq(self, chunks):
        out = []
        for c in chunks:
            if isinstance(c, F):
                if self.valid(c.hi_t() <= c.lo_t()):
                    continue
                if c.body is not None and all(not ch for _, ch in c.body.branches):
                    continue
                if c.body is not None and self.range_empty(c, c.lo_t(), c.hi_t()):
                    continue
            out.append(c)
        return out

    def range_empty(self, c, lo, hi):
        """no element of c with index in [lo, hi) contributes anything"""
        if c.body is None:
            return self.valid(hi <= lo)
        i = z3.Int(self.run.fresh("k"))
        with self.context([lo <= i, i < hi]):
            x = self.known_element(c.atom.t, i)
            for cond, ch in c.at(x, i):
                if not ch:
                    continue
                if not self.valid(z3.Not(cond)):
                    if any(isinstance(u, U) for u in ch):
                        return False
                    with self.context([cond]):
                        if any(self.simplify_seq(ch)):
                            return False
            return True

    def same_seq(self, A, Bc):
        return self.cases(lambda: self._same_seq(list(A), list(Bc)))

    def _same_seq(self, A, Bc):
        fuel = 60
        A, Bc = self.simplify_seq(A), self.simplify_seq(Bc)
        while fuel:
            fuel -= 1
            if not A and not Bc:
                return True
            if not A or not Bc:
                rest = A or Bc
                if any(isinstance(c, U) for c in rest):
                    return self.fail(f"one sequence has more elements: {rest}")
                return not self.simplify_seq(rest) or self.fail(f"one sequence has more elements: {rest}")
            a, b = A[0], Bc[0]
            if isinstance(a, U) and isinstance(b, U):
                if not self.same(a.v, b.v):
                    return False
                A.pop(0), Bc.pop(0)
                continue
            if isinstance(a, F) and isinstance(b, F):
                if z3.eq(a.atom.t, b.atom.t) or self.valid(a.atom.t == b.atom.t):
                    if self.valid(a.lo_t() == b.lo_t()):
                        if self.valid(a.hi_t() == b.hi_t()):
                            if not self.same_body(a, b, a.lo_t(), a.hi_t()):
                                return False
                            A.pop(0), Bc.pop(0)
                            continue
                        s, l, Ls, Ll = (a, b, A, Bc)
                        if not self.valid(a.hi_t() <= b.hi_t()):
                            s, l, Ls, Ll = (b, a, Bc, A)
                        if self.valid(s.hi_t() <= l.hi_t()):
                            if not self.same_body(s, l, s.lo_t(), s.hi_t()):
                                return False
                            Ls.pop(0)
                            Ll[0] = F(l.body, l.atom, s.hi_t(), l.hi)
                            continue
                    else:
                        if self.skip_empty(A, b.lo_t()) or self.skip_empty(Bc, a.lo_t()):
                            continue
                if z3.eq(echunk(a), echunk(b)) or self.valid(echunk(a) == echunk(b)):
                    A.pop(0), Bc.pop(0)
                    continue
            # expand one element of a flat-map
            if self.expand(A, Bc):
                continue
            if self.expand(Bc, A):
                continue
            x, y = eseq(A), eseq(Bc)
            if z3.eq(x, y) or self.valid(x == y):
                return True
            return self.fail(f"sequences not shown equal: {A} vs {Bc}")
        return self.fail("sequence comparison ran out of steps")

    def skip_empty(self, A, upto):
        a = A[0]
        if self.valid(z3.And(a.lo_t() <= upto, upto <= a.hi_t())) and self.range_empty(a, a.lo_t(), upto):
            A[0] = F(a.body, a.atom, upto, a.hi)
            return True
        return False

    def expand(self, A, other):
        a = A[0]
        if not isinstance(a, F):
            return False
        lo, hi = z3.simplify(a.lo_t()), z3.simplify(a.hi_t())
        cand = [lo] + [j for t, j in self.run.elements if z3.eq(t, a.atom.t) and not z3.eq(j, lo) and not j.sexpr().startswith("k!")]
        for j in cand:
            if not self.valid(z3.And(lo <= j, j < hi)):
                continue
            if not z3.eq(j, lo) and not self.range_empty(a, lo, j):
                continue
            x = self.known_element(a.atom.t, j)
            for cond, ch in a.at(x, j):
                if self.decide(cond):
                    A[0:1] = self.simplify_seq(list(ch) + [F(a.body, a.atom, z3.simplify(j + 1), a.hi)])
                    return True
            A[0:1] = self.simplify_seq([F(a.body, a.atom, z3.simplify(j + 1), a.hi)])
            return True
        return False

    def same_body(self, a, b, lo, hi):
        if a.body is None and b.body is None:
            return True
        i = z3.Int(self.run.fresh("k"))
        with self.context([lo <= i, i < hi, lo >= 0, hi <= L(a.atom.t)]):
            x = self.known_element(a.atom.t, i)

            def go():
                def pick(c):
                    for cond, ch in c.at(x, i):
                        if self.decide(cond):
                            return ch
                    return []
                return self._same_seq(pick(a), pick(b))
            return self.cases(go)

    def fail(self, msg):
        if not self.why:
            self.why = msg[:1500]
        return False

    why = ""

    # ------------------------------------------------------------ equality of values
    def same(self, a, b):
        """provably equal in every state satisfying the current facts"""
        if a is b:
            return True
        if type(a) is tuple and type(b) is tuple:
            if len(a) != len(b):
                return self.fail(f"{a} has not the length of {b}")
            return all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, (SymTuple, tuple)) and isinstance(b, (SymTuple, tuple)):
            return self.same_seq(list_content(a), list_content(b))
        if isinstance(a, SymList) or isinstance(b, SymList):
            if not (isinstance(a, (SymList, SV)) and isinstance(b, (SymList, SV))):
                return self.fail(f"{a} is not {b}")
            try:
                return self.same_seq(list_content(a), list_content(b))
            except Unsupported:
                return self.fail(f"{a} is not {b}")
        if isinstance(a, SymDict) or isinstance(b, SymDict):
            return self.same_dict(a, b)
        if isinstance(a, SymSet) and isinstance(b, SymSet):
            k = z3.Const(self.run.fresh("k"), Val)
            return self.prove_now(a.pred(k) == b.pred(k))
        if isinstance(a, Partial) and isinstance(b, Partial):
            return self.same(a.func, b.func) and self.same(tuple(a.args), tuple(b.args)) and set(a.keywords) == set(b.keywords) and all(
                self.same(a.keywords[k], b.keywords[k]) for k in a.keywords)
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            try:
                if type(a) is type(b) and a == b:
                    return True
            except Exception:
                pass
        if id(a) in self.run.objix and id(b) in self.run.objix and type(a).__name__ == type(b).__name__:
            da = {k: v for k, v in a.__dict__.items() if not k.startswith("_dv")}
            db = {k: v for k, v in b.__dict__.items() if not k.startswith("_dv")}
            return set(da) == set(db) and all(self.same(da[k], db[k]) for k in da)
        return self.prove_now(embed(a) == embed(b))

    def same_dict(self, a, b, ordered=False):
        if not (isinstance(a, (SymDict, SV)) and isinstance(b, (SymDict, SV))):
            return self.fail(f"{a} is not the dictionary {b}")
        ca, cb = dict_content(a), dict_content(b)
        if any(isinstance(u, F) for u in ca.upd) and any(isinstance(u, F) for u in cb.upd):
            if (ca.base is cb.base or None not in (ca.base, cb.base) and z3.eq(ca.base, cb.base)) and self.same_seq(ca.upd, cb.upd):
                self.why = ""
                return True
        k = wrap(z3.Const(self.run.fresh("k"), Val))
        self.fact(k.t != Val.absent)

        def go():
            x, y = dict_lookup(dict_content(a), k), dict_lookup(dict_content(b), k)
            if (x is ABSENT) != (y is ABSENT):
                return self.fail(f"a key is in only one of {a} and {b} ({self.model_hint()})")
            return x is ABSENT or self.same(x, y)
        return self.cases(go)

    def model_hint(self):
        return ""

    def prove_now(self, f):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        s = self.run.solver
        s.set("timeout", self.prove_ms)
        r = self.check(s, z3.Not(f))
        if r == z3.unknown:
            # the same query from scratch
            s2 = z3.SolverFor("ALL") if False else z3.Solver()
            s2.set("timeout", self.prove_ms)
            s2.add(self.run.pc)
            r = self.check(s2, z3.Not(f))
            s_used = s2
        else:
            s_used = s
        s.set("timeout", self.feas_ms)
        if r == z3.unsat:
            return True
        if r == z3.sat:
            if not self.why:
                self.why = f"countermodel for {str(f)[:600]}: {str(s_used.model())[:900]}"
                self.sat = True
                self.refutes = self.refutes or not abstracted(self.run.pc + [f])
        else:
            self.unknown = True
            if not self.why:
                self.why = f"solver unknown for {str(f)[:600]}"
        return False

    refutes = unknown = sat = False

    # ------------------------------------------------------------ obligations
    def obligation(self, name, holds):
        """holds: a thunk returning True when proved on the current path.  Not evaluated while a loop is analysed."""
        run = self.run
        if self.analysing:
            if run.target is None or not run.reached_target():
                return True
            run.target.exits = True
            run.dead = True
            raise PathEnd()
        t = time.time()
        o = self.obl.get(name)
        r = None
        if o is not None and o.reached:
            # reached before: a proof here needs no second witness that the obligation is not vacuous
            r = self.evaluate(holds)
        if r is None or not r[0]:
            if self.check(run.solver, z3.BoolVal(True)) == z3.unsat:
                run.dead = True
                raise PathEnd()
        if r is None:
            r = self.evaluate(holds)
        self.settle(name, *r)
        self.obl[name].reached = True
        self.obl[name].t += time.time() - t
        return r[0]

    def evaluate(self, holds):
        self.why, self.refutes, self.unknown, self.sat = "", False, False, False
        kind = None
        try:
            ok = holds() if callable(holds) else holds
            if not isinstance(ok, bool):
                ok = self.prove_now(bool_term(ok) if not isinstance(ok, z3.ExprRef) else ok)
        except Unsupported as u:
            ok, kind, self.why = False, "unsupported", f"unsupported: {u}"
        if kind is None:
            kind = "unknown" if self.unknown else "refuted" if self.refutes and not self.run.weak else "sat" if self.sat else "shape"
        return ok, self.why, kind, [str(l)[:160] for l, f in self.run.branch if not f]

    def settle(self, name, ok, why, kind, path):
        o = self.obl.setdefault(name, Obligation(name))
        o.checks += 1
        if not ok:
            o.kinds.add(kind)
            o.status = "refuted" if kind == "refuted" else ("undecided" if o.status == "discharged" else o.status)
            if len(o.detail) < 4000:
                o.detail += f"path {path}: {why}\n"

    def requirement(self, name, holds):
        """a precondition at a call site: holds for every iteration of the loops around it.  Inside a loop it is checked once, on
        the generic iteration, when the loop's own analysis has settled."""
        run = self.run
        if not self.analysing:
            return self.obligation(name, holds)
        if run.target is not None and run.reached_target():
            run.target.reqs.append((name,) + self.evaluate(holds))
        return True

    def same_ob(self, name, a, b):
        return self.obligation(name, lambda: self.same(a, b))

    def prove(self, name, driver, need=1):
        """explore every path of driver; undecided if anything is outside the engine's reach"""
        self.name, self.driver = name, driver
        self.loops, self.active = {}, {}
        self.cuts = {}
        n0 = sum(o.checks for o in self.obl.values())
        o = self.obl.setdefault(name, Obligation(name))
        t = time.time()
        try:
            while True:
                kept = copy.deepcopy({k: v.__dict__ for k, v in self.obl.items()})
                try:
                    self.explore(driver)
                    break
                except Restart:
                    # a cut loop turned out to change more, or to keep less: once more, from the start
                    self.run, self.active, self.analysing = None, {}, 0
                    for k in list(self.obl):
                        if k in kept:
                            self.obl[k].__dict__.update(kept[k])
                        else:
                            del self.obl[k]
            done = sum(o.checks for o in self.obl.values()) - n0
            o.checks += 1
            if done < need:
                o.status, o.detail = "undecided", f"only {done} checks were generated: the contract may be vacuous"
        except Unsupported as u:
            if os.environ.get("PYDV_TRACE"):
                traceback.print_exc(limit=-10)
            o.status, o.detail = "undecided", f"unsupported: {u}"
        except RecursionError:
            o.status, o.detail = "undecided", "recursion limit"
        except z3.Z3Exception as ex:
            if os.environ.get("PYDV_TRACE"):
                traceback.print_exc()
            o.status, o.detail = "undecided", f"z3: {str(ex)[:300]}"
        finally:
            self.run, self.active, self.analysing = None, {}, 0
            self.active = {}
        o.t += time.time() - t
        return o

    # ------------------------------------------------------------ type facts
    def subtype_facts(self, t, T):
        seen = self.run.__dict__.setdefault("subt", {}).setdefault(t.get_id(), [t])
        me = isaf(t, embed(T))
        for O in seen[1:]:
            if O is T:
                return
            try:
                if issubclass(T, O):
                    self.fact(z3.Implies(me, isaf(t, embed(O))))
                if issubclass(O, T):
                    self.fact(z3.Implies(isaf(t, embed(O)), me))
            except TypeError:
                pass
        seen.append(T)

    def exc_facts(self, t, T):
        """AXIOM exceptions: subclass-monotone; siblings that are both builtin exception classes exclude each other"""
        seen = self.run.__dict__.setdefault("exct", {}).setdefault(t.get_id(), [t])
        me = excf(t, embed(T))
        for O in seen[1:]:
            if O is T:
                return
            other = excf(t, embed(O))
            if issubclass(T, O):
                self.fact(z3.Implies(me, other))
            elif issubclass(O, T):
                self.fact(z3.Implies(other, me))
            elif T in (KeyboardInterrupt, SystemExit, GeneratorExit) or O in (KeyboardInterrupt, SystemExit, GeneratorExit):
                self.fact(z3.Not(z3.And(me, other)))
        seen.append(T)


def abstracted(ts):
    return any(n.startswith(("FM", "FOLD", "ALL", "FIRST", "mem", "index", "sqcat", "join", "text_", "arith_", "part_")) for n in funcs(ts))


class _Context:
    def __init__(self, run, facts):
        self.run, self.facts = run, facts

    def __enter__(self):
        r = self.run
        self.saved = (len(r.pc), set(r.asserted), len(r.elements), len(r.ufacts), len(r.folds), len(r.loopinst), len(r.fms),
                      {k: list(v) for k, v in r.__dict__.get("subt", {}).items()}, {k: list(v) for k, v in r.__dict__.get("exct", {}).items()})
        r.solver.push()
        for f in self.facts:
            r.add(f)
        return self

    def __exit__(self, *a):
        r = self.run
        r.solver.pop()
        n, asserted, ne, nu, nf, nl, nm, s1, s2 = self.saved
        del r.pc[n:], r.elements[ne:], r.ufacts[nu:], r.folds[nf:], r.loopinst[nl:], r.fms[nm:]
        r.asserted = asserted
        r.subt, r.exct = s1, s2
        return False


def _reached(self):
    return any(bp.info is self.target for bp in self.active)


Run.reached_target = _reached
