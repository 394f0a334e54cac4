"""Hooks called by instrumented code, and models of the built-in and library functions it uses."""
import builtins, collections, collections.abc, copy, functools, itertools, operator, re, sys, types
import z3
from . import core
from .core import *
from .engine import Restart, UNBOUND

ENGINE_EXC = (Unsupported, PathEnd, Restart)
kwf = z3.Function("kw", Val, Val, Val)               # an opaque function with keyword arguments supplied
typef = z3.Function("type_of", Val, Val)
mth = z3.Function("method", Val, Val, Val)
cellclo = {}


def RUN():
    return core.E.run if core.E is not None else None


def is_dv_fn(f):
    return isinstance(f, types.FunctionType) and "__dv_mod__" in f.__globals__


MODELS, KEEP = {}, []


def model(*fs):
    def deco(m):
        for f in fs:
            MODELS[id(f)] = m
            KEEP.append(f)
        return m
    return deco


def has_sym(x, depth=3):
    if isinstance(x, (Sym, StarMark, Poison, Partial)):
        return True
    if depth and type(x) in (tuple, list):
        return any(has_sym(y, depth - 1) for y in x)
    if depth and type(x) is dict:
        return any(has_sym(y, depth - 1) for y in x.values())
    return False


# ---------------------------------------------------------------- argument lists
def dv_star(x):
    if RUN() is None:
        return StarMark([U(v) for v in x])
    return StarMark(iter_any(x))


def iter_any(x):
    return list(listof(x).c)


def flat_args(args):
    """argument tuple with StarMarks -> chunks"""
    out = []
    for a in args:
        if isinstance(a, StarMark):
            out += a.v
        else:
            out.append(U(a))
    return out


def dv_unstar(args):
    """*args at function entry: expand symbolic parts"""
    if any(isinstance(a, StarMark) for a in args):
        return tupleof(SymTuple(flat_args(args)))
    return args


def dv_unkw(kw):
    if "__dv_kw" in kw:
        rest = {k: v for k, v in kw.items() if k != "__dv_kw"}
        return SymDict.of(DictC(kw["__dv_kw"].base, list(kw["__dv_kw"].upd) + [U(kv) for kv in rest.items()]))
    if RUN() is None:
        return kw
    return SymDict.of(DictC(None, [U(kv) for kv in kw.items()]))


def norm_kw(kws):
    kw, sym = {}, None
    for k, v in kws:
        if k is not None:
            kw[k] = v
            continue
        c = dict_content(v)
        if c.base is None and all(isinstance(u, U) and type(u.v[0]) is str for u in c.upd):
            for u in c.upd:
                kw[u.v[0]] = u.v[1]
        elif sym is not None:
            raise Unsupported("two symbolic keyword dictionaries")
        else:
            sym = c
    if sym is not None:
        kw["__dv_kw"] = sym
    return kw


def dv_call(f, args, kws=()):
    run = RUN()
    if run is not None:
        run.alive()
    ch = flat_args(args)
    kw = norm_kw(kws) if kws else {}
    return apply(f, ch, kw)


NATIVE_METHODS = {}
OUTSIDE = {"posix", "nt", "os", "shutil", "subprocess", "_io", "io", "pathlib", "tempfile", "socket", "signal", "time", "random", "_random", "glob"}


def apply(f, ch, kw):
    run = RUN()
    if run is not None and id(f) in run.outside:
        return apply(run.outside[id(f)], ch, kw)
    m = MODELS.get(id(f))
    symstar = not all(isinstance(c, U) for c in ch)
    if run is not None and run.call_hook is not None:
        r = run.call_hook(f, ch, kw)
        if r is not NotImplemented:
            return r
    if m is not None and run is not None:
        if symstar:
            if getattr(m, "star", None) is None:
                raise Unsupported(f"symbolic *args to {f}")
            return m.star(ch, kw)
        if "__dv_kw" in kw:
            if f is dict and not ch and len(kw) == 1:
                return SymDict.of(kw["__dv_kw"])
            raise Unsupported("symbolic ** to a builtin")
        return m(*[c.v for c in ch], **kw)
    if isinstance(f, functools.partial) and run is not None:
        return apply(f.func, flat_args(f.args) + ch, {**f.keywords, **kw})
    if isinstance(f, Partial):
        merged = dict(f.keywords)
        if "__dv_kw" in merged and "__dv_kw" in kw:
            raise Unsupported("two symbolic keyword dictionaries")
        merged.update(kw)
        return apply(f.func, flat_args(f.args) + ch, merged)
    if isinstance(f, (SV, Bound, Poison)):
        if isinstance(f, Poison):
            f._bad()
        if isinstance(f, SV):
            return opcall(f, ch, kw)
        return opmethod(f.obj, f.name, ch, kw)
    if isinstance(f, types.MethodType):
        if is_dv_fn(f.__func__) or isinstance(f.__func__, types.FunctionType):
            if isinstance(f.__self__, Sym) and not is_dv_fn(f.__func__):
                if symstar:
                    raise Unsupported("symbolic *args to a container method")
                return f(*[c.v for c in ch], **kw)
            return apply(f.__func__, [U(f.__self__)] + ch, kw)
    if isinstance(f, types.FunctionType):
        if run is not None and f.__globals__.get("__name__", "").split(".")[0] in OUTSIDE:
            raise Unsupported(f"{f!r} acts outside the program")
        if run is not None and is_dv_fn(f):
            code = f.__code__
            c = run.contracts.get(code)
            if c is not None:
                if run.unfold.get(code, 0) > 0:
                    run.unfold[code] -= 1
                else:
                    return apply(c, ch, kw)
            core.E.functions.add((code.co_filename, code.co_qualname))
        return call_fn(f, ch, kw, symstar)
    if isinstance(f, type):
        return instantiate(f, ch, kw, symstar)
    c = getattr(type(f), "__call__", None)
    if is_dv_fn(c):
        return apply(c, [U(f)] + ch, kw)
    if symstar:
        raise Unsupported(f"symbolic *args to {object.__repr__(f)}")
    pos = [c.v for c in ch]
    if isinstance(f, types.BuiltinFunctionType) and run is not None:
        s = f.__self__
        if isinstance(s, (type, types.ModuleType)):
            m = NATIVE_METHODS.get((s, f.__name__))
            if m is not None:
                return m(*pos, **kw)
            if getattr(s, "__name__", "") in OUTSIDE:
                raise Unsupported(f"{f!r} acts outside the program")
    if isinstance(f, types.BuiltinFunctionType) and isinstance(getattr(f, "__self__", None), (str, bytes)) and f.__name__ == "join" and run is not None and len(pos) == 1:
        text = JOIN_JSON(f.__self__, pos[0])
        if text is not None:
            return text
    if isinstance(f, types.BuiltinFunctionType) and isinstance(getattr(f, "__self__", None), str) and f.__name__ == "join" and run is not None:
        return str_join(f.__self__, *pos)
    if isinstance(f, types.BuiltinFunctionType) and isinstance(getattr(f, "__self__", None), str) and f.__name__ == "format" and run is not None and has_sym(pos):
        raise Unsupported("str.format")
    if isinstance(f, (types.BuiltinFunctionType, types.MethodWrapperType)) and f.__name__ in MUTATORS:
        native_mutable(getattr(f, "__self__", None))
    if isinstance(f, types.BuiltinFunctionType) and has_sym(pos) | has_sym(kw):
        if isinstance(f.__self__, dict) and f.__name__ == "get":
            return SymDict.of(dict_content(f.__self__)).get(*pos)
        if f.__name__ in ("throw", "close", "send"):
            return f(*pos, **kw)
        raise Unsupported(f"unmodelled builtin {f!r}")
    if type(f).__name__ == "method-wrapper" or isinstance(f, (types.WrapperDescriptorType, types.MethodDescriptorType)):
        if has_sym(pos):
            if f is object.__init__ or f is object.__setattr__:
                return f(*pos, **kw)
            if isinstance(getattr(f, "__self__", None), (types.GeneratorType,)):
                return f(*pos)
            raise Unsupported(f"unmodelled method {f!r}")
        return f(*pos, **kw)
    if "__dv_kw" in kw:
        raise Unsupported("symbolic ** to a native callable")
    return f(*pos, **kw)


def call_fn(f, ch, kw, symstar):
    if "__dv_kw" in kw and not f.__code__.co_flags & 8:
        raise Unsupported("symbolic ** to a function without **")
    if symstar:
        code = f.__code__
        n = code.co_argcount
        ch = list(ch)
        pos = []
        while len(pos) < n and ch:
            if isinstance(ch[0], U):
                pos.append(ch.pop(0).v)
                continue
            missing = [v for k, v in enumerate(code.co_varnames[:n]) if k >= len(pos)]
            if all(m in kw for m in missing):
                break
            if not seq_nonempty(ch):
                ch = []
                break
            # the first element of a symbolic argument list
            head = seq_head(ch)
            pos.append(head)
            ch = seq_getitem(ch, slice(1, None), SymTuple).c if False else tail(ch)
        if ch and all(isinstance(c, U) for c in ch):
            return track(f(*pos, *[c.v for c in ch], **kw))
        if ch and not code.co_flags & 4:
            if seq_nonempty(ch):
                raise TypeError("too many positional arguments")
            ch = []
        if ch:
            return track(f(*pos, StarMark(ch), **kw))
        return track(f(*pos, **kw))
    return track(f(*[c.v for c in ch], **kw))


def track(r):
    """suspended generators are part of the state"""
    if type(r) is types.GeneratorType and RUN() is not None:
        RUN().newgen(r)
    return r


def tail(ch):
    ch = core.E.simplify_seq(ch)
    if ch and isinstance(ch[0], U):
        return ch[1:]
    if ch and isinstance(ch[0], F) and one_unit(ch[0]):
        c = ch[0]
        core.E.fact(c.lo_t() < c.hi_t())
        return [F(c.body, c.atom, z3.simplify(c.lo_t() + 1), c.hi)] + ch[1:]
    raise Unsupported("tail of a symbolic sequence")


def instantiate(cls, ch, kw, symstar):
    run = RUN()
    if getattr(cls, "__dvclass__", False) and run is not None and not issubclass(cls, BaseException):
        new = cls.__new__
        if is_dv_fn(new):
            obj = apply(new, [U(cls)] + ch, kw)
            if not isinstance(obj, cls):
                return obj
        elif issubclass(cls, Sym) or new is object.__new__:
            obj = object.__new__(cls)
        else:
            raise Unsupported(f"construction of {cls.__name__}")
        if not issubclass(cls, Box):
            run.newobj(obj)
        elif "__dict__" in dir(obj):
            run.newobj(obj)
        init = cls.__init__
        if init is not object.__init__:
            apply(init, [U(obj)] + ch, kw)
        return obj
    if symstar:
        raise Unsupported(f"symbolic *args to {cls.__name__}")
    pos = [c.v for c in ch]
    if "__dv_kw" in kw:
        raise Unsupported("symbolic ** to a class")
    if issubclass(cls, BaseException) or getattr(cls, "__dvnative__", False) or not (has_sym(pos) or has_sym(kw)):
        return cls(*pos, **kw)
    if issubclass(cls, Sym):
        return cls(*pos, **kw)
    raise Unsupported(f"construction of {cls!r} from symbolic values")


# ---------------------------------------------------------------- opaque calls
def arg_vl(ch):
    return evl([U(freeze(c.v)) if isinstance(c, U) else c for c in ch])


def kw_term(kw):
    sym = kw.get("__dv_kw")
    named = sorted((k, v) for k, v in kw.items() if k != "__dv_kw")
    if sym is None:
        return Val.dct(Val.none, eseq([U(kv) for kv in named]))
    c = DictC(sym.base, list(sym.upd) + [U(kv) for kv in named])
    return edict(c)


def opcall(f, ch, kw):
    """a call of code the contract knows nothing about"""
    run = RUN()
    run.alive()
    ft = embed(f)
    if kw:
        plain, kt = ft, kw_term(kw)
        ft = kwf(plain, kt)
        named = [k for k in kw if k != "__dv_kw"]
        sym = kw.get("__dv_kw")
        if sym is not None and not named and not sym.upd:
            if sym.base is None:
                ft = plain
            else:                                # no keyword arguments: the function itself
                run.add(z3.Implies(slen(dkeys(kt)) == 0, ft == plain))
    a = arg_vl(ch)
    return opaque_result(run, ft, a)


def opaque_result(run, ft, a):
    if run.mode == "pure":
        if run.raises and run.decide(aprf(ft, a)):
            raise SymExc(apef(ft, a))
        r = apf(ft, a)
        run.add(r != Val.absent)
        return wrap(r)
    w = run.world
    run.world = apww(ft, a, w)
    if run.raises and run.decide(apwr(ft, a, w)):
        raise SymExc(apwe(ft, a, w))
    r = apw(ft, a, w)
    run.add(r != Val.absent)
    return wrap(r)


def opmethod(obj, name, ch, kw):
    run = RUN()
    if run.method_hook is not None:
        r = run.method_hook(obj, name, ch, kw)
        if r is not NotImplemented:
            return r
    pos = [c.v if isinstance(c, U) else None for c in ch]
    if name == "items":
        return View(obj, 2)
    if name == "keys":
        return View(obj, 0)
    if name == "values":
        return View(obj, 1)
    if name == "get" and len(pos) in (1, 2) and all(isinstance(c, U) for c in ch):
        v = dict_lookup(dict_content(obj), pos[0])
        return (pos[1] if len(pos) == 2 else None) if v is ABSENT else v
    if name == "copy" and not pos:
        return SymDict.of(DictC(obj.t))
    return opaque_result(run, mth(embed(obj), Val.s(zstr(name))), arg_vl(ch)) if not kw else opcall(SV(mth(embed(obj), Val.s(zstr(name)))), ch, kw)


core_call = dv_call
core.dv_call = dv_call


def _e_opcall(self, f, a, k):
    return opcall(f, [U(x) for x in a], k)


def _e_opmethod(self, o, n, a, k):
    return opmethod(o, n, [U(x) for x in a], k)


# ---------------------------------------------------------------- displays and operators
def dv_base(b):
    return BASES.get(b, b)


BASES = {dict: SymDict, collections.defaultdict: SymDefaultDict}
NATIVE_TYPE.update({SymDict: dict, SymDefaultDict: collections.defaultdict, SymList: list, SymSet: set})


def dv_list(elts):
    if RUN() is None:
        return [v for c in flat_args(elts) for v in [c.v]]
    return SymList(flat_args(elts))


def dv_tuple(elts):
    return tupleof(SymTuple(flat_args(elts)))


def dv_set(elts):
    ch = flat_args(elts)
    if RUN() is None:
        return {c.v for c in ch}
    return SymSet(lambda k: seq_mem(ch, k), ch)


def dv_dict(pairs):
    if RUN() is None:
        out = {}
        for p in pairs:
            if isinstance(p, StarMark):
                raise Unsupported("** at module level")
            out[p[0]] = p[1]
        return out
    d = SymDict()
    for p in pairs:
        if isinstance(p, StarMark):
            raise Unsupported("** display")
        d[p[0]] = p[1]
    return d


def dv_listof(g):
    return list(g) if RUN() is None else listof(g)


def dv_setof(g):
    if RUN() is None:
        return set(g)
    return setof(listof(g))


def dv_dictof(g):
    return dict(g) if RUN() is None else dictof(g)


OPS = {"eq": operator.eq, "ne": operator.ne, "lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge}


def dv_cmp(op, a, b):
    for x in (a, b):
        if isinstance(x, Poison):
            x._bad()
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return {"eq": operator.eq, "ne": operator.ne, "lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge}[op](a, b)
    if isinstance(a, core.NATIVE_ORDER) or isinstance(b, core.NATIVE_ORDER):
        if op in OPS:
            return OPS[op](a, b)
    if op == "is":
        return is_same(a, b)
    if op == "isnot":
        return notv(is_same(a, b))
    if op == "in":
        return user_contains(b, a)
    if op == "notin":
        return notv(user_contains(b, a))
    if isinstance(a, SLen) or isinstance(b, SLen):
        r = len_cmp(op, a, b)
        if r is not None:
            return r
    if op == "eq":
        return user_eq(a, b)
    if op == "ne":
        return notv(user_eq(a, b))
    return {"lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge}[op](a, b)


def user_eq(a, b):
    for x, y in ((a, b), (b, a)):
        m = getattr(type(x), "__eq__", None)
        if is_dv_fn(m):
            r = apply(m, [U(x), U(y)], {})
            if r is not NotImplemented:
                return r
    return cmp_eq(a, b)


def user_contains(c, k):
    m = getattr(type(c), "__contains__", None)
    if is_dv_fn(m):
        return apply(m, [U(c), U(k)], {})
    return contains(c, k)


def dv_not(v):
    return notv(v)


JOIN_JSON = lambda sep, it: None


def dv_fstr(parts):
    out = ""
    if any(isinstance(p, tuple) and type(p[0]).__name__ in ("JsonText", "Joined") and p[1] in (-1, 115) and p[2] is None for p in parts):
        for p in parts:
            out = out + (p if isinstance(p, str) else p[0] if type(p[0]).__name__ in ("JsonText", "Joined") else to_str(p[0]))
        return out
    for p in parts:
        if isinstance(p, str):
            out = out + p
            continue
        v, conv, spec = p
        if not has_sym(v) and not isinstance(v, BaseException) and spec is None or not (has_sym(v) or has_sym(spec)) :
            s = {-1: format, 115: str, 114: repr, 97: ascii}[conv]
            out = out + (format(v, spec) if conv == -1 and spec is not None else (format(s(v), spec) if spec is not None else s(v) if conv != -1 else format(v, "")))
            continue
        if spec is not None or conv not in (-1, 115):
            raise Unsupported("formatted symbolic value")
        out = out + to_str(v)
    return out


def dv_setattr(o, name, v):
    run = RUN()
    if run is None:
        setattr(o, name, v)
        return
    run.alive()
    if isinstance(o, SV):
        h = getattr(run, "setattr_hook", None)
        if h is None:
            raise Unsupported("attribute of an opaque object set")
        return h(o, name, v)
    if o is run:
        setattr(o, name, v)
        return
    if isinstance(o, Sym) and not getattr(type(o), "__dvclass__", False):
        raise Unsupported("attribute of a symbolic value set")
    if id(o) not in run.objix and not isinstance(o, BaseException) and not getattr(type(o), "__dvuntracked__", False):
        if run.active or run.e.analysing:
            raise Unsupported("untracked object changed in a loop")
        if isinstance(o, (type, types.ModuleType)):
            raise Unsupported("class or module changed")
    m = getattr(type(o), "__setattr__", None)
    if is_dv_fn(m):
        apply(m, [U(o), U(name), U(v)], {})
        return
    p = getattr(type(o), name, None)
    if isinstance(p, property):
        apply(p.fset, [U(o), U(v)], {})
        return
    setattr(o, name, v)


BIN = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "BitOr": operator.or_, "BitAnd": operator.and_, "BitXor": operator.xor,
       "FloorDiv": operator.floordiv, "Mod": operator.mod, "Div": operator.truediv}
IBIN = {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "BitOr": operator.ior, "BitAnd": operator.iand, "BitXor": operator.ixor,
        "FloorDiv": operator.ifloordiv, "Mod": operator.imod, "Div": operator.itruediv}


def dv_aug(op, a, b):
    return IBIN[op](a, b)


def dv_augattr(o, name, op, v):
    dv_setattr(o, name, IBIN[op](getattr(o, name), v))


def dv_augitem(o, k, op, v):
    o[k] = IBIN[op](o[k], v)


_ENGINE_NAMES = set()


def foreign(ex):
    """an error CPython raised because it was handed one of the engine's stand-in objects is no exception of the program"""
    if type(ex) not in (TypeError, AttributeError, NotImplementedError):
        return False
    if not _ENGINE_NAMES:
        for m in list(sys.modules.values()):
            if (getattr(m, "__name__", "") or "").startswith("pydv") and getattr(m, "__spec__", None) is not None:
                _ENGINE_NAMES.update(c.__name__ for c in vars(m).values() if isinstance(c, type) and c.__module__ == m.__name__)
        _ENGINE_NAMES.update(k for k, c in PRELUDE.items() if isinstance(c, type) and c.__module__ in ("dv_prelude", "dv_frames"))
    return any(w in _ENGINE_NAMES for t in re.findall(r"'([\w.]+)'|\bnot (\w+)\b|\((\w+)\)", str(ex)) for w in (x.split(".")[-1] for x in t if x))


def dv_match(ex, T):
    if isinstance(ex, ENGINE_EXC):
        return False
    if foreign(ex):
        raise Unsupported(f"native {type(ex).__name__}: {ex}")
    ts = flatten_types(T)
    if isinstance(ex, SymExc):
        return bool(wbool(z3.Or([exc_isa(ex.t, t) for t in ts])))
    return isinstance(ex, tuple(ts))


def dv_exc(e):
    if isinstance(e, type):
        return e
    if isinstance(e, SV):
        return SymExc(e.t)
    return e


def dv_getattr_default(o, name, *d):
    try:
        return getattr(o, name)
    except AttributeError:
        if d:
            return d[0]
        raise


def dv_getitem(c, k):
    if RUN() is None:
        return c[k]
    m = getattr(type(c), "__getitem__", None)
    if is_dv_fn(m):
        return apply(m, [U(c), U(k)], {})
    return getitem(c, k)


MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "popitem", "add", "discard", "sort", "reverse", "appendleft",
            "popleft", "extendleft", "move_to_end", "__setitem__", "__delitem__", "__ior__", "__iadd__"}
NATIVE_MUTABLE = (list, dict, set, bytearray, collections.deque)


def native_mutable(o):
    """a native container seen while a driver runs was built outside of it: changing it would leak from one path into another"""
    if RUN() is not None and isinstance(o, NATIVE_MUTABLE) and not isinstance(o, Sym):
        raise Unsupported("mutation of an object created outside the run")


def dv_setitem(v, o, k):
    native_mutable(o)
    if isinstance(o, type) or isinstance(o, types.ModuleType):
        raise Unsupported("item of a class or module set")
    m = getattr(type(o), "__setitem__", None)
    if is_dv_fn(m) and RUN() is not None:
        apply(m, [U(o), U(k), U(v)], {})
        return
    o[k] = v


def dv_delitem(o, k):
    native_mutable(o)
    m = getattr(type(o), "__delitem__", None)
    if is_dv_fn(m) and RUN() is not None:
        apply(m, [U(o), U(k)], {})
        return
    del o[k]


def dv_shared():
    if RUN() is not None:
        raise Unsupported("global or nonlocal variables")


class Managed:
    """a context manager of the program; its exit does not run when the engine abandons an execution"""
    def __init__(self, cm):
        self.cm = cm

    def __enter__(self):
        return apply(type(self.cm).__enter__, [U(self.cm)], {})

    def __exit__(self, t, v, tb):
        if isinstance(v, ENGINE_EXC) or foreign(v):
            return False
        r = apply(type(self.cm).__exit__, [U(self.cm), U(t), U(v), U(tb)], {})
        return bool(r)


def dv_with(cm):
    return Managed(cm) if RUN() is not None and is_dv_fn(getattr(type(cm), "__enter__", None)) and is_dv_fn(getattr(type(cm), "__exit__", None)) else cm


HOOKS = {"__dv_with": dv_with, "__dv_setitem": dv_setitem, "__dv_delitem": dv_delitem, "__dv_shared": dv_shared, "__dv_getitem": dv_getitem, "__dv_slice": slice, "__dv_call": dv_call, "__dv_star": dv_star, "__dv_unstar": dv_unstar, "__dv_unkw": dv_unkw, "__dv_base": dv_base,
         "__dv_list": dv_list, "__dv_tuple": dv_tuple, "__dv_set": dv_set, "__dv_dict": dv_dict, "__dv_listof": dv_listof,
         "__dv_setof": dv_setof, "__dv_dictof": dv_dictof, "__dv_cmp": dv_cmp, "__dv_not": dv_not, "__dv_fstr": dv_fstr,
         "__dv_setattr": dv_setattr, "__dv_augattr": dv_augattr, "__dv_aug": dv_aug, "__dv_augitem": dv_augitem,
         "__dv_match": dv_match, "__dv_engine_exc": lambda ex: isinstance(ex, ENGINE_EXC) or foreign(ex), "__dv_exc": dv_exc, "__dv_iter": dv_iter, "__dv_while": lambda: core.while_iter()}


def m_iter(x):
    m = getattr(type(x), "__iter__", None)
    if is_dv_fn(m):
        return apply(m, [U(x)], {})
    return dv_iter(x)


def hook_iter(x, names=()):
    if RUN() is None:
        return iter(x)
    if names and (RUN().cut or hasattr(x, "__dv_loop__")):
        return dv_iter(x, names)
    if type(x) is PRELUDE.get("Count") and type(x.step) is int and x.step == 1 and as_int(x.n) is not None:
        return EndlessPull(x)
    return m_iter(x)


HOOKS["__dv_iter"] = hook_iter
E_next = object()


# ---------------------------------------------------------------- builtins
@model(builtins.len)
def m_len(x):
    m = getattr(type(x), "__len__", None)
    if is_dv_fn(m):
        return apply(m, [U(x)], {})
    if isinstance(x, (SymList, SymTuple, View)):
        return seq_len(x.c)
    if isinstance(x, SymDict):
        return seq_len(dict_items(x.c))
    if isinstance(x, SV):
        t = x.t
        if RUN().containers == "map" and not core.E.valid(Val.is_tup(t)) and not core.E.valid(Val.is_lst(t)):
            return wint(L(dkeys(t)))
        return seq_len(iter_content(x))
    if isinstance(x, SymSet):
        raise Unsupported("size of a set")
    if isinstance(x, SStr):
        return wint(z3.Length(x.t))
    if isinstance(x, SBytes):
        return wint(z3.Length(x.t))
    if type(x).__name__ in ("StandBuf", "BufPart"):
        return m_len(x.tobytes())
    if isinstance(x, core.NATIVE_ORDER):
        return x.size
    return len(x)


@model(builtins.isinstance)
def m_isinstance(x, T):
    return py_isinstance(x, T)


@model(builtins.issubclass)
def m_issubclass(a, b):
    if has_sym(a) or has_sym(b):
        raise Unsupported("issubclass")
    return issubclass(a, b)


@model(builtins.list)
def m_list(*a):
    return listof(a[0]) if a else SymList()


@model(builtins.tuple)
def m_tuple(*a):
    return tupleof(a[0]) if a else ()


@model(builtins.set, builtins.frozenset)
def m_set(*a):
    if not a:
        return SymSet(lambda k: z3.BoolVal(False), [])
    if isinstance(a[0], (SymList, SymTuple, View, SymSet, SV)):
        return setof(a[0])
    return setof(listof(a[0]))


@model(builtins.dict)
def m_dict(*a, **k):
    d = SymDict()
    if a:
        if isinstance(a[0], SymDict):
            d.set(DictC(a[0].c.base, list(a[0].c.upd)))
        elif isinstance(a[0], SV):
            d.set(DictC(a[0].t))
        else:
            d.update(a[0])
    for n, v in k.items():
        d[n] = v
    return d


@model(builtins.str)
def m_str(*a):
    if not a:
        return ""
    m = getattr(type(a[0]), "__str__", None)
    if is_dv_fn(m):
        return apply(m, [U(a[0])], {})
    if len(a) > 1:
        if not has_sym(a):
            return str(*a)
        raise Unsupported("str of bytes")
    return to_str(a[0])


@model(builtins.repr)
def m_repr(x):
    if has_sym(x):
        raise Unsupported("repr")
    return repr(x)


@model(builtins.bool)
def m_bool(*a):
    if not a:
        return False
    v = a[0]
    if isinstance(v, SV):
        return wbool(truth(v.t))
    return bool(v)


@model(operator.truth)
def m_truth(v):
    return m_bool(v)


@model(operator.not_)
def m_not(v):
    return notv(v)


@model(builtins.int)
def m_int(*a):
    if not a:
        return 0
    if isinstance(a[0], (SInt, int)) and len(a) == 1:
        return a[0]
    if isinstance(a[0], SBool):
        return wint(z3.If(a[0].t, z3.IntVal(1), z3.IntVal(0)))
    if has_sym(a):
        raise Unsupported("int()")
    return int(*a)


@model(builtins.callable)
def m_callable(x):
    if isinstance(x, SV):
        return wbool(type_test(x.t, collections.abc.Callable))
    if isinstance(x, (Bound, Partial)):
        return True
    if isinstance(x, Sym) and not getattr(type(x), "__dvclass__", False):
        return False
    return callable(x)


@model(builtins.getattr)
def m_getattr(o, name, *d):
    if isinstance(name, (SV, SStr)):
        if isinstance(name, SV):
            h = RUN().attr_hook
            if h is not None:
                r = h(o, name)
                if r is not NotImplemented:
                    return r
            if not core.E.decide(hasattrf(embed(o), name.t)):
                if d:
                    return d[0]
                e = core.excitem(embed(o), Val.tup(vl([name.t])))
                core.E.fact(z3.Or(exc_isa(e, AttributeError), exc_isa(e, TypeError)))
                raise SymExc(e)
            return wrap(attrf(embed(o), name.t))
        raise Unsupported("getattr with a symbolic name")
    return dv_getattr_default(o, name, *d)


@model(builtins.hasattr)
def m_hasattr(o, name):
    if isinstance(o, SV) and isinstance(name, str):
        return wbool(hasattrf(o.t, Val.s(zstr(name))))
    if has_sym(name):
        raise Unsupported("hasattr with a symbolic name")
    try:
        getattr(o, name)
        return True
    except AttributeError:
        return False


@model(builtins.setattr)
def m_setattr(o, name, v):
    if has_sym(name):
        raise Unsupported("setattr with a symbolic name")
    dv_setattr(o, name, v)


@model(builtins.type)
def m_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SV):
            return SV(typef(x.t))
        if isinstance(x, SymExc):
            return SV(typef(x.t))
        p = pytype_of(x)
        if p is not None:
            return p
        return type(x)
    raise Unsupported("three-argument type()")


@model(builtins.iter)
def m_iter1(x, *s):
    if s:
        raise Unsupported("two-argument iter")
    return m_iter(x)


@model(builtins.next)
def m_next(it, *d):
    try:
        m = getattr(type(it), "__next__", None)
        if is_dv_fn(m):
            return apply(m, [U(it)], {})
        if isinstance(it, SV):
            raise Unsupported("next of an opaque value")
        return next(it)
    except StopIteration:
        if d:
            return d[0]
        raise


@model(builtins.print)
def m_print(*a, **k):
    return None


@model(builtins.hash)
def m_hash(x):
    return wint(hashf(embed(x)))


hashf = z3.Function("hash", Val, I)


@model(builtins.id)
def m_id(x):
    return wint(z3.Function("id", Val, I)(embed(x)))


@model(builtins.dir)
def m_dir(*a):
    if not a:
        raise Unsupported("dir()")
    x = a[0]
    if isinstance(x, SV):
        return core.DirOf(x)
    if isinstance(x, Sym) and not getattr(type(x), "__dvclass__", False):
        pt = getattr(x, "pytype", None)
        if pt is None:
            raise Unsupported("dir of a symbolic value")
        return dir(pt)
    return dir(x)


@model(builtins.sorted)
def m_sorted(x, *, key=None, reverse=False):
    """an uninterpreted sequence of the same elements and length; the same for two equal sequences"""
    e = core.E
    c = listof(x).c
    if (key is not None or type(reverse) is bool) and all(isinstance(u, U) for u in c):
        ks = [u.v if key is None else apply(key, [U(u.v)], {}) for u in c]
        ks = [bool(k) if isinstance(k, SBool) else k for k in ks]
        if not has_sym(ks):
            return SymList([c[i] for i in sorted(range(len(c)), key=ks.__getitem__, reverse=reverse)])
    if key is not None or reverse is not False:
        raise Unsupported("sorted with a key")
    if all(isinstance(u, U) for u in c) and len(c) < 2:
        return SymList(c)
    if not has_sym([u.v if isinstance(u, U) else SV(Val.none) for u in c]):
        return SymList([U(v) for v in sorted(u.v for u in c)])
    for seq, t in e.run.sorted:
        if e.same_seq(seq, c):
            e.why = ""
            return SymList([F(None, Atom(t))])
    s = eseq(c)
    t = z3.Function("sortedq", Sq, Sq)(s)
    e.fact(slen(t) == L(s))
    e.run.sorted.append((c, t))
    for a, j in list(e.run.elements):
        if z3.eq(a, t):
            sorted_element(a, j, elt(a, j))
    return SymList([F(None, Atom(t))])


def sorted_element(at, j, x):
    e = core.E
    for seq, t in e.run.sorted:
        if z3.eq(t, at):
            e.fact(z3.Implies(z3.And(j >= 0, j < L(at)), seq_mem(seq, x)))


@model(builtins.sum, builtins.abs, builtins.format, builtins.divmod, builtins.vars, builtins.round)
def m_unsup(*a, **k):
    if not (has_sym(a) or has_sym(k)):
        raise Unsupported("builtin without a model")
    raise Unsupported("builtin without a model")


@model(builtins.range)
def m_range(*a):
    if not has_sym(a):
        return range(*a)
    lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
    if len(a) == 3:
        raise Unsupported("range step")
    lo_t, hi_t = as_int(lo), as_int(hi)
    if lo_t is None or hi_t is None:
        raise Unsupported("range bounds")
    n = z3.simplify(z3.If(hi_t > lo_t, hi_t - lo_t, z3.IntVal(0)))
    if z3.is_int_value(n) and n.as_long() <= 8:
        return SymTuple([U(wint(z3.simplify(lo_t + i))) for i in range(n.as_long())])
    return SymTuple([range_chunk(n, lo_t)])


@model(itertools.product)
def m_product(*its, repeat=1):
    if all(type(x) in (tuple, list, range, str) for x in its) and type(repeat) is int:
        return itertools.product(*its, repeat=repeat)
    if repeat != 1 or len(its) != 2:
        raise Unsupported("product of this kind")
    return apply(PRELUDE["product2_"], [U(x) for x in its], {})


@model(builtins.reversed)
def m_reversed(s):
    if not has_sym([s]):
        return builtins.reversed(s)
    c = content_or_none(s)
    if c is None:
        raise Unsupported("reversed of an unbounded sequence")
    return m_iter(SymTuple(list(reversed(c)) if all(isinstance(k, U) for k in c) else core.reversed_chunks(c)))


rangef = z3.Function("rangeq", I, Sq)


def range_chunk(n, off):
    t = rangef(n)
    core.E.fact(slen(t) == n)
    x, ix = core.E.bound()
    return F(Body(x, ix, [(z3.BoolVal(True), [U(wint(ix + off))])]), Atom(t, None, True))


@model(builtins.zip)
def m_zip(*its, strict=False):
    if strict is not False:
        raise Unsupported("zip strict")
    seqs = [content_or_none(x) for x in its]
    if its and all(s is not None for s in seqs) and not all(isinstance(c, U) for s in seqs for c in s):
        r = zip_seqs(seqs)
        if r is not None:
            return m_iter(SymTuple(r))
    return apply(PRELUDE[{2: "zip2_", 3: "zip3_"}.get(len(its), "zip_")], [U(x) for x in its], {})


def content_or_none(x):
    if isinstance(x, (SymList, SymTuple, View, SymDict, SV)):
        return list(iter_content(x)) if not isinstance(x, SymList) else list(x.c)
    if type(x) is tuple:
        return [U(v) for v in x]
    return None


def zip_seqs(seqs):
    """positional zip of sequences that each are one full-length chunk"""
    if not all(len(s) == 1 and isinstance(s[0], F) and one_unit(s[0]) for s in seqs):
        return None
    e = core.E
    cs = [s[0] for s in seqs]
    base = next((c for c in cs if c.atom.t.decl().name() != "rangeq"), cs[0])
    x, ix = e.bound()
    n = base.hi_t() - base.lo_t()
    for c in cs:
        m = c.hi_t() - c.lo_t()
        if not e.valid(n == m):
            n = z3.If(m < n, m, n)
    branches = [(z3.BoolVal(True), ())]
    for c in cs:
        new = []
        off = z3.simplify(ix - base.lo_t() + c.lo_t())
        xx = x if c is base or (z3.eq(c.atom.t, base.atom.t) and z3.eq(off, z3.simplify(ix))) else elt(c.atom.t, off)
        for cond, vals in branches:
            for q, ch in c.at(xx, off):
                new.append((z3.simplify(z3.And(cond, q)), vals + (ch[0].v,)))
        branches = new
    return [F(Body(x, ix, [(c, [U(v)]) for c, v in branches], True), base.atom, base.lo, z3.simplify(base.lo_t() + n))]


@model(builtins.map)
def m_map(f, *its):
    return apply(PRELUDE["map1_"], [U(f), U(its[0])], {}) if len(its) == 1 else apply(PRELUDE["mapn_"], [U(f)] + [U(x) for x in its], {})


def _map_star(ch, kw):
    if not isinstance(ch[0], U):
        raise Unsupported("map(*symbolic)")
    return OpaqueMap(ch[0].v, ch[1:])


class OpaqueMap(Sym):
    """map(f, *iterables) for an unknown number of iterables: an opaque iterable"""
    def __init__(self, f, ch):
        self.f, self.ch = f, ch

    def __dv_embed__(self):
        return z3.Function("map", Val, Val, Val)(embed(self.f), Val.tup(evl(self.ch)))

    def __iter__(self):
        return dv_iter(SV(self.__dv_embed__()))


m_map.star = _map_star


@model(builtins.filter)
def m_filter(f, it):
    return apply(PRELUDE["filter_"], [U(f), U(it)], {})


@model(builtins.enumerate)
def m_enumerate(it, start=0):
    return apply(PRELUDE["enumerate_"], [U(it), U(start)], {})


@model(builtins.all)
def m_all(it):
    return apply(PRELUDE["all_"], [U(it)], {})


@model(builtins.any)
def m_any(it):
    return apply(PRELUDE["any_"], [U(it)], {})


@model(builtins.max)
def m_max(*a, **k):
    if RUN().order is not None and len(a) == 1 and not k:
        return RUN().extremum("max", a[0])
    return apply(PRELUDE["max_"], [U(x) for x in (a if len(a) > 1 else a[0:1])] if len(a) == 1 else [U(SymTuple([U(x) for x in a]))], k)


@model(builtins.min)
def m_min(*a, **k):
    if RUN().order is not None and len(a) == 1 and not k:
        return RUN().extremum("min", a[0])
    return apply(PRELUDE["min_"], [U(a[0])] if len(a) == 1 else [U(SymTuple([U(x) for x in a]))], k)


@model(itertools.chain)
def m_chain(*its):
    return apply(PRELUDE["chain_"], [U(x) for x in its], {})


@model(itertools.chain.from_iterable)
def m_chain_from(it):
    return apply(PRELUDE["chain_from_"], [U(it)], {})


def _chain_star(ch, kw):
    return apply(PRELUDE["chain_from_"], [U(SymTuple(ch))], {})


m_chain.star = _chain_star


@model(itertools.repeat)
def m_repeat(*a):
    return instantiate(PRELUDE["Repeat"], [U(x) for x in a], {}, False)


@model(itertools.count)
def m_count(start=0, step=1):
    return instantiate(PRELUDE["Count"], [U(start), U(step)], {}, False)


@model(itertools.accumulate)
def m_accumulate(it, f=operator.add, *, initial=None):
    if initial is not None:
        raise Unsupported("accumulate initial")
    if type(it) is PRELUDE["Repeat"] and it.n is None and type(it.v) is int and it.v == 1 and f is operator.add:
        return instantiate(PRELUDE["Count"], [U(1), U(1)], {}, False)
    return instantiate(PRELUDE["Accumulate"], [U(m_iter(it)), U(f)], {}, False)


@model(itertools.cycle, itertools.islice, itertools.takewhile, itertools.dropwhile, itertools.groupby, itertools.starmap, itertools.tee)
def m_noiter(*a, **k):
    raise Unsupported("itertools function without a model")


@model(itertools.starmap)
def m_starmap(f, it):
    return apply(PRELUDE["starmap_"], [U(f), U(it)], {})


@model(functools.reduce)
def m_reduce(f, it, *init):
    if f is operator.add and not init:
        c = listof(it).c
        flat = flatten(c)
        if flat is not None:
            if not seq_nonempty(c):
                raise TypeError("reduce() of empty iterable with no initial value")
            return SymList(flat)
        it = SymList(c)
    return apply(PRELUDE["reduce_"], [U(f), U(it)] + [U(x) for x in init], {})


def flatten(chunks):
    """concatenation of a sequence of lists, or None"""
    out = []
    for c in chunks:
        if isinstance(c, U):
            if not isinstance(c.v, SymList):
                return None
            out += c.v.c
        elif c.body is None:
            return None
        else:
            br = []
            for cond, ch in c.body.branches:
                f = flatten(ch)
                if f is None:
                    return None
                br.append((cond, f))
            out.append(F(Body(c.body.x, c.body.ix, br, c.body.total), c.atom, c.lo, c.hi))
    return out


@model(functools.partial)
def m_partial(f, *a, **k):
    return Partial(f, tuple(a), dict(k))


def _partial_star(ch, kw):
    return Partial(ch[0].v, (StarMark(ch[1:]),), dict(kw))


m_partial.star = _partial_star


@model(functools.wraps)
def m_wraps(f, *a, **k):
    return lambda g: g


@model(functools.update_wrapper)
def m_update_wrapper(g, f, *a, **k):
    return g


@model(copy.copy)
def m_copy(x):
    m = getattr(type(x), "__copy__", None)
    if is_dv_fn(m):
        return apply(m, [U(x)], {})
    if isinstance(x, SymDict):
        return SymDict.of(DictC(x.c.base, list(x.c.upd)))
    if isinstance(x, SymList):
        return SymList(x.c)
    if isinstance(x, (SV, SInt, SBool, SStr, SymTuple, int, str, tuple, type(None))):
        return x
    if isinstance(x, PullIter):
        return x.copy()
    if isinstance(x, ListIter):
        r = ListIter(x.box)
        r.n = x.n
        return r
    raise Unsupported(f"copy of {type(x).__name__}")


@model(copy.deepcopy)
def m_deepcopy(x):
    raise Unsupported("deepcopy")


class MethodCaller:
    def __init__(self, name, a, k):
        self.name, self.a, self.k = name, a, k

    def __dv_subst__(self, p):
        return MethodCaller(self.name, subst(self.a, p), self.k)


@model(operator.methodcaller)
def m_methodcaller(name, *a, **k):
    def call(o):
        return apply(getattr(o, name), [U(x) for x in a], dict(k))
    return call


@model(operator.attrgetter)
def m_attrgetter(*names):
    if len(names) != 1 or not isinstance(names[0], str) or "." in names[0]:
        raise Unsupported("attrgetter")
    return lambda o: m_getattr(o, names[0])


@model(operator.itemgetter)
def m_itemgetter(*ks):
    if len(ks) == 1:
        return lambda o: getitem(o, ks[0])
    return lambda o: tuple(getitem(o, k) for k in ks)


model(operator.getitem)(lambda c, k: getitem(c, k))
model(operator.contains)(lambda c, k: user_contains(c, k))
model(operator.eq)(lambda a, b: user_eq(a, b))
model(operator.ne)(lambda a, b: notv(user_eq(a, b)))
model(operator.is_)(lambda a, b: is_same(a, b))
model(operator.is_not)(lambda a, b: notv(is_same(a, b)))


def boolop(native, zf):
    def f(a, b):
        x, y = bool_term(a), bool_term(b)
        if x is not None and y is not None:
            return wbool(zf(x, y))
        if isinstance(a, SV) and isinstance(b, (SV, bool, SBool)) or isinstance(b, SV) and isinstance(a, (bool, SBool)):
            raise Unsupported("bit operation on opaque values")
        return native(a, b)
    return f


model(operator.and_)(boolop(operator.and_, lambda x, y: z3.And(x, y)))
model(operator.or_)(boolop(operator.or_, lambda x, y: z3.Or(x, y)))
model(operator.xor)(boolop(operator.xor, lambda x, y: z3.Xor(x, y)))
for _op in ("add", "sub", "mul", "lt", "le", "gt", "ge"):
    model(getattr(operator, _op))(lambda a, b, _o=getattr(operator, _op): _o(a, b))


@model(collections.OrderedDict)
def m_ordered(*a, **k):
    return m_dict(*a, **k)


@model(collections.defaultdict)
def m_defaultdict(*a, **k):
    return SymDefaultDict(*a, **k)


PRELUDE = {}


core.SORTED_HOOK = sorted_element


def install(engine):
    type(engine).opcall = _e_opcall
    type(engine).opmethod = _e_opmethod
