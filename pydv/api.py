"""What a contract file may use.  These functions run natively."""
import sys, importlib, types
import z3
from . import core, engine, models
from .core import *
from .models import *


def R():
    return core.E.run


def load(name):
    return importlib.import_module(name)


def val(name):
    """an arbitrary value"""
    c = z3.Const(name, Val)
    R().add(c != Val.absent)
    return SV(c)


def obj(name):
    """an arbitrary value that is not of a builtin scalar or sequence kind (a callable, a mapping, an instance)"""
    c = z3.Const(name, Val)
    R().add(Val.is_op(c))
    return SV(c)


def callable_(name):
    import collections.abc
    v = obj(name)
    R().add(type_test(v.t, collections.abc.Callable))
    return v


def mapping(name):
    import collections.abc
    v = obj(name)
    R().add(type_test(v.t, collections.abc.Mapping))
    return v


def int_(name):
    return SInt(z3.Int(name))


def str_(name):
    return SStr(z3.Const(name, S))


def bool_(name):
    return SBool(z3.Const(name, B))


def seq(name):
    """a tuple of arbitrary length and content"""
    return SymTuple([F(None, Atom(z3.Const(name, Sq)))])


def lst(name):
    return SymList([F(None, Atom(z3.Const(name, Sq)))])


def dct(name):
    """a plain dict of arbitrary content"""
    return SymDict.of(DictC(z3.Const(name, Val)))


def assume(c):
    if not core.E.decide(bool_term(c) if not isinstance(c, z3.ExprRef) else c):
        if core.E.analysing and R().target is not None and R().reached_target():
            R().target.exits = True           # the loop is left here: its other paths know that this does not happen
        raise PathEnd()


def case(name):
    """split: both truth values are explored"""
    return core.E.decide(z3.Const("case_" + name, B))


def ensure_same(name, a, b):
    return core.E.same_ob(name, a, b)


def ensure(name, c):
    if isinstance(c, (SBool,)):
        c = c.t
    if isinstance(c, SV):
        c = truth(c.t)
    if isinstance(c, bool):
        c = z3.BoolVal(c)
    return core.E.obligation(name, lambda: core.E.prove_now(c) if not z3.is_false(z3.simplify(c)) else refute("always false here"))


def require(name, c):
    """a precondition of a contract, checked wherever the contract is used"""
    c = z3.BoolVal(c) if isinstance(c, bool) else bool_term(c)
    return core.E.requirement(name, lambda: core.E.prove_now(c))


def require_same(name, a, b):
    return core.E.requirement(name, lambda: core.E.same(a, b))


def refute(msg):
    e = core.E
    if not e.why:
        e.why, e.refutes = msg, not engine.abstracted(e.run.pc)
    return False


def outcome(f, *a, **k):
    """("ok", result) or ("raised", exception)"""
    try:
        return ("ok", dv_call(f, tuple(a), tuple(k.items())))
    except ENGINE_EXC:
        raise
    except BaseException as ex:
        if foreign(ex):
            raise Unsupported(f"native {type(ex).__name__}: {ex}")
        return ("raised", ex)


def ensure_outcome(name, a, b):
    """the same kind of outcome with the same result or the same exception"""
    def go():
        if a[0] != b[0]:
            return refute(f"one {a}, the other {b}")
        if a[0] == "ok":
            return core.E.same(a[1], b[1])
        x, y = a[1], b[1]
        if x is y:
            return True
        if isinstance(x, SymExc) and isinstance(y, SymExc):
            return core.E.prove_now(x.t == y.t)
        if type(x) is type(y) and not isinstance(x, SymExc):
            return core.E.same(tuple(x.args), tuple(y.args))
        return refute(f"exceptions {x!r} and {y!r} differ")
    return core.E.obligation(name, go)


def world():
    return R().world


def ensure_world(name, w1, w2):
    """the same opaque calls were made, in the same order, with the same arguments"""
    return core.E.obligation(name, lambda: core.E.prove_now(w1 == w2))


def effects(raises=True):
    R().mode, R().raises = "effect", raises


def pure(raises=False):
    R().mode, R().raises = "pure", raises


def contract(fn, spec, unfold=1):
    """recursive and callee occurrences of fn are replaced by its contract; the first `unfold` calls run the body"""
    fn = getattr(fn, "__wrapped__", fn)
    if not hasattr(fn, "__code__"):
        R().outside[id(fn)] = spec
        return
    R().contracts[fn.__code__] = spec
    R().unfold[fn.__code__] = unfold


def uf_list(name, *args, view=None):
    """the list returned by an uninterpreted pure function; view=n: its elements are n-tuples"""
    f = z3.Function(name, *[Val] * len(args), Sq)
    t = f(*[embed(a) for a in args])
    return SymList([F(None, Atom(t, view))])


def uf_val(name, *args):
    f = z3.Function(name, *[Val] * len(args), Val)
    t = f(*[embed(a) for a in args])
    core.E.fact(t != Val.absent)
    return wrap(t)


def uf_bool(name, *args):
    f = z3.Function(name, *[Val] * len(args), B)
    return wbool(f(*[embed(a) for a in args]))


def native(f):
    return f


def set_world(w):
    R().world = w


def representation(cond):
    """the state this contract is stated over is kept in another way: the contract does not apply"""
    if cond is not True:
        raise Unsupported("the representation this contract is stated over has changed")


def has_attributes(*names):
    """every object these are read from has them (the language gives them to its type)"""
    R().total_attrs = R().total_attrs | set(names)


def text_attributes(*names):
    """and these are strings"""
    R().text_attrs = R().text_attrs | set(names)


def has_items(*keys):
    """every opaque record these are read from has them"""
    R().total_items = R().total_items | set(keys)


def bytes_(name):
    return SBytes(z3.Const(name, S))
