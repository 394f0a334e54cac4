"""Numeric arrays of any length, element by element.

An array is its dtype and, for every index of one base array, an element and whether the index is still selected (boolean masks select).
Elements are extended reals: a mathematical real, an infinity or not-a-number.  What holds of all elements is a universal fact, instantiated
at every index spoken about; what holds of some element is stated with a witness.

AXIOM arrays: element-wise operations, masks, min/max and sizes behave as numpy's do; differences and quotients are the mathematical ones
(the differences formed between an array and its own cast are exact in binary floating point; the quotient is rounded, by at most one unit
in the last place); astype maps equal elements to equal elements, keeps values that are in the range of a wider type of the same kind, keeps
whole numbers in the range of an integer type, keeps zero and signs, is off by no more than the value, truncates to integer types inside their range, stays finite for float types inside
their range, and keeps infinities and not-a-number for float types.
Comparing a numpy float scalar with a Python integer rounds the integer to the scalar's type first; comparing Python numbers is exact."""
import sys, z3, numpy as np
from fractions import Fraction
from . import core, models
from .core import *
from .models import *

sys.set_int_max_str_digits(0)        # the range of long double has thousands of digits
Re = z3.RealSort()
RV = lambda x: z3.RealVal(f"{x.numerator}/{x.denominator}") if isinstance(x, Fraction) else z3.RealVal(x)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def state():
    r = core.E.run
    if getattr(r, "arrays", None) is None:
        r.arrays = ([], [])
    return r.arrays


def index(t):
    """every universal fact holds at this index"""
    pool, facts = state()
    if not any(z3.eq(t, p) for p in pool):
        pool.append(t)
        for f in list(facts):
            core.E.fact(f(t))
    return t


def forall(f):
    pool, facts = state()
    facts.append(f)
    for t in list(pool):
        core.E.fact(f(t))


def witness():
    return index(z3.Int(core.E.run.fresh("elem")))


class El:
    """an extended real: fin, or nan, or an infinity that is negative when neg"""
    __slots__ = ("v", "fin", "nan", "neg")

    def __init__(self, v, fin=TRUE, nan=FALSE, neg=FALSE):
        self.v, self.fin, self.nan, self.neg = v, fin, nan, neg

    @property
    def inf(self):
        return z3.And(z3.Not(self.fin), z3.Not(self.nan))


def lt(a, b):
    return z3.Or(z3.And(a.fin, b.fin, a.v < b.v), z3.And(a.fin, b.inf, z3.Not(b.neg)), z3.And(b.fin, a.inf, a.neg),
                 z3.And(a.inf, b.inf, a.neg, z3.Not(b.neg)))


def eq(a, b):
    return z3.Or(z3.And(a.fin, b.fin, a.v == b.v), z3.And(a.inf, b.inf, a.neg == b.neg))


def le(a, b):
    return z3.Or(lt(a, b), eq(a, b))


def el_ite(c, a, b):
    return El(z3.If(c, a.v, b.v), z3.If(c, a.fin, b.fin), z3.If(c, a.nan, b.nan), z3.If(c, a.neg, b.neg))


def el_abs(a):
    return El(z3.If(a.v >= 0, a.v, -a.v), a.fin, a.nan, FALSE)


def el_neg(a):
    return El(-a.v, a.fin, a.nan, z3.Not(a.neg))


def el_add(a, b):
    return El(a.v + b.v, z3.And(a.fin, b.fin), z3.Or(a.nan, b.nan, z3.And(a.inf, b.inf, a.neg != b.neg)), z3.If(a.inf, a.neg, b.neg))


def el_sub(a, b):
    return el_add(a, el_neg(b))


quotient = z3.Function("quotient", Re, Re, Re)


def size_of(t):
    return z3.If(t >= 0, t, -t)


def el_div(a, b):
    """|a/b| is the quotient of the absolute values; nothing is used of quotients but that they are functions of the operands and non-negative"""
    q = quotient(size_of(a.v), size_of(b.v))
    core.E.fact(q >= 0)
    q = z3.If((a.v >= 0) == (b.v >= 0), q, -q)
    ok = z3.And(a.fin, b.fin, b.v != 0)
    zero = z3.And(a.fin, b.inf)
    return El(z3.If(zero, RV(0), q), z3.Or(ok, zero), z3.Or(a.nan, b.nan, z3.And(a.inf, b.inf), z3.And(b.fin, b.v == 0, a.fin, a.v == 0)),
              z3.Bool(core.E.run.fresh("sign")))


def el_mul(a, b):
    p = a.v * b.v
    return El(p, z3.And(a.fin, b.fin), z3.Or(a.nan, b.nan, z3.And(a.inf, b.fin, b.v == 0), z3.And(b.inf, a.fin, a.v == 0)), z3.Bool(core.E.run.fresh("sign")))


def literal(x, dtype=None):
    """a Python or numpy number as an element; compared with a numpy float scalar, an integer is rounded to its type"""
    if isinstance(x, Num):
        return x.el
    if isinstance(x, SInt):
        return El(z3.ToReal(x.t))
    if isinstance(x, (bool, np.bool_)):
        x = int(x)
    if type(x) is int and dtype is not None and dtype.kind == "f":
        try:
            with np.errstate(all="ignore"):
                x = dtype.type(x)
        except OverflowError:
            raise Unsupported("an integer too large for the type")
    if isinstance(x, (int, np.integer)):
        return El(RV(Fraction(int(x))))
    if isinstance(x, (float, np.floating)):
        if np.isnan(x):
            return El(RV(0), FALSE, TRUE)
        if np.isinf(x):
            return El(RV(0), FALSE, FALSE, z3.BoolVal(bool(x < 0)))
        n, d = x.as_integer_ratio()
        return El(RV(Fraction(n, d)))
    raise Unsupported(f"{type(x).__name__} as a number")


COMPARE = {"lt": lt, "le": le, "gt": lambda a, b: lt(b, a), "ge": lambda a, b: le(b, a), "eq": eq, "ne": lambda a, b: z3.Not(eq(a, b))}
ARITH = {"add": el_add, "sub": el_sub, "div": el_div, "mul": el_mul}


class Numeric(Sym):
    def __lt__(self, o): return compare("lt", self, o)
    def __le__(self, o): return compare("le", self, o)
    def __gt__(self, o): return compare("gt", self, o)
    def __ge__(self, o): return compare("ge", self, o)
    def __eq__(self, o): return compare("eq", self, o)
    def __ne__(self, o): return compare("ne", self, o)
    def __add__(self, o): return arith("add", self, o)
    def __sub__(self, o): return arith("sub", self, o)
    def __mul__(self, o): return arith("mul", self, o)
    def __truediv__(self, o): return arith("div", self, o)
    def __radd__(self, o): return arith("add", o, self)
    def __rsub__(self, o): return arith("sub", o, self)
    def __rmul__(self, o): return arith("mul", o, self)
    def __rtruediv__(self, o): return arith("div", o, self)
    def __abs__(self): return elementwise(el_abs, self)
    def __neg__(self): return elementwise(el_neg, self)
    __hash__ = None

    def _bad(self, *a, **k):
        raise Unsupported("an operation on arrays without a model")
    __array__ = __array_function__ = __iter__ = __len__ = __float__ = __int__ = __index__ = __iadd__ = __isub__ = __imul__ = __itruediv__ = _bad

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        m = MODELS.get(id(ufunc))
        if method != "__call__" or m is None:
            raise Unsupported(f"{ufunc.__name__} of an array")
        return m(*inputs, **kw)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name in self.absent:
            raise AttributeError(name)
        raise Unsupported(f"array attribute {name}")
    absent = ("name",)


class Num(Numeric):
    """a number: a numpy scalar of dtype, or a Python number (dtype None)"""
    def __init__(self, el, dtype=None):
        self.__dict__.update(el=el, dtype=dtype)

    def item(self):
        return Num(self.el)

    def astype(self, dtype):
        raise Unsupported("cast of a scalar")

    def __bool__(self):
        return core.E.decide(z3.Not(eq(self.el, El(RV(0)))))

    def __repr__(self):
        return "Num"


class Sel:
    """which indices of the base array are selected, and how many they are"""
    def __init__(self, parent, cond):
        self.cond = cond
        self.size = z3.Int(core.E.run.fresh("size"))
        core.E.fact(self.size >= 0)
        w = witness()
        core.E.fact(z3.Implies(self.size > 0, cond(w)))
        forall(lambda i: z3.Implies(self.size == 0, z3.Not(cond(i))))
        if parent is not None:
            core.E.fact(self.size <= parent.size)
            v = witness()
            core.E.fact(z3.Implies(self.size < parent.size, z3.And(parent.cond(v), z3.Not(cond(v)))))
            forall(lambda i: z3.Implies(z3.And(self.size == parent.size, parent.cond(i)), cond(i)))


def same_sel(a, b):
    if a is b:
        return
    i = z3.Int(core.E.run.fresh("any"))
    if not core.E.valid(a.cond(i) == b.cond(i)):
        raise Unsupported("operation between different selections")


class Buf:
    """memory of an array"""
    def __init__(self, at):
        self.at, self.version = at, 0


class NArr(Numeric):
    def __init__(self, dtype, sel, at, buf=None):
        self.__dict__.update(dtype=np.dtype(dtype), sel=sel, buf=buf or Buf(at))
        core.E.run.__dict__.setdefault("buffers", []).append(self.buf)

    def at(self, i):
        return self.buf.at(i)

    def __bool__(self):
        raise Unsupported("truth value of an array")

    size = property(lambda self: wint(self.sel.size))
    shape = property(lambda self: (wint(self.sel.size),))
    ndim = 1
    itemsize = property(lambda self: self.dtype.itemsize)

    def copy(self, order="C"):
        return NArr(self.dtype, self.sel, self.buf.at)

    def ravel(self):
        return self

    flatten = copy
    to_numpy = ravel
    values = property(lambda self: self)

    def astype(self, dtype, copy=True, **k):
        if k:
            raise Unsupported("astype with options")
        d = np.dtype(dtype)
        if d == self.dtype:
            return self.copy() if copy is True else self
        f, src = self.buf.at, self.dtype
        return NArr(d, self.sel, lambda i: cast(f(i), src, d))

    def __getitem__(self, k):
        if isinstance(k, Mask):
            same_sel(k.sel, self.sel)
            f = self.buf.at
            return NArr(self.dtype, k.chosen(), f)
        if k is Ellipsis or type(k) is slice and k == slice(None):
            return NArr(self.dtype, self.sel, None, self.buf)
        if type(k) is slice and all(x is None or type(x) is int for x in (k.start, k.stop, k.step)):
            # some of the elements (which, is not known): a view of the same memory
            key = (k.start, k.stop, k.step)
            parts = self.sel.__dict__.setdefault("parts", {})
            if key not in parts:
                p = z3.Function(core.E.run.fresh("part_"), I, B)
                whole = self.sel
                parts[key] = Sel(whole, lambda i: z3.And(whole.cond(i), p(i)))
                if k.start in (None, 0) and k.step in (None, 1) and k.stop >= 0:
                    core.E.fact(parts[key].size == z3.If(whole.size < k.stop, whole.size, z3.IntVal(k.stop)))
            return NArr(self.dtype, parts[key], None, self.buf)
        raise Unsupported("array index")

    def __setitem__(self, k, v):
        if not isinstance(k, Mask):
            raise Unsupported("array assignment")
        same_sel(k.sel, self.sel)
        old, true, new = self.buf.at, k.true, literal(v, self.dtype)
        if isinstance(v, Num) or self.dtype.kind != "f":
            raise Unsupported("array assignment")
        self.buf.at = lambda i: el_ite(true(i), new, old(i))
        self.buf.version += 1

    def min(self, axis=None): return extreme("min", self)
    def max(self, axis=None): return extreme("max", self)

    def any(self, axis=None):
        return Mask(self.sel, lambda i: z3.Not(eq(self.at(i), El(RV(0))))).any()

    def all(self, axis=None):
        return Mask(self.sel, lambda i: z3.Not(eq(self.at(i), El(RV(0))))).all()

    def __repr__(self):
        return f"NArr({self.dtype})"


class Mask(Numeric):
    """a boolean for every selected index"""
    dtype = np.dtype(bool)

    def __init__(self, sel, true):
        self.__dict__.update(sel=sel, true=true, picked=None)

    def chosen(self):
        if self.picked is None:
            self.__dict__["picked"] = Sel(self.sel, lambda i: z3.And(self.sel.cond(i), self.true(i)))
        return self.picked

    size = property(lambda self: wint(self.sel.size))

    def any(self, axis=None):
        return wbool(self.chosen().size > 0)

    def all(self, axis=None):
        return wbool(self.chosen().size == self.sel.size)

    def sum(self, axis=None):
        return wint(self.chosen().size)

    def __invert__(self):
        return Mask(self.sel, lambda i: z3.Not(self.true(i)))

    def _two(self, o, op):
        if not isinstance(o, Mask):
            raise Unsupported("mask operation")
        same_sel(self.sel, o.sel)
        return Mask(self.sel, lambda i: op(self.true(i), o.true(i)))

    def __and__(self, o): return self._two(o, z3.And)
    def __or__(self, o): return self._two(o, z3.Or)
    def __xor__(self, o): return self._two(o, z3.Xor)

    def __getitem__(self, k):
        if not isinstance(k, Mask):
            raise Unsupported("mask index")
        same_sel(k.sel, self.sel)
        return Mask(k.chosen(), self.true)

    def __bool__(self):
        raise Unsupported("truth value of an array")


def scalar_dtype(o):
    return o.dtype if isinstance(o, (Num, NArr)) else None


def compare(op, a, b):
    if isinstance(a, Mask) or isinstance(b, Mask):
        raise Unsupported("comparison of masks")
    if isinstance(a, NArr) and isinstance(b, NArr):
        same_sel(a.sel, b.sel)
        f, g = a.buf.at, b.buf.at
        return Mask(a.sel, lambda i: COMPARE[op](f(i), g(i)))
    for x, y in ((a, b), (b, a)):
        if isinstance(x, (Num, NArr)) and x.dtype is not None and x.dtype.kind in "iu" and isinstance(y, (float, np.floating)) | (isinstance(y, Num) and y.dtype is None):
            if x.dtype.itemsize * 8 > 32:
                raise Unsupported("an integer scalar compared with a float")
    if isinstance(a, NArr):
        f, y = a.buf.at, literal(b, a.dtype)
        return Mask(a.sel, lambda i: COMPARE[op](f(i), y))
    if isinstance(b, NArr):
        g, x = b.buf.at, literal(a, b.dtype)
        return Mask(b.sel, lambda i: COMPARE[op](x, g(i)))
    if not all(isinstance(x, (Num, SInt, int, float, np.number, np.bool_)) for x in (a, b)):
        if op in ("eq", "ne"):
            return op == "ne"
        raise Unsupported("comparison of a number with something else")
    return wbool(z3.simplify(COMPARE[op](literal(a, scalar_dtype(b)), literal(b, scalar_dtype(a)))))


def arith(op, a, b):
    if isinstance(a, Mask) or isinstance(b, Mask):
        raise Unsupported("arithmetic on masks")
    f = ARITH[op]
    if isinstance(a, NArr) and isinstance(b, NArr):
        same_sel(a.sel, b.sel)
        x, y = a.buf.at, b.buf.at
        d = np.result_type(a.dtype, b.dtype)
        if op == "div" and d.kind != "f":
            d = np.dtype("float64")
        if d.kind != "f":
            raise Unsupported("integer array arithmetic")
        return NArr(d, a.sel, memo(lambda i: f(x(i), y(i))))
    if isinstance(a, NArr) and a.dtype.kind == "f":
        x, y = a.buf.at, literal(b, a.dtype)
        return NArr(a.dtype, a.sel, memo(lambda i: f(x(i), y)))
    if isinstance(b, NArr) and b.dtype.kind == "f":
        x, y = literal(a, b.dtype), b.buf.at
        return NArr(b.dtype, b.sel, memo(lambda i: f(x, y(i))))
    if isinstance(a, NArr) or isinstance(b, NArr):
        raise Unsupported("integer array arithmetic")
    for x in (a, b):
        if isinstance(x, Num) and x.dtype is not None and x.dtype.kind in "iu":
            raise Unsupported("machine integer arithmetic")
    return Num(f(literal(a, scalar_dtype(b)), literal(b, scalar_dtype(a))), scalar_dtype(a) or scalar_dtype(b))


def memo(f):
    """one term per index"""
    known = {}

    def at(i):
        if i.get_id() not in known:
            known[i.get_id()] = (i, f(i))
        return known[i.get_id()][1]
    return at


def elementwise(f, a):
    if isinstance(a, NArr):
        g = a.buf.at
        if a.dtype.kind not in "f":
            raise Unsupported("integer array arithmetic")
        return NArr(a.dtype, a.sel, lambda i: f(g(i)))
    if isinstance(a, Num):
        return Num(f(a.el), a.dtype)
    raise Unsupported("array operation")


def bounds(d):
    i = np.iinfo(d) if d.kind in "iu" else np.finfo(d)
    return literal(i.min).v, literal(i.max).v


def cast(x, src, d):
    c = z3.Function("cast_" + d.name, Re, Re)(x.v)
    ok = z3.Function("fits_" + d.name, Re, B)(x.v)
    if d.kind == "b":
        raise Unsupported("cast to bool")
    lo, hi = bounds(d)
    inside = z3.And(x.v >= lo, x.v <= hi)
    core.E.fact(z3.Implies(x.v == 0, z3.And(c == 0, ok)))
    core.E.fact(z3.Implies(z3.And(x.v > 0, inside), z3.And(c >= 0, c <= 2 * x.v)))
    core.E.fact(z3.Implies(z3.And(x.v < 0, inside), z3.And(c <= 0, c >= 2 * x.v)))
    if d.kind in "iu":
        if src.kind in "iu":
            core.E.fact(z3.Implies(inside, c == x.v))
        core.E.fact(z3.Implies(inside, z3.And(c >= lo, c <= hi, c - x.v < 1, x.v - c < 1)))
        junk = z3.Real(core.E.run.fresh("junk"))
        return El(z3.If(x.fin, c, junk))
    core.E.fact(z3.Implies(inside, ok))
    if src.kind == "f" and src.itemsize <= d.itemsize or src.kind in "iu" and np.iinfo(src).bits < np.finfo(d).nmant:
        core.E.fact(z3.And(c == x.v, ok))
    return El(c, z3.And(x.fin, ok), x.nan, z3.If(x.fin, x.v < 0, x.neg))


def extreme(which, a, skip_nan=False):
    if isinstance(a, Num):
        return a
    if not isinstance(a, NArr):
        raise Unsupported("extreme of this")
    if core.E.decide(a.sel.size == 0):
        raise ValueError("zero-size array to reduction operation which has no identity")
    core.E.fact(a.sel.size > 0)
    w = witness()
    f, sel = a.buf.at, a.sel
    m = f(w)
    core.E.fact(sel.cond(w))

    def fact(i):
        x = f(i)
        beyond = le(m, x) if which == "min" else le(x, m)
        if skip_nan:
            return z3.Implies(z3.And(sel.cond(i), z3.Not(x.nan)), z3.And(z3.Not(m.nan), beyond))
        return z3.And(z3.Implies(z3.And(sel.cond(i), x.nan), m.nan), z3.Implies(z3.And(sel.cond(i), z3.Not(m.nan)), beyond))
    forall(fact)
    return Num(m, a.dtype)


class Ser(Sym):
    """a series: named values"""
    def __init__(self, arr, name=None, index=None):
        self.__dict__.update(arr=arr, name=name)

    dtype = property(lambda self: self.arr.dtype)
    values = property(lambda self: self.arr)
    size = property(lambda self: self.arr.size)

    def to_numpy(self):
        return self.arr

    def copy(self, deep=True):
        return Ser(self.arr.copy(), self.name)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"series attribute {name}")

    __hash__ = None


def series(arr=None, index=None, dtype=None, name=None, copy=None):
    if "StandIndex" in models.PRELUDE and isinstance(index, models.PRELUDE["StandIndex"]):
        from . import framehooks
        return framehooks.series(arr, index)
    if not isinstance(arr, NArr) or index is not None or dtype is not None:
        raise Unsupported("construction of a series")
    return Ser(arr.copy(), name)


# ---- numpy functions
def asarray(a, dtype=None, **k):
    if k:
        raise Unsupported("asarray with options")
    if isinstance(a, Ser):
        a = a.arr
    if isinstance(a, (NArr, Mask, Num)):
        return a if dtype is None else a.astype(dtype, copy=False)
    if has_sym(a):
        raise Unsupported("asarray of this")
    return np.asarray(a, dtype)


def arrays_only(*xs):
    if not any(isinstance(x, Numeric) for x in xs):
        raise Unsupported("numpy function on something else")


def isfinite(a):
    arrays_only(a)
    if isinstance(a, Num):
        return wbool(a.el.fin)
    f = a.buf.at
    return Mask(a.sel, lambda i: f(i).fin)


def isnan(a):
    if isinstance(a, Num):
        return wbool(a.el.nan)
    arrays_only(a)
    f = a.buf.at
    return Mask(a.sel, lambda i: f(i).nan)


def isinf(a):
    arrays_only(a)
    f = a.buf.at
    return Mask(a.sel, lambda i: f(i).inf)


def dispatch(fn, m):
    """the model for symbolic arguments, numpy itself otherwise"""
    def f(*a, **k):
        return m(*a, **k) if has_sym(a) or has_sym(k) else fn(*a, **k)
    model(fn)(f)


def method(name):
    def f(a, *x, **k):
        arrays_only(a)
        return getattr(a, name)(*x, **k)
    return f


dispatch(np.asarray, asarray)
dispatch(np.array, lambda a, dtype=None: asarray(a, dtype).copy())
dispatch(np.isfinite, isfinite)
dispatch(np.isnan, isnan)
dispatch(np.isinf, isinf)
for _f in {np.abs, np.absolute, np.fabs}:
    dispatch(_f, lambda a: elementwise(el_abs, a))
dispatch(np.negative, lambda a: elementwise(el_neg, a))
for _n in ("min", "max", "amin", "amax"):
    dispatch(getattr(np, _n), lambda a, _n=_n: extreme(_n[-3:], a))
dispatch(np.nanmin, lambda a: extreme("min", a, True))
dispatch(np.nanmax, lambda a: extreme("max", a, True))
dispatch(np.any, method("any"))
dispatch(np.all, method("all"))
dispatch(np.sum, method("sum"))
dispatch(np.count_nonzero, lambda a: (a if isinstance(a, Mask) else compare("ne", a, 0)).sum())
dispatch(np.size, lambda a: a.size)
dispatch(np.copy, method("copy"))
dispatch(np.logical_not, lambda a: ~a)
dispatch(np.invert, lambda a: ~a)
dispatch(np.logical_and, lambda a, b: a & b)
dispatch(np.bitwise_and, lambda a, b: a & b)
dispatch(np.logical_or, lambda a, b: a | b)
dispatch(np.bitwise_or, lambda a, b: a | b)
for _u, _o in ((np.subtract, "sub"), (np.add, "add"), (np.multiply, "mul"), (np.divide, "div")):
    dispatch(_u, lambda a, b, _o=_o: arith(_o, a, b))
for _u, _o in ((np.less, "lt"), (np.less_equal, "le"), (np.greater, "gt"), (np.greater_equal, "ge"), (np.equal, "eq"), (np.not_equal, "ne")):
    dispatch(_u, lambda a, b, _o=_o: compare(_o, a, b))
dispatch(np.result_type, lambda *a: np.result_type(*[x.dtype if isinstance(x, (NArr, Num)) and x.dtype is not None else x for x in a]))


# ---- what contracts say
def source(dtype, name="a"):
    """an arbitrary non-empty one-dimensional array"""
    d = np.dtype(dtype)
    sel = Sel(None, lambda i: TRUE)
    core.E.run.add(sel.size > 0)
    if d.kind in "iu":
        f = z3.Function(name + "_int", I, I)
        lo, hi = int(np.iinfo(d).min), int(np.iinfo(d).max)
        forall(lambda i: z3.And(f(i) >= lo, f(i) <= hi))
        return NArr(d, sel, lambda i: El(z3.ToReal(f(i))))
    v, k = z3.Function(name + "_value", I, Re), z3.Function(name + "_kind", I, I)
    lo, hi = bounds(d)
    forall(lambda i: z3.Implies(k(i) == 0, z3.And(v(i) >= lo, v(i) <= hi)))
    return NArr(d, sel, lambda i: El(v(i), k(i) == 0, k(i) == 1, k(i) == 2))


def tolerance(name):
    t = z3.Real(name)
    core.E.run.add(t >= 0)
    return Num(El(t))


def contents(a):
    return a.buf.at


def values(v):
    """the array in a result"""
    return v.arr if isinstance(v, Ser) else v


def element(name):
    return index(z3.Int(name))


def long_loops():
    """a loop over a long literal sequence is cut: an arbitrary iteration stands for each, with what earlier ones assigned forgotten"""
    core.E.run.cut = 9


def ran_out():
    """a cut loop went through its whole sequence"""
    return getattr(core.E.run, "cut_through", False)


def same_length(a, b):
    return wbool(z3.simplify(a.sel.size == b.sel.size)) if isinstance(a, NArr) else False


def is_series(v):
    return isinstance(v, Ser)


def equal(x, y):
    """the same element"""
    return wbool(z3.And(x.fin == y.fin, z3.Implies(x.fin, x.v == y.v), x.nan == y.nan, z3.Implies(x.inf, x.neg == y.neg)))


def number_is(x, n):
    return wbool(eq(literal(x), literal(n)))


def implies(a, b):
    return wbool(z3.Implies(a, b))


def no(a):
    return z3.Not(a)


def distance(x, y):
    return z3.If(x.v >= y.v, x.v - y.v, y.v - x.v)


def within(x, y, tol):
    """a finite element's difference is at most tol"""
    t = literal(tol)
    return wbool(z3.Implies(x.fin, le(El(distance(x, y)), t)))


def within_relative(x, y, tol):
    """a finite element's difference relative to itself is at most tol; zero stays zero"""
    t = literal(tol)
    d = distance(x, y)
    return wbool(z3.Implies(x.fin, z3.If(x.v == 0, d == 0, z3.Or(d == 0, z3.And(t.fin, quotient(d, size_of(x.v)) <= t.v), z3.And(t.inf, z3.Not(t.neg))))))


def smallest(dtype, low, high):
    """the type is the first of its signedness that holds everything from low to high, unsigned exactly when nothing is negative"""
    lo, hi = low.el.v, high.el.v
    kind = dtype.kind
    if kind not in "iu":
        return False
    want = [(lo >= 0) if kind == "u" else (lo < 0)]
    for bits in (8, 16, 32, 64):
        i = np.iinfo(f"{'u' if kind == 'u' else ''}int{bits}")
        fits = z3.And(lo >= RV(Fraction(int(i.min))), hi <= RV(Fraction(int(i.max))))
        if bits < dtype.itemsize * 8:
            want.append(z3.Not(fits))
        elif bits == dtype.itemsize * 8:
            want.append(fits)
    return wbool(z3.And(want))
