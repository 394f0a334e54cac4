"""pydv: contract-based deductive verification of the repository's Python, by path exploration of the
instrumented source with z3.  See DESIGN.md for the logic; the trusted axioms are marked AXIOM."""
import ctypes, itertools, sys, time, types, typing, operator
import z3

z3.set_param("rewriter.sort_disjunctions", False)      # keep the text of terms independent of allocation order

# ---------------------------------------------------------------- sorts
Opq = z3.DeclareSort("Opq")
World = z3.DeclareSort("World")
Sq = z3.DeclareSort("Sq")                   # finite sequences of values
I, B, S = z3.IntSort(), z3.BoolSort(), z3.StringSort()
_d, _l = z3.Datatype("Val"), z3.Datatype("VL")
_d.declare("none")
_d.declare("absent")
_d.declare("b", ("bv", B))
_d.declare("i", ("iv", I))
_d.declare("s", ("sv", S))
_d.declare("by", ("byv", S))
_d.declare("tup", ("tv", _l))
_d.declare("lst", ("lv", Sq))
_d.declare("dct", ("dbase", _d), ("dupd", Sq))
_d.declare("obj", ("oid", I))
_d.declare("op", ("opv", Opq))
_l.declare("nil")
_l.declare("cons", ("hd", _d), ("tl", _l))
Val, VL = z3.CreateDatatypes(_d, _l)
F_ = z3.Function
slen = F_("slen", Sq, I)
elt = F_("elt", Sq, I, Val)
squnit = F_("squnit", Val, Sq)
sqcat = F_("sqcat", Sq, Sq, Sq)
sqsub = F_("sqsub", Sq, I, I, Sq)
EMPTY = z3.Const("sqempty", Sq)
sqvl = F_("sqvl", VL, Sq)                   # elements of a tuple of unknown length
vlsq = F_("vlsq", Sq, VL)
dget = F_("dget", Val, Val, Val)            # mapping lookup, absent if missing
dkeys = F_("dkeys", Val, Sq)                # keys of an opaque mapping, in order
seqof = F_("seqof", Val, Sq)                # elements of an opaque iterable, in order
isaf = F_("isa", Val, Val, B)               # isinstance on opaque values
excf = F_("excisa", Val, Val, B)
truthf = F_("truth", Val, B)
apf = F_("ap", Val, VL, Val)                # pure opaque call
aprf = F_("ap_raises", Val, VL, B)
apef = F_("ap_exc", Val, VL, Val)
apw = F_("apw", Val, VL, World, Val)        # effectful opaque call
apww = F_("apw_world", Val, VL, World, World)
apwr = F_("apw_raises", Val, VL, World, B)
apwe = F_("apw_exc", Val, VL, World, Val)
hasattrf = F_("hasattr", Val, Val, B)
attrf = F_("attr", Val, Val, Val)
strf = F_("str", Val, S)
memf = F_("mem", Sq, Val, B)
indexf = F_("index", Sq, Val, I)
joinf = F_("join", S, Sq, S)
excitem = F_("exc_item", Val, Val, Val)


def vl(ts):
    r = VL.nil
    for t in reversed(ts):
        r = VL.cons(t, r)
    return r


def unvl(t):
    """elements of a literal VL term, else None"""
    out = []
    while z3.is_app(t) and t.decl().name() == "cons":
        out.append(t.arg(0))
        t = t.arg(1)
    return out if z3.is_app(t) and t.decl().name() == "nil" else None


def tupel(t, k):
    """element k of a tuple value"""
    r = Val.tv(t)
    for _ in range(k):
        r = VL.tl(r)
    return z3.simplify(VL.hd(r))


def tup_longer(t, k):
    r, out = Val.tv(t), []
    for _ in range(k + 1):
        out.append(VL.is_cons(r))
        r = VL.tl(r)
    return z3.And(out)


def is_ntuple(t, n):
    r, out = Val.tv(t), [Val.is_tup(t)]
    for _ in range(n):
        out.append(VL.is_cons(r))
        r = VL.tl(r)
    return z3.And(out + [r == VL.nil])


def L(t):
    """length of a sequence term"""
    n = slen(t)
    E.fact(n >= 0)
    return n


class Unsupported(BaseException):
    pass


class PathEnd(BaseException):
    pass


class Poison:
    """a variable whose value after an arbitrary number of iterations is not modelled"""
    def __init__(self, why):
        object.__setattr__(self, "why", why)

    def _bad(self, *a, **k):
        raise Unsupported(f"use of unmodelled loop variable {self.why}")
    __getattr__ = __bool__ = __iter__ = __len__ = __eq__ = __call__ = __getitem__ = __add__ = __str__ = __contains__ = _bad
    __hash__ = object.__hash__


E = None   # the engine singleton, set by Engine()


# ---------------------------------------------------------------- values
class Sym:
    __hash__ = None


def is_lit(t):
    return z3.is_int_value(t) or z3.is_string_value(t) or z3.is_true(t) or z3.is_false(t)


def zstr(s):
    """python str -> z3 string literal"""
    return z3.StringVal("".join(c if 32 <= ord(c) < 127 and c != "\\" else "\\u{%x}" % ord(c) for c in s))


def pystr(t):
    s = t.as_string()
    import re
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)


def wrap(t):
    """z3 Val term -> interpreter value, recognising constructors"""
    if z3.is_app(t):
        n = t.decl().name()
        k = t.decl().kind()
        if k == z3.Z3_OP_DT_CONSTRUCTOR:
            if n == "none":
                return None
            if n == "b":
                return wbool(t.arg(0))
            if n == "i":
                return wint(t.arg(0))
            if n == "s":
                return wstr(t.arg(0))
            if n == "tup":
                u = unvl(t.arg(0))
                if u is not None:
                    return tuple(wrap(x) for x in u)
                a = t.arg(0)
                if z3.is_app(a) and a.decl().name() == "vlsq":
                    return SymTuple([F(None, Atom(a.arg(0)))])
                return SymTuple([F(None, Atom(sqvl(a)))])
            if n == "obj" and z3.is_int_value(t.arg(0)):
                o = E.objs.get(t.arg(0).as_long())
                if o is not None:
                    return o[0]
    return SV(t)


def wbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def wint(t):
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else SInt(t)


def wstr(t):
    t = z3.simplify(t)
    return pystr(t) if z3.is_string_value(t) else SStr(t)


def wseq(t):
    """a sequence term as chunks"""
    n = t.decl().name()
    if n == "sqempty":
        return []
    if n == "squnit":
        return [U(wrap(t.arg(0)))]
    if n == "sqcat":
        return wseq(t.arg(0)) + wseq(t.arg(1))
    return [F(None, Atom(t))]


def concat(ts):
    ts = [t for t in ts if t.decl().name() != "sqempty"]
    if not ts:
        return EMPTY
    r = ts[-1]
    for t in reversed(ts[:-1]):
        r = sqcat(t, r)
        E.fact(slen(r) == L(t) + L(r.arg(1)))
    return r


def unit(v):
    r = squnit(v)
    E.fact(slen(r) == 1)
    return r


FLOATS = {}


def embed(v):
    """interpreter value -> z3 Val term"""
    if v is None:
        return Val.none
    if isinstance(v, bool):
        return Val.b(z3.BoolVal(v))
    if isinstance(v, int) and type(v) is int:
        return Val.i(z3.IntVal(v))
    if isinstance(v, str) and type(v) is str:
        return Val.s(zstr(v))
    if isinstance(v, SV):
        return v.t
    if isinstance(v, SBool):
        return Val.b(v.t)
    if isinstance(v, SInt):
        return Val.i(v.t)
    if isinstance(v, SStr):
        return Val.s(v.t)
    if isinstance(v, SBytes):
        return Val.by(v.t)
    if type(v) is bytes:
        return Val.by(zstr(v.decode("latin-1")))
    if type(v) is tuple:
        return Val.tup(vl([embed(x) for x in v]))
    if isinstance(v, SymTuple):
        return Val.tup(evl(v.c))
    if isinstance(v, SymList):
        return Val.lst(eseq(v.c))
    if isinstance(v, SymDict):
        if type(v) not in (SymDict, FrozenDict) or v.pytype is not dict:
            raise Unsupported(f"a {type(v).__name__} used as an opaque value")
        if v.c.base is not None and not v.c.upd:
            # a dictionary of its own, not the one it was copied from
            return Val.dct(v.c.base, EMPTY)
        return edict(v.c)
    if isinstance(v, Absent):
        return Val.absent
    if isinstance(v, Poison):
        v._bad()
    if isinstance(v, SymExc):
        return v.t
    if hasattr(v, "__dv_embed__"):
        return v.__dv_embed__()
    if isinstance(v, Sym):
        raise Unsupported(f"value of kind {type(v).__name__} used as an opaque value")
    if type(v) is float:
        v = FLOATS.setdefault(repr(v), v)        # floats are compared by value
    return Val.obj(z3.IntVal(E.objid(v)))


def evl(chunks):
    if all(isinstance(c, U) for c in chunks):
        return vl([embed(c.v) for c in chunks])
    t = eseq(chunks)
    if t.decl().name() == "sqvl":
        return t.arg(0)
    n = slen(t)
    E.fact(n >= 0)
    E.fact((n == 0) == (t == EMPTY))             # the empty list is the one of length 0
    E.fact((n == 0) == (vlsq(t) == vl([])))
    return vlsq(t)


def edict(c):
    if c.base is None:
        return Val.dct(Val.none, eseq(c.upd))
    if not c.upd:
        return c.base
    return Val.dct(c.base, eseq(c.upd))


class Absent:
    pass


ABSENT = Absent()


def sym_arith(name):
    def f(self, other, name=name):
        return arith(name, self, other)
    return f


def as_int(v):
    """SInt/int/SV -> z3 Int or None"""
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, SInt):
        return v.t
    if isinstance(v, SV) and E.valid(Val.is_i(v.t)):
        return Val.iv(v.t)
    return None


def arith(op, a, b):
    if E.run.order is not None and op in ("lt", "le", "gt", "ge"):
        return E.run.order(op, a, b)
    x, y = as_int(a), as_int(b)
    if x is None or y is None:
        if op in ("lt", "le", "gt", "ge") and isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
            raise Unsupported("string order")
        if E.run.order is not None and op in ("add", "sub", "mul") and all(isinstance(v, (SV, SInt)) or type(v) in (int, float) for v in (a, b)):
            # numbers of a kind the order is over: some number, a function of the two
            return wrap(z3.Function(f"arith_{op}", Val, Val, Val)(embed(a), embed(b)))
        raise Unsupported(f"arithmetic {op} on {type(a).__name__}, {type(b).__name__}")
    if op == "add":
        return wint(x + y)
    if op == "sub":
        return wint(x - y)
    if op == "mul":
        return wint(x * y)
    return wbool({"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[op])


class SInt(Sym):
    def __init__(self, t):
        self.t = t
    __add__, __sub__, __mul__ = sym_arith("add"), sym_arith("sub"), sym_arith("mul")
    __lt__, __le__, __gt__, __ge__ = sym_arith("lt"), sym_arith("le"), sym_arith("gt"), sym_arith("ge")

    def __radd__(self, o):
        return arith("add", o, self)

    def __rsub__(self, o):
        return arith("sub", o, self)

    def __neg__(self):
        return wint(-self.t)

    def __eq__(self, o):
        return cmp_eq(self, o)

    def __ne__(self, o):
        return notv(cmp_eq(self, o))

    def __bool__(self):
        return E.decide(self.t != 0)

    def __index__(self):
        raise Unsupported("symbolic integer where a concrete one is needed")

    def to_bytes(self, n, order):
        return MODELS_INT["to_bytes"](self, n, order)

    def __repr__(self):
        return f"SInt({self.t})"


MODELS_INT = {}


class SLen(SInt):
    """the length of a sequence; comparisons with 0 and 1 become emptiness tests"""
    def __init__(self, t, chunks):
        self.t, self.chunks = t, chunks

    def __bool__(self):
        return seq_nonempty(self.chunks)


def len_cmp(op, a, b):
    """len(s) op constant as an emptiness test, or None"""
    if isinstance(b, SLen):
        if isinstance(a, SLen):
            return None
        a, b, op = b, a, {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(op, op)
    if not isinstance(a, SLen) or type(b) is not int:
        return None
    if (op, b) in (("eq", 0), ("le", 0), ("lt", 1)):
        return not seq_nonempty(a.chunks)
    if (op, b) in (("ne", 0), ("gt", 0), ("ge", 1)):
        return seq_nonempty(a.chunks)
    return None


class SBool(Sym):
    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return E.decide(self.t)

    def __eq__(self, o):
        return cmp_eq(self, o)

    def __ne__(self, o):
        return notv(cmp_eq(self, o))

    def __and__(self, o):
        x = bool_term(o)
        if x is None:
            return NotImplemented
        return wbool(z3.And(self.t, x))

    def __or__(self, o):
        x = bool_term(o)
        if x is None:
            return NotImplemented
        return wbool(z3.Or(self.t, x))
    __rand__, __ror__ = __and__, __or__

    def __repr__(self):
        return f"SBool({self.t})"


def bool_term(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, SBool):
        return v.t
    return None


class SStr(Sym):
    def __init__(self, t):
        self.t = t

    def __add__(self, o):
        if isinstance(o, str):
            return wstr(z3.Concat(self.t, zstr(o)))
        if isinstance(o, SStr):
            return wstr(z3.Concat(self.t, o.t))
        if isinstance(o, SV) and E.valid(Val.is_s(o.t)):
            return wstr(z3.Concat(self.t, Val.sv(o.t)))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return wstr(z3.Concat(zstr(o), self.t))
        return NotImplemented

    def __eq__(self, o):
        return cmp_eq(self, o)

    def __ne__(self, o):
        return notv(cmp_eq(self, o))

    def __bool__(self):
        return E.decide(self.t != z3.StringVal(""))

    def __len__(self):
        raise Unsupported("len of symbolic string")

    def startswith(self, p):
        return wbool(z3.PrefixOf(sterm(p), self.t))

    def endswith(self, p):
        return wbool(z3.SuffixOf(sterm(p), self.t))

    def encode(self, *a):
        return wbytes(utf8(self.t))

    def join(self, it):
        return str_join(self, it)

    def __repr__(self):
        return f"SStr({self.t})"

    def __getitem__(self, k):
        return wstr(text_slice(self.t, k))

    def __contains__(self, x):
        return E.decide(z3.Contains(self.t, sterm(x)))

    def removeprefix(self, p):
        p = sterm(p)
        return wstr(z3.If(z3.PrefixOf(p, self.t), z3.SubString(self.t, z3.Length(p), z3.Length(self.t) - z3.Length(p)), self.t))

    def removesuffix(self, p):
        p = sterm(p)
        return wstr(z3.If(z3.SuffixOf(p, self.t), z3.SubString(self.t, z3.IntVal(0), z3.Length(self.t) - z3.Length(p)), self.t))

    def __getattr__(self, name):
        if name in TEXT_TO_TEXT or name in TEXT_TESTS:
            return lambda *a: text_method(self.t, name, a)
        raise Unsupported(f"method {name} of a symbolic string")


# methods of str known only to be functions of their arguments
TEXT_TO_TEXT = {"lower", "upper", "casefold", "capitalize", "title", "swapcase", "strip", "lstrip", "rstrip", "replace", "zfill", "ljust", "rjust",
                "center", "expandtabs"}
TEXT_TESTS = {"isalnum", "isalpha", "isascii", "isdecimal", "isdigit", "isidentifier", "islower", "isnumeric", "isprintable", "isspace", "istitle", "isupper"}


def text_method(t, name, args, sort="str"):
    if any(type(a) not in (str, int, bytes, type(None)) for a in args):
        raise Unsupported(f"method {name} of a symbolic string with symbolic arguments")
    f = z3.Function(f"text_{sort}.{name}{list(args) if args else ''}", S, B if name in TEXT_TESTS else S)
    return wbool(f(t)) if name in TEXT_TESTS else (wstr if sort == "str" else wbytes)(f(t))


def text_slice(t, k):
    """t[a:b], or t[i] for an index in bounds"""
    n = z3.Length(t)
    if not isinstance(k, slice):
        i = as_int(k)
        if i is None:
            raise Unsupported("index of a symbolic string")
        if E.decide(z3.Or(i >= n, i < -n)):
            raise IndexError("string index out of range")
        return z3.SubString(t, z3.If(i < 0, i + n, i), z3.IntVal(1))
    lo, hi = slice_bounds(n, k)
    return z3.SubString(t, lo, hi - lo)


def slice_bounds(n, k):
    if k.step is not None and k.step != 1:
        raise Unsupported("slice with a step of a symbolic string")

    def at(x, default):
        if x is None:
            return default
        i = as_int(x)
        if i is None:
            raise Unsupported("bounds of a slice")
        i = z3.If(i < 0, i + n, i)
        return z3.simplify(z3.If(i < 0, z3.IntVal(0), z3.If(i > n, n, i)))
    lo, hi = at(k.start, z3.IntVal(0)), at(k.stop, n)
    return lo, z3.simplify(z3.If(hi < lo, lo, hi))


class SBytes(Sym):
    """bytes; modelled as a sequence over an unspecified alphabet"""
    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return cmp_eq(self, o)

    def __ne__(self, o):
        return notv(cmp_eq(self, o))

    def __bool__(self):
        return E.decide(self.t != z3.StringVal(""))

    def __add__(self, o):
        return wbytes(z3.Concat(self.t, byterm(o))) if isinstance(o, (bytes, SBytes)) else NotImplemented

    def __radd__(self, o):
        return wbytes(z3.Concat(byterm(o), self.t)) if isinstance(o, bytes) else NotImplemented

    def startswith(self, p):
        return wbool(z3.PrefixOf(byterm(p), self.t))

    def endswith(self, p):
        return wbool(z3.SuffixOf(byterm(p), self.t))

    def __getattr__(self, name):
        if name in ("strip", "lstrip", "rstrip", "ljust", "rjust", "zfill", "replace"):
            return lambda *a: text_method(self.t, name, a, "bytes")
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"method {name} of symbolic bytes")

    def decode(self, *a):
        t = z3.simplify(self.t)
        if E.run.raises and not (z3.is_app(t) and t.decl().name() == "utf8") and E.decide(undecodable(t)):
            raise UnicodeDecodeError("utf-8", b"", 0, 1, "some byte")
        return wstr(unutf8(t))

    def find(self, sub, *rest):
        if rest:
            raise Unsupported("bytes.find with bounds")
        return wint(z3.IndexOf(self.t, byterm(sub), z3.IntVal(0)))

    def index(self, sub, *rest):
        n = self.find(sub, *rest)
        if E.decide(as_int(n) < 0):
            raise ValueError("subsection not found")
        return n

    def __len__(self):
        return wint(z3.Length(self.t))

    def __contains__(self, sub):
        return bool(wbool(z3.Contains(self.t, byterm(sub))))

    def __getitem__(self, k):
        if isinstance(k, slice) and k.step is None and k.start in (None, 0) and k.stop is not None:
            n = as_int(k.stop)
            if n is not None and E.valid(n >= 0):
                return wbytes(z3.SubString(self.t, z3.IntVal(0), n))
        if not isinstance(k, slice):
            raise Unsupported("one byte of symbolic bytes")
        return wbytes(text_slice(self.t, k))

    def __repr__(self):
        return f"SBytes({self.t})"


undecodable = F_("undecodable", S, B)
utf8f = F_("utf8", S, S)
unutf8f = F_("unutf8", S, S)


def utf8(t):
    """AXIOM utf8: decoding is the left inverse of encoding"""
    t = z3.simplify(t)
    r = utf8f(t)
    E.fact(unutf8f(r) == t)
    E.fact((r == z3.StringVal("")) == (t == z3.StringVal("")))
    return r


def unutf8(t):
    t = z3.simplify(t)
    if z3.is_app(t) and t.decl().name() == "utf8":
        return t.arg(0)
    return unutf8f(t)


def wbytes(t):
    t = z3.simplify(t)
    return pystr(t).encode("latin-1") if z3.is_string_value(t) else SBytes(t)


def byterm(v):
    if isinstance(v, bytes):
        return zstr(v.decode("latin-1"))
    if isinstance(v, SBytes):
        return v.t
    if isinstance(v, SV) and E.valid(Val.is_by(v.t)):
        return Val.byv(v.t)
    raise Unsupported("bytes expected")


def sterm(v):
    if isinstance(v, str):
        return zstr(v)
    if isinstance(v, SStr):
        return v.t
    if isinstance(v, SV) and E.valid(Val.is_s(v.t)):
        return Val.sv(v.t)
    raise Unsupported(f"string expected, got {type(v).__name__}")


def to_str(v):
    """str(v)"""
    if isinstance(v, (str, SStr)):
        return v
    if isinstance(v, SV):
        E.fact(z3.Implies(Val.is_s(v.t), strf(v.t) == Val.sv(v.t)))
        if E.valid(Val.is_s(v.t)):
            return wstr(Val.sv(v.t))
        return wstr(strf(v.t))
    if isinstance(v, Sym):
        return wstr(strf(embed(v)))
    if isinstance(v, tuple):
        return wstr(strf(embed(v)))
    if isinstance(v, SymExc):
        return wstr(strf(v.t))
    if isinstance(v, BaseException):
        if any(isinstance(a, Sym) for a in v.args):
            return wstr(strf(embed(v)))
    return str(v)


def str_join(sep, it):
    seq = listof(it).c
    if all(isinstance(c, U) for c in seq):
        out = ""
        for n, c in enumerate(seq):
            if n:
                out = out + sep
            out = out + (c.v if isinstance(c.v, (str, SStr)) else wstr(sterm(c.v)))
        return out
    # AXIOM join: join(sep, s ++ [x]) = x if s is empty, else join(sep, s) + sep + x
    s = sterm(sep)
    trailing = []
    seq = list(seq)
    while seq and isinstance(seq[-1], U):
        trailing.insert(0, seq.pop())
    cur = eseq(seq)
    out = joinf(s, cur)
    E.fact(joinf(s, EMPTY) == z3.StringVal(""))
    for c in trailing:
        nxt = concat([cur, unit(embed(c.v))])
        j = joinf(s, nxt)
        E.fact(j == z3.If(L(cur) == 0, sterm(c.v), z3.Concat(joinf(s, cur), s, sterm(c.v))))
        cur, out = nxt, j
    return wstr(out)


class SV(Sym):
    """an opaque value"""
    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return cmp_eq(self, o)

    def __ne__(self, o):
        return notv(cmp_eq(self, o))

    def __bool__(self):
        return E.decide(truth(self.t))

    __add__, __sub__, __mul__ = sym_arith("add"), sym_arith("sub"), sym_arith("mul")
    __lt__, __le__, __gt__, __ge__ = sym_arith("lt"), sym_arith("le"), sym_arith("gt"), sym_arith("ge")

    def __add__(self, o):
        if E.valid(Val.is_s(self.t)):
            return SStr(Val.sv(self.t)) + o
        if isinstance(o, SymList) or E.valid(Val.is_lst(self.t)):
            return SymList(list_content(self) + list_content(o))
        return arith("add", self, o)

    def __radd__(self, o):
        if isinstance(o, (str, SStr)):
            return wstr(z3.Concat(sterm(o), sterm(self)))
        if isinstance(o, SymList):
            return SymList(o.c + list_content(self))
        return arith("add", o, self)

    def __call__(self, *a, **k):
        return E.opcall(self, a, k)

    def __getitem__(self, k):
        return getitem(self, k)

    def __len__(self):
        raise Unsupported("native len of opaque value")

    def __iter__(self):
        return dv_iter(self)

    def __contains__(self, k):
        return bool(contains(self, k))

    def __getattr__(self, name):
        if name.startswith("__") and name not in ("__name__", "__traceback__", "__call__", "__code__", "__globals__"):
            raise AttributeError(name)
        return opaque_attr(self, name)

    def __or__(self, o):
        return dict_union(self, o)

    def __ror__(self, o):
        return dict_union(o, self)

    def __repr__(self):
        return f"SV({self.t})"


def truth(t):
    """truth value of a Val term"""
    w = t
    if z3.is_app(w) and w.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
        v = wrap(w)
        if v is None:
            return z3.BoolVal(False)
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, SInt):
            return v.t != 0
        if isinstance(v, (int, str, tuple)):
            return z3.BoolVal(bool(v))
        n = w.decl().name()
        if n in ("tup", "lst"):
            return L(w.arg(0)) > 0 if n == "lst" else w.arg(0) != VL.nil
    # AXIOM truth: None, False, 0, "" and empty sequences are false
    return z3.If(Val.is_none(t), z3.BoolVal(False),
           z3.If(Val.is_b(t), Val.bv(t),
           z3.If(Val.is_i(t), Val.iv(t) != 0,
           z3.If(Val.is_s(t), Val.sv(t) != z3.StringVal(""),
           z3.If(Val.is_tup(t), Val.tv(t) != VL.nil,
           z3.If(Val.is_lst(t), L(Val.lv(t)) > 0, truthf(t)))))))


MAPPING_METHODS = {"items", "keys", "values", "get", "copy"}


class Bound(Sym):
    """method of an opaque object"""
    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __call__(self, *a, **k):
        return E.opmethod(self.obj, self.name, a, k)

    def __dv_embed__(self):
        return attrf(embed(self.obj), Val.s(zstr(self.name)))

    def __bool__(self):
        return True


def opaque_attr(v, name):
    hook = E.run.attr_hook
    if hook is not None:
        r = hook(v, name)
        if r is not NotImplemented:
            return r
    if name in MAPPING_METHODS:
        return Bound(v, name)
    n = Val.s(zstr(name))
    if name not in E.run.total_attrs and not E.decide(hasattrf(v.t, n)):
        raise AttributeError(name)
    if name in E.run.text_attrs:
        return SStr(Val.sv(attrf(v.t, n)))
    return wrap(attrf(v.t, n))


# ---------------------------------------------------------------- sequences
class Atom:
    """a base sequence: a z3 sequence term, with a view of its elements"""
    __slots__ = ("t", "view", "unique")

    def __init__(self, t, view=None, unique=False):
        self.t, self.view, self.unique = t, view, unique

    def element(self, x):
        if self.view is None:
            return wrap(x)
        if isinstance(self.view, int):
            return tuple(wrap(tupel(x, k)) for k in range(self.view))
        return self.view(x)


class U:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"U({self.v!r})"


class F:
    """flat-map of body over atom[lo:hi]; body None is the identity"""
    __slots__ = ("body", "atom", "lo", "hi")

    def __init__(self, body, atom, lo=None, hi=None):
        self.body, self.atom, self.lo, self.hi = body, atom, lo, hi

    def lo_t(self):
        return z3.IntVal(0) if self.lo is None else self.lo

    def hi_t(self):
        return L(self.atom.t) if self.hi is None else self.hi

    def at(self, x, ix):
        """[(cond, chunks)] for element x at index ix"""
        if self.body is None:
            return [(z3.BoolVal(True), [U(self.atom.element(x))])]
        return self.body.at(x, ix)

    def __repr__(self):
        return f"F({self.body!r}, {self.atom.t}[{self.lo}:{self.hi}])"


class Body:
    """branches: [(z3 cond, chunks)] over bound element x and bound index ix; total: some branch always holds
    (an element for which none does contributes nothing)"""
    def __init__(self, x, ix, branches, total=None):
        self.x, self.ix, self.branches = x, ix, branches
        self.total = any(z3.is_true(z3.simplify(c)) for c, _ in branches) if total is None else total

    def at(self, x, ix):
        p = [(self.x, x), (self.ix, ix)]
        return [(z3.simplify(z3.substitute(c, *p)), subst(ch, p)) for c, ch in self.branches]

    def __repr__(self):
        return f"Body({self.x},{self.branches})"


def subst(v, p):
    """substitute z3 constants inside an immutable interpreter value"""
    if isinstance(v, (list,)):
        return [subst(x, p) for x in v]
    if type(v) is tuple:
        return tuple(subst(x, p) for x in v)
    if isinstance(v, U):
        return U(subst(v.v, p))
    if isinstance(v, F):
        b = v.body
        if b is not None:
            b = Body(b.x, b.ix, [(z3.substitute(c, *p), subst(ch, p)) for c, ch in b.branches], b.total)
        return F(b, Atom(z3.simplify(z3.substitute(v.atom.t, *p)), v.atom.view, v.atom.unique),
                 None if v.lo is None else z3.simplify(z3.substitute(v.lo, *p)),
                 None if v.hi is None else z3.simplify(z3.substitute(v.hi, *p)))
    if isinstance(v, SV):
        return wrap(z3.simplify(z3.substitute(v.t, *p)))
    if isinstance(v, SBool):
        return wbool(z3.substitute(v.t, *p))
    if isinstance(v, SInt):
        return wint(z3.substitute(v.t, *p))
    if isinstance(v, SStr):
        return wstr(z3.substitute(v.t, *p))
    if isinstance(v, SBytes):
        return wbytes(z3.substitute(v.t, *p))
    if isinstance(v, SymTuple):
        return SymTuple(subst(v.c, p))
    if isinstance(v, FrozenList):
        return FrozenList(subst(v.c, p))
    if isinstance(v, FrozenDict):
        return FrozenDict(DictC(None if v.c.base is None else z3.substitute(v.c.base, *p), subst(v.c.upd, p)), v.pytype)
    if isinstance(v, Bound):
        return Bound(subst(v.obj, p), v.name)
    if isinstance(v, SymExc):
        return SymExc(z3.substitute(v.t, *p))
    if isinstance(v, (SymList, SymDict)):
        raise Unsupported("mutable value inside a loop summary")
    if hasattr(v, "__dv_subst__"):
        return v.__dv_subst__(p)
    return v


def terms(v, out):
    """collect the z3 terms inside an interpreter value"""
    if isinstance(v, list) or type(v) is tuple:
        for x in v:
            terms(x, out)
    elif isinstance(v, U):
        terms(v.v, out)
    elif isinstance(v, F):
        if v.body is not None:
            for c, ch in v.body.branches:
                out.append(c)
                terms(ch, out)
        out.append(v.atom.t)
        for b in (v.lo, v.hi):
            if b is not None:
                out.append(b)
    elif isinstance(v, (SV, SBool, SInt, SStr, SBytes, SymExc)):
        out.append(v.t)
    elif isinstance(v, (SymTuple, SymList)):
        terms(v.c, out)
    elif isinstance(v, SymDict):
        if v.c.base is not None:
            out.append(v.c.base)
        terms(v.c.upd, out)
    elif isinstance(v, Bound):
        terms(v.obj, out)
    elif hasattr(v, "__dv_terms__"):
        v.__dv_terms__(out)
    return out


def consts(ts):
    """names of uninterpreted constants in z3 terms"""
    seen, out, todo = set(), set(), list(ts)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t)
            todo.extend(t.children())
        elif z3.is_quantifier(t):
            todo.append(t.body())
    return {c.decl().name(): c for c in out}


def freeze(v):
    """an immutable snapshot"""
    if type(v) is tuple:
        return tuple(freeze(x) for x in v)
    if isinstance(v, U):
        return U(freeze(v.v))
    if isinstance(v, list):
        return [freeze(x) for x in v]
    if isinstance(v, F):
        if v.body is None:
            return v
        return F(Body(v.body.x, v.body.ix, [(c, freeze(ch)) for c, ch in v.body.branches], v.body.total), v.atom, v.lo, v.hi)
    if isinstance(v, (FrozenList, FrozenDict)):
        return v
    if isinstance(v, SymDict):
        return FrozenDict(DictC(v.c.base, freeze(v.c.upd)), v.pytype)
    if isinstance(v, SymSet):
        return v
    if isinstance(v, SymList):
        return FrozenList(freeze(v.c))
    return v


def eseq(chunks):
    return concat([echunk(c) for c in chunks])


def echunk(c):
    if isinstance(c, U):
        return unit(embed(c.v))
    lo, hi = c.lo, c.hi
    if c.body is None:
        if lo is None and hi is None:
            return c.atom.t
        r = sqsub(c.atom.t, c.lo_t(), c.hi_t())
        E.fact(z3.Implies(c.lo_t() <= c.hi_t(), slen(r) == c.hi_t() - c.lo_t()))
        E.fact(z3.Implies(c.hi_t() <= c.lo_t(), r == EMPTY))
        return r
    # a flat-map: an uninterpreted function of everything its body captures, named by the body's shape
    x, ix, br = c.body.x, c.body.ix, c.body.branches
    d = E.fm_depth
    E.fm_depth += 1
    try:
        nx, nix = z3.Const(f"$x{d}", Val), z3.Int(f"$i{d}")
        parts = []
        for cond, ch in c.body.at(nx, nix):
            parts.append(z3.If(cond, eseq(ch), z3.Const("$none", Sq)))
    finally:
        E.fm_depth -= 1
    cs = consts(parts)
    free = sorted(n for n in cs if not n.startswith("$"))
    ph = {}
    for n in sorted(free, key=lambda n: min((p.sexpr().find(n) for p in parts if n in p.sexpr()), default=0)):
        ph[n] = z3.Const(f"$c{len(ph)}_{cs[n].sort()}", cs[n].sort())
    sub = [(cs[n], ph[n]) for n in ph]
    outer = [n for n in cs if n.startswith("$x") or n.startswith("$i")]
    outer = [n for n in outer if n not in (f"$x{d}", f"$i{d}") and int(n[2:].split("_")[0] or 0) < d]
    # enclosing bound variables are captured too
    for n in sorted(outer):
        ph[n] = z3.Const(f"$o{len(ph)}_{cs[n].sort()}", cs[n].sort())
    sub = [(cs[n], ph[n]) for n in ph]
    keyparts = [z3.substitute(p, *sub) if sub else p for p in parts]
    key = "|".join(p.sexpr() for p in keyparts)
    if E.fm_depth == d:
        key = key.replace(f"$x{d}", "$X").replace(f"$i{d}", "$I")
    fid = E.fm_ids.setdefault(key, len(E.fm_ids))
    caps = [cs[n] for n in ph]
    f = z3.Function(f"FM{fid}", Sq, I, I, *[k.sort() for k in caps], Sq)
    r = f(c.atom.t, c.lo_t(), c.hi_t(), *caps)
    E.fact(z3.Implies(c.hi_t() <= c.lo_t(), r == EMPTY))
    if one_unit(c):
        E.fact(z3.Implies(c.lo_t() <= c.hi_t(), slen(r) == c.hi_t() - c.lo_t()))
    return E.unify_fm(c, r) if d == 0 else r


def one_unit(c):
    """the chunk has exactly one element per base element"""
    if c.body is None:
        return True
    return all(len(ch) == 1 and isinstance(ch[0], U) for _, ch in c.body.branches) and c.body.total


def list_content(v):
    if isinstance(v, SymList):
        return list(v.c)
    if isinstance(v, SymTuple):
        return list(v.c)
    if isinstance(v, tuple):
        return [U(x) for x in v]
    if isinstance(v, SV):
        if E.valid(Val.is_lst(v.t)):
            return wseq(Val.lv(v.t))
        if E.valid(Val.is_tup(v.t)):
            return wseq(sqvl(Val.tv(v.t)))
    raise Unsupported(f"sequence expected, got {type(v).__name__}")


def seq_len(chunks):
    """length as int or SInt"""
    n, t = 0, None
    for c in chunks:
        if isinstance(c, U):
            n += 1
            continue
        if c.body is None:
            l = c.hi_t() - c.lo_t()
        elif one_unit(c):
            l = c.hi_t() - c.lo_t()
        else:
            l = L(echunk(shape(c)))
            E.fact(L(echunk(c)) == l)
        t = l if t is None else t + l
    if t is None:
        return n
    r = wint(t + n)
    return SLen(r.t, list(chunks)) if isinstance(r, SInt) else r


class SeqBox(Sym):
    pass


class SymTuple(Sym):
    """immutable symbolic sequence"""
    def __init__(self, c):
        self.c = c

    def __iter__(self):
        return dv_iter(self)

    def __len__(self):
        return seq_len_native(self.c)

    def __bool__(self):
        return seq_nonempty(self.c)

    def __getitem__(self, k):
        return seq_getitem(self.c, k, SymTuple)

    def __add__(self, o):
        return SymTuple(self.c + list_content(o))

    def __radd__(self, o):
        return SymTuple(list_content(o) + self.c)

    def __contains__(self, k):
        return bool(contains(self, k))

    def __eq__(self, o):
        return cmp_eq(self, o)

    def __repr__(self):
        return f"SymTuple({self.c})"


def seq_len_native(c):
    n = seq_len(c)
    if isinstance(n, SInt):
        raise Unsupported("native length of a symbolic sequence")
    return n


def seq_nonempty(chunks):
    if any(isinstance(c, U) for c in chunks):
        return True
    chunks = E.simplify_seq([shape(c) for c in chunks])
    if not chunks:
        return False
    if any(isinstance(c, U) for c in chunks):
        return True
    conds = [nonempty_cond(c) for c in chunks]
    r = E.decide(z3.Or(conds))
    if not r:
        for c in chunks:
            E.assume_empty(c)
    elif len(chunks) == 1:
        nonempty_facts(chunks[0])
    return r


def contributes(c, x, ix):
    """z3 formula: the element x at index ix of the base of c contributes something to c"""
    out = []
    for cond, ch in c.at(x, ix):
        if not ch:
            continue
        if any(isinstance(u, U) for u in ch):
            out.append(cond)
        else:
            out.append(z3.And(cond, z3.Or([nonempty_cond(u) for u in ch])))
    return z3.simplify(z3.Or(out)) if out else z3.BoolVal(False)


def nonempty_cond(c):
    if isinstance(c, U):
        return z3.BoolVal(True)
    if one_unit(c):
        return c.lo_t() < c.hi_t()
    a, first, con = nonempty_parts(c)
    return z3.Not(a)


def nonempty_parts(c):
    b = c.body
    d = E.run.ne_depth
    E.run.ne_depth += 1
    try:
        X, IX = z3.Const(f"$nx{d}", Val), z3.Int(f"$ni{d}")
        con = contributes(c, X, IX)
    finally:
        E.run.ne_depth -= 1
    a, first = E.unify_all(E.run, c.atom.t, z3.simplify(c.lo_t()), z3.simplify(c.hi_t()), X, IX, z3.simplify(z3.Not(con)))
    if d == 0:
        E.fact((slen(echunk(shape(c))) > 0) == z3.Not(a))
        E.fact(slen(echunk(shape(c))) >= 0)
    return a, first, (X, IX, con)


def nonempty_facts(c):
    """the chunk is known not to be empty: facts about its first contributing element; returns its index"""
    if one_unit(c):
        E.fact(c.lo_t() < c.hi_t())
        return c.lo_t()
    a, first, (X, IX, con) = nonempty_parts(c)
    at = lambda x, j: z3.simplify(z3.substitute(con, (X, x), (IX, j)))
    E.fact(z3.And(c.lo_t() <= first, first < c.hi_t()))
    x = E.known_element(c.atom.t, first)
    E.fact(at(x, first))
    E.ufact(c.atom, c.lo_t(), first, lambda x, j: z3.simplify(z3.Not(at(x, j))))
    return first


def shape(c):
    """the chunk with every element replaced by None: as long, and empty when it is empty"""
    if isinstance(c, U) or c.body is None:
        return c
    if one_unit(c):
        return F(None, c.atom, c.lo, c.hi)
    groups = []
    for cond, ch in c.body.branches:
        ch = [U(None) if isinstance(u, U) else shape(u) for u in ch]
        if not ch:
            continue
        for g in groups:
            if len(g[1]) == len(ch) and all(isinstance(u, U) for u in g[1] + ch):
                g[0].append(cond)
                break
        else:
            groups.append(([cond], ch))
    return F(Body(c.body.x, c.body.ix, [(z3.simplify(z3.Or(q)), ch) for q, ch in groups], c.body.total and len(groups) == 1
                  and len(c.body.branches) == 1), c.atom, c.lo, c.hi)


def chunk_nonempty(c):
    return nonempty_cond(c)


def seq_getitem(chunks, k, mk):
    if isinstance(k, slice):
        if k.step == -1 and k.start is None and k.stop is None:
            return mk(list(reversed(chunks)) if all(isinstance(c, U) for c in chunks) else reversed_chunks(chunks))
        if k.step is not None and k.step != 1:
            raise Unsupported("slice step")
        if all(isinstance(c, U) for c in chunks) and all(x is None or type(x) is int for x in (k.start, k.stop)):
            return mk(chunks[k])
        lo = 0 if k.start is None else k.start
        if type(lo) is int and lo >= 0 and k.stop is None and all(isinstance(c, U) for c in chunks[:lo]):
            return mk(chunks[lo:])
        if k.start in (None, 0) and k.stop is not None:
            # prefix of length stop >= 0
            n = as_int(k.stop)
            if all(isinstance(c, U) for c in chunks):
                for m in range(len(chunks)):
                    if E.decide(z3.Or(n == m, n == m - len(chunks))):
                        return mk(chunks[:m])
                return mk([] if E.decide(n < 0) else chunks)
        if len(chunks) == 1 and isinstance(chunks[0], F) and one_unit(chunks[0]):
            c = chunks[0]
            n = c.hi_t() - c.lo_t()
            n = n if E.valid(n >= 0) else z3.If(n > 0, n, 0)
            ends = []
            for e, d in ((k.start, z3.IntVal(0)), (k.stop, n)):
                if e is None:
                    ends.append(d)
                    continue
                e = as_int(e)
                if e is None:
                    raise Unsupported("slice bound")
                neg = E.valid(e >= 0) and "no" or E.valid(e < 0) and "yes"
                up = z3.simplify(e) if E.valid(e <= n) else z3.If(e < n, e, n)
                down = n + e if E.valid(n + e >= 0) else z3.If(n + e > 0, n + e, 0)
                ends.append(up if neg == "no" else down if neg == "yes" else z3.If(e >= 0, up, down))
            lo, hi = ends
            if not E.valid(lo <= hi):
                hi = z3.If(lo <= hi, hi, lo)
            return mk([F(c.body, c.atom, z3.simplify(c.lo_t() + lo), c.hi if k.stop is None else z3.simplify(c.lo_t() + hi))])
        raise Unsupported("slice of a symbolic sequence")
    if type(k) is int and k >= 0 and all(isinstance(c, U) for c in chunks[:k + 1]) and len(chunks) > k:
        return chunks[k].v
    if type(k) is int and k < 0 and all(isinstance(c, U) for c in chunks[k:]) and len(chunks) >= -k:
        return chunks[k].v
    if type(k) is int and all(isinstance(c, U) for c in chunks):
        raise IndexError("index out of range")
    if type(k) is int or isinstance(k, SInt) or (isinstance(k, SV) and as_int(k) is not None):
        kt = as_int(k)
        if len(chunks) == 1 and isinstance(chunks[0], F):
            c = chunks[0]
            one = c.body is None or (len(c.body.branches) == 1 and z3.is_true(z3.simplify(c.body.branches[0][0]))
                                     and len(c.body.branches[0][1]) == 1 and isinstance(c.body.branches[0][1][0], U))
            if one:
                span = c.hi_t() - c.lo_t()
                j = z3.simplify(c.lo_t() + z3.If(kt < 0, kt + span, kt)) if type(k) is not int else z3.simplify(c.lo_t() + (kt if k >= 0 else kt + span))
                if not E.decide(z3.And(j >= c.lo_t(), j < c.hi_t())):
                    raise IndexError("index out of range")
                x = E.element(c.atom, j)
                return c.at(x, j)[0][1][0].v
        if 1 < len(chunks) <= 3 and type(k) is not int and all(isinstance(c, U) or c.body is None or (one_unit(c) and len(c.body.branches) == 1) for c in chunks):
            sizes = [z3.IntVal(1) if isinstance(c, U) else z3.simplify(c.hi_t() - c.lo_t()) for c in chunks]
            if E.decide(kt < 0):
                kt = kt + sum(sizes)
                if E.decide(kt < 0):
                    raise IndexError("index out of range")
            before = z3.IntVal(0)
            for c, size in zip(chunks, sizes):
                if E.decide(kt < before + size):
                    if isinstance(c, U):
                        return c.v
                    j = z3.simplify(c.lo_t() + kt - before)
                    x = E.element(c.atom, j)
                    return c.at(x, j)[0][1][0].v
                before = z3.simplify(before + size)
            raise IndexError("index out of range")
        if type(k) is int and k == 0:
            if not seq_nonempty(chunks):
                raise IndexError("index out of range")
            return seq_head(chunks)
        t = eseq(chunks)
        if not E.decide(z3.And(kt < L(t), kt >= -L(t))):
            raise IndexError("index out of range")
        return wrap(elt(t, z3.simplify(z3.If(kt < 0, kt + L(t), kt))))
    raise Unsupported("sequence index")


def seq_head(chunks):
    """first element of a sequence known not to be empty"""
    chunks = E.simplify_seq(chunks)
    while chunks:
        c = chunks[0]
        if isinstance(c, U):
            return c.v
        if len(chunks) > 1 and not E.decide(nonempty_cond(c)):
            E.assume_empty(c)
            chunks = chunks[1:]
            continue
        j = nonempty_facts(c)
        x = E.element(c.atom, j)
        for cond, ch in c.at(x, j):
            if E.decide(cond):
                return seq_head(ch)
        raise PathEnd()
    raise PathEnd()


class Box:
    """mutable container; content is replaced, never mutated, so snapshots are cheap"""
    pass


revf = z3.Function("backwards", Sq, Sq)


def reversed_chunks(chunks):
    """the same elements from last to first; chunks of which every element gives exactly one"""
    out = []
    for c in reversed(chunks):
        if isinstance(c, U):
            out.append(c)
            continue
        if not one_unit(c) or c.atom.view is not None:
            raise Unsupported("reverse of a sequence of this kind")
        n, t = L(c.atom.t), revf(c.atom.t)
        E.fact(slen(t) == n)
        lo, hi = (None if c.hi is None else z3.simplify(n - c.hi)), (None if c.lo is None else z3.simplify(n - c.lo))
        if c.body is None:
            out.append(F(None, Atom(t, None, c.atom.unique), lo, hi))
        else:
            x, ix = E.bound()
            out.append(F(Body(x, ix, c.at(x, z3.simplify(n - 1 - ix)), c.body.total), Atom(t, None, c.atom.unique), lo, hi))
    return out


class SymList(SeqBox, Box):
    pytype = list

    def __init__(self, c=()):
        self.__dict__["_c"] = list(c)
        E.run.newbox(self)

    @property
    def c(self):
        return self._c

    def set(self, c):
        E.run.write(self)
        self.__dict__["_c"] = list(c)

    def append(self, x):
        self.set(self._c + [U(x)])

    def extend(self, it):
        self.set(self._c + listof(it).c)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        return SymList(self._c + list_content(o))

    def __radd__(self, o):
        return SymList(list_content(o) + self._c)

    def __iter__(self):
        return dv_iter(self)

    def __len__(self):
        return seq_len_native(self._c)

    def __bool__(self):
        return seq_nonempty(self._c)

    def __getitem__(self, k):
        return seq_getitem(self._c, k, SymList)

    def __setitem__(self, k, v):
        if isinstance(k, slice) and k.start is None and k.stop is None and k.step is None:
            self.set(listof(v).c)
            return
        n = len(self._c)
        if type(k) is int and all(isinstance(c, U) for c in self._c):
            if not -n <= k < n:
                raise IndexError("list assignment index out of range")
            c = list(self._c)
            c[k] = U(v)
            self.set(c)
            return
        kt = as_int(k)
        if kt is not None and len(self._c) == 1 and isinstance(self._c[0], F) and one_unit(self._c[0]):
            size = z3.simplify(self._c[0].hi_t() - self._c[0].lo_t())
            if not E.decide(z3.And(kt >= -size, kt < size)):
                raise IndexError("list assignment index out of range")
            j = kt if E.decide(kt >= 0) else kt + size
            cut = lambda a, b: seq_getitem(self._c, slice(a, b), list)
            self.set(cut(None, SInt(j)) + [U(v)] + cut(SInt(z3.simplify(j + 1)), None))
            return
        raise Unsupported("item assignment in a symbolic list")

    def __delitem__(self, k):
        if type(k) is int and all(isinstance(c, U) for c in self._c) and -len(self._c) <= k < len(self._c):
            c = list(self._c)
            del c[k]
            self.set(c)
            return
        raise Unsupported("item deletion in a symbolic list")

    def __contains__(self, k):
        return bool(contains(self, k))

    def __eq__(self, o):
        return cmp_eq(self, o)

    def insert(self, k, v):
        if type(k) is int and all(isinstance(c, U) for c in self._c):
            c = list(self._c)
            c.insert(k, U(v))
            return self.set(c)
        if k == 0 and type(k) is int:
            return self.set([U(v)] + self._c)
        raise Unsupported("insert")

    def pop(self, k=-1):
        if type(k) is int and all(isinstance(c, U) for c in self._c):
            c = list(self._c)
            r = c.pop(k).v
            self.set(c)
            return r
        raise Unsupported("pop from a symbolic list")

    def reverse(self):
        if all(isinstance(c, U) for c in self._c):
            return self.set(list(reversed(self._c)))
        return self.set(reversed_chunks(self._c))

    def copy(self):
        return SymList(self._c)

    def clear(self):
        self.set([])

    def __repr__(self):
        return f"SymList({self._c})"


class FrozenList(SymList):
    def __init__(self, c):
        self.__dict__["_c"] = list(c)

    def set(self, c):
        raise Unsupported("mutation of a summarised list")


# ---------------------------------------------------------------- dictionaries
class DictC:
    """base (opaque mapping term or None) with a sequence of (key, value) updates applied in order"""
    __slots__ = ("base", "upd")

    def __init__(self, base=None, upd=()):
        self.base, self.upd = base, list(upd)


def keys_atom(base):
    return Atom(dkeys(base), None, True)


withoutf = z3.Function("without", Val, Val, Val)


class SymDict(Sym, Box):
    pytype = dict

    def __init__(self, *args, **kw):
        self.__dict__["_c"] = DictC()
        E.run.newbox(self)
        if args or kw:
            self._init(args, kw)

    def _init(self, args, kw):
        if len(args) > 1:
            raise TypeError("dict expected at most 1 argument")
        if args:
            self.update(args[0])
        for k, v in kw.items():
            self[k] = v

    @classmethod
    def of(cls, c, pytype=dict):
        d = SymDict()
        d.__dict__["_c"] = c
        d.__dict__["pytype"] = pytype
        return d

    @property
    def c(self):
        return self._c

    def set(self, c):
        E.run.write(self)
        self.__dict__["_c"] = c

    def __setitem__(self, k, v):
        c = self._c
        if c.base is None and all(isinstance(u, U) for u in c.upd):
            upd = list(c.upd)
            for n, u in enumerate(upd):
                if E.decide_eq(u.v[0], k):
                    upd[n] = U((u.v[0], v))
                    break
            else:
                upd.append(U((k, v)))
            self.set(DictC(None, upd))
        else:
            upd = list(c.upd)
            if upd and isinstance(upd[-1], U) and same_syntax(upd[-1].v[0], k):
                upd[-1] = U((upd[-1].v[0], v))
            else:
                upd.append(U((k, v)))
            self.set(DictC(c.base, upd))

    def __getitem__(self, k):
        v = dict_lookup(self._c, k)
        if v is ABSENT:
            miss = getattr(type(self), "__missing__", None)
            if miss is not None:
                return miss(self, k)
            raise KeyError(k)
        return v

    def get(self, k, default=None):
        v = dict_lookup(self._c, k)
        return default if v is ABSENT else v

    def __delitem__(self, k):
        c = self._c
        if c.base is None and all(isinstance(u, U) for u in c.upd):
            for n, u in enumerate(c.upd):
                if E.decide_eq(u.v[0], k):
                    self.set(DictC(None, c.upd[:n] + c.upd[n + 1:]))
                    return
            raise KeyError(k)
        if all(isinstance(u, U) for u in c.upd):
            if dict_lookup(c, k) is ABSENT:
                raise KeyError(k)
            t = withoutf(c.base, embed(k))
            E.fact(dget(t, embed(k)) == Val.absent)
            return self.set(DictC(t, [u for u in c.upd if not E.decide_eq(u.v[0], k)]))
        raise Unsupported("deletion from a symbolic dict")

    def pop(self, k, *default):
        v = dict_lookup(self._c, k)
        if v is ABSENT:
            if default:
                return default[0]
            raise KeyError(k)
        del self[k]
        return v

    def setdefault(self, k, d=None):
        v = dict_lookup(self._c, k)
        if v is ABSENT:
            self[k] = d
            return d
        return v

    def update(self, *o, **kw):
        for x in o:
            self.set(union_c(self._c, dict_content(x)))
        for k, v in kw.items():
            self[k] = v

    def items(self):
        return View(self, 2)

    def keys(self):
        return View(self, 0)

    def values(self):
        return View(self, 1)

    def copy(self):
        return SymDict.of(self._c)

    def clear(self):
        self.set(DictC())

    def __or__(self, o):
        return dict_union(self, o)

    def __ror__(self, o):
        return dict_union(o, self)

    def __ior__(self, o):
        self.update(o)
        return self

    def __iter__(self):
        return dv_iter(self.keys())

    def __contains__(self, k):
        return bool(contains(self, k))

    def __len__(self):
        return seq_len_native(dict_items(self._c))

    def __bool__(self):
        return seq_nonempty(dict_items(self._c))

    def __eq__(self, o):
        return cmp_eq(self, o)

    def __repr__(self):
        return f"SymDict({self._c.base}, {self._c.upd})"


class FrozenDict(SymDict):
    def __init__(self, c, pytype=dict):
        self.__dict__["_c"] = c
        self.__dict__["pytype"] = pytype

    def set(self, c):
        raise Unsupported("mutation of a summarised dict")


class SymDefaultDict(SymDict):
    """collections.defaultdict"""
    pytype = __import__("collections").defaultdict

    def __init__(self, default_factory=None, *a, **k):
        if default_factory is not None and (isinstance(default_factory, Sym) or not callable(default_factory)):
            if isinstance(default_factory, SV):
                raise Unsupported("opaque default factory")
            raise TypeError("first argument must be callable or None")
        SymDict.__init__(self, *a, **k)
        self.default_factory = default_factory

    def __missing__(self, k):
        f = self.__dict__.get("default_factory")
        if f is None:
            raise KeyError(k)
        v = dv_call(f, (), ())
        self[k] = v
        return v


class View(Sym):
    """live dict view"""
    def __init__(self, d, ix):
        self.d, self.ix = d, ix

    @property
    def c(self):
        items = dict_items(dict_content(self.d))
        return items if self.ix == 2 else map_seq(items, lambda p: p[self.ix])

    def __iter__(self):
        return dv_iter(self)

    def __len__(self):
        return seq_len_native(self.c)

    def __bool__(self):
        return seq_nonempty(self.c)

    def __contains__(self, k):
        return bool(contains(self, k))

    def symmetric_difference(self, o):
        return set_op("xor", setof(self), setof(o))

    def __and__(self, o):
        return set_op("and", setof(self), setof(o))

    def __or__(self, o):
        return set_op("or", setof(self), setof(o))

    def __xor__(self, o):
        return set_op("xor", setof(self), setof(o))

    def __sub__(self, o):
        return set_op("sub", setof(self), setof(o))


def map_seq(chunks, f):
    """map a total, decision-free function over a sequence"""
    out = []
    for c in chunks:
        if isinstance(c, U):
            out.append(U(f(c.v)))
        elif c.body is None:
            x, ix = E.bound()
            out.append(F(Body(x, ix, [(z3.BoolVal(True), [U(f(c.atom.element(x)))])]), c.atom, c.lo, c.hi))
            if same_syntax(out[-1].body.branches[0][1][0].v, c.atom.element(x)):
                out[-1] = c
        else:
            br = [(cond, map_seq(ch, f)) for cond, ch in c.body.branches]
            n = F(Body(c.body.x, c.body.ix, br, c.body.total), c.atom, c.lo, c.hi)
            if len(br) == 1 and z3.is_true(z3.simplify(br[0][0])) and len(br[0][1]) == 1 and isinstance(br[0][1][0], U) \
                    and same_syntax(br[0][1][0].v, c.atom.element(c.body.x)):
                n = F(None, c.atom, c.lo, c.hi)
            out.append(n)
    return out


def same_syntax(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (SV, SBool, SInt, SStr, SBytes, SymExc)):
        return z3.eq(a.t, b.t)
    if type(a) is tuple:
        return len(a) == len(b) and all(map(same_syntax, a, b))
    if isinstance(a, (int, str, bytes, type(None))):
        return a == b
    if isinstance(a, U):
        return same_syntax(a.v, b.v)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same_syntax, a, b))
    if isinstance(a, (FrozenList, SymTuple)):
        return same_syntax(a.c, b.c)
    if isinstance(a, FrozenDict):
        return ((a.c.base is None) == (b.c.base is None)) and (a.c.base is None or z3.eq(a.c.base, b.c.base)) and same_syntax(a.c.upd, b.c.upd)
    if isinstance(a, F):
        if not z3.eq(a.atom.t, b.atom.t) or (a.body is None) != (b.body is None):
            return False
        if not z3.eq(z3.simplify(a.lo_t()), z3.simplify(b.lo_t())) or not z3.eq(z3.simplify(a.hi_t()), z3.simplify(b.hi_t())):
            return False
        return a.body is None or z3.eq(echunk(a), echunk(b))
    return False


def dict_content(x):
    if isinstance(x, SymDict):
        return x.c
    if isinstance(x, SV):
        return DictC(x.t)
    if type(x) is dict:
        d = SymDict()
        for k, v in x.items():
            d[k] = v
        return d.c
    if isinstance(x, View):
        pass
    if hasattr(x, "__dv_dict__"):
        return x.__dv_dict__()
    if hasattr(x, "keys") and hasattr(x, "__getitem__"):
        return dictof((k, x[k]) for k in x.keys()).c
    # an iterable of pairs
    return dictof(x).c


def keyeq(a, b):
    """z3 formula for key equality"""
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        return sterm(a) == sterm(b)
    return embed(a) == embed(b)


def scalar_values(u):
    """every value of an update is a plain term"""
    if isinstance(u, U):
        return isinstance(u.v[1], (SV, SInt, SStr, SBool, int, str, type(None)))
    return u.body is not None and all(len(ch) == 1 and isinstance(ch[0], U) and type(ch[0].v) is tuple
                                      and isinstance(ch[0].v[1], (SV, SInt, SStr, SBool, int, str, type(None))) for _, ch in u.body.branches)


def lookup_term(c, kt):
    """(is key kt present, the value at kt) as terms; None if some update has no such form"""
    t = Val.absent if c.base is None else dget(c.base, kt)
    has = z3.simplify(t != Val.absent)
    for u in c.upd:
        if not scalar_values(u):
            return None
        if isinstance(u, U):
            e = keyeq(u.v[0], wrap(kt))
            t, has = z3.If(e, embed(u.v[1]), t), z3.Or(e, has)
            continue
        keys = [ch[0].v[0] for _, ch in u.body.branches]
        if u.atom.view is None and all(isinstance(q, SV) and z3.eq(q.t, u.body.x) for q in keys) \
                and u.body.ix.decl().name() not in consts([q for q, _ in u.body.branches] + terms([ch for _, ch in u.body.branches], [])):
            here, x, ix = E.member(u, kt), kt, z3.IntVal(0)
        elif all(isinstance(q, SInt) and z3.eq(q.t, u.body.ix) for q in keys):
            ix = Val.iv(kt)
            here, x = z3.And(Val.is_i(kt), u.lo_t() <= ix, ix < u.hi_t()), elt(u.atom.t, Val.iv(kt))
        else:
            return None
        v, some = t, []
        for cond, ch in reversed(u.at(x, ix)):
            v = z3.If(cond, embed(ch[0].v[1]), v)
            some.append(cond)
        t, has = z3.If(here, v, t), z3.Or(z3.And(here, z3.Or(some)), has)
    t, has = z3.simplify(t), z3.simplify(has)
    E.fact(has == (t != Val.absent))
    if any(isinstance(u, F) for u in c.upd):
        E.fact(dget(edict(c), kt) == t)
    return has, t


def dict_lookup(c, k):
    if len(c.upd) > 1 and any(isinstance(u, F) for u in c.upd) and isinstance(k, SV) and all(scalar_values(u) for u in c.upd):
        t = lookup_term(c, embed(k))
        if t is not None:
            if not E.decide(t[0]):
                return ABSENT
            return wrap(t[1])
    for n in range(len(c.upd) - 1, -1, -1):
        u = c.upd[n]
        if isinstance(u, U):
            if E.decide_eq(u.v[0], k):
                return u.v[1]
            continue
        r = fm_lookup(u, k)
        if r is NotImplemented:
            # the content so far as one opaque dictionary
            c = DictC(edict(DictC(c.base, c.upd[:n + 1])))
            break
        if r is not ABSENT:
            return r
    if c.base is None:
        return ABSENT
    base = c.base
    while base.decl().eq(withoutf):
        if E.decide(base.arg(1) == embed(k)):
            return ABSENT
        base = base.arg(0)
    t = dget(base, embed(k))
    if not E.decide(t != Val.absent):
        return ABSENT
    return wrap(t)


def fm_lookup(u, k):
    """value paired with key k in a flat-map of pairs (the last such pair)"""
    kt = embed(k)
    b = u.body
    if b is not None and all(len(ch) == 1 and isinstance(ch[0], U) for _, ch in b.branches):
        keys = [ch[0].v[0] for _, ch in b.branches]
        if u.atom.view is None and all(isinstance(q, SV) and z3.eq(q.t, b.x) for q in keys):
            # keyed by the element itself
            if not E.decide(E.member(u, kt)):
                return ABSENT
            j = E.index_of(u, kt)
            for cond, ch in u.at(kt, j):
                if E.decide(cond):
                    return ch[0].v[1]
            return ABSENT
        if all(isinstance(q, SInt) and z3.eq(q.t, b.ix) for q in keys):
            # keyed by the index
            n = as_int(k)
            if n is None:
                if not E.decide(Val.is_i(kt)):
                    return ABSENT
                n = Val.iv(kt)
            if not E.decide(z3.And(n >= u.lo_t(), n < u.hi_t())):
                return ABSENT
            for cond, ch in u.at(E.element(u.atom, n), n):
                if E.decide(cond):
                    return ch[0].v[1]
            return ABSENT
    return NotImplemented


def dict_items(c):
    """the item sequence of a dict content"""
    if c.base is None:
        if not c.upd:
            return []
        if all(isinstance(u, U) for u in c.upd):
            return dedupe(c.upd)
        if len(c.upd) == 1 and unique_keys(c.upd[0]):
            return list(c.upd)
        if E.run.unique_upds is not None and any(E.same_seq(c.upd, q) for q in E.run.unique_upds):
            return list(c.upd)
        t = edict(c)
        return [pairs_of_atom(t)]
    ka = keys_atom(c.base)
    x, ix = E.bound()
    if not c.upd:
        return [F(Body(x, ix, [(z3.BoolVal(True), [U((wrap(x), SV(dget(c.base, x))))])]), ka)]
    if all(isinstance(u, U) for u in c.upd):
        ups = dedupe(c.upd)
        inbase, new = [], []
        for u in ups:
            (inbase if E.decide(dget(c.base, embed(u.v[0])) != Val.absent) else new).append(u)
        br, no = [], []
        for u in inbase:
            e = x == embed(u.v[0])
            br.append((z3.And(no + [e]), [U((wrap(x), freeze(u.v[1])))]))
            no.append(z3.Not(e))
        br.append((z3.And(no) if no else z3.BoolVal(True), [U((wrap(x), SV(dget(c.base, x))))]))
        return [F(Body(x, ix, br), ka)] + new
    # updates of existing keys, in the order of the base
    br, no = [], []
    at = Atom(ka.t, None, True)

    def layer(cond, v):
        br.append((z3.simplify(z3.And(no + [cond])), [U((wrap(x), freeze(v)))]))
    new = []
    for u in reversed(c.upd):
        if isinstance(u, U):
            if not E.valid(dget(c.base, embed(u.v[0])) != Val.absent):
                break
            e = x == embed(u.v[0])
            layer(e, u.v[1])
            no.append(z3.Not(e))
            continue
        b = u.body
        if b is None or not z3.eq(u.atom.t, ka.t) or u.atom.view is not None or not all(
                len(ch) == 1 and isinstance(ch[0], U) and type(ch[0].v) is tuple and isinstance(ch[0].v[0], SV)
                and z3.eq(ch[0].v[0].t, b.x) for _, ch in b.branches):
            break
        rng = []
        if not (E.valid(u.lo_t() <= 0) and E.valid(u.hi_t() >= L(ka.t))):
            rng = [u.lo_t() <= ix, ix < u.hi_t()]
        some = []
        for cond, ch in u.at(x, ix):
            q = z3.And(rng + [cond])
            layer(q, ch[0].v[1])
            some.append(q)
        no += [z3.Not(q) for q in some]
    else:
        rest = z3.simplify(z3.And(no)) if no else z3.BoolVal(True)
        if not z3.is_false(rest):
            br.append((rest, [U((wrap(x), SV(dget(c.base, x))))]))
        return [F(Body(x, ix, br, True), at)]
    return [pairs_of_atom(edict(c))]


def pairs_of_atom(t):
    ka = keys_atom(t)
    x, ix = E.bound()
    return F(Body(x, ix, [(z3.BoolVal(True), [U((wrap(x), SV(dget(t, x))))])]), ka)


def unique_keys(u):
    b = u.body
    if b is None or not all(isinstance(e, U) and isinstance(e.v, tuple) and len(e.v) == 2 for _, ch in b.branches for e in ch):
        return False
    keys = [ch[0].v[0] for _, ch in b.branches if len(ch) == 1]
    if all(len(ch) == 1 for _, ch in b.branches):
        if u.atom.unique and u.atom.view is None and all(isinstance(q, SV) and z3.eq(q.t, b.x) for q in keys):
            return True
        if all(isinstance(q, SInt) and z3.eq(q.t, b.ix) for q in keys):
            return True
    # pairwise: no two pairs, of one element or of two different ones, share a key
    i, j = z3.Int(E.run.fresh("k")), z3.Int(E.run.fresh("k"))
    with E.context([u.lo_t() <= i, i < j, j < u.hi_t()]):
        x, y = E.element(u.atom, i), E.element(u.atom, j)
        if u.atom.unique and u.atom.view is None:
            E.fact(x != y)
        one, two = u.at(x, i), u.at(y, j)
        for c1, ch in one:
            for a in range(len(ch)):
                for k in range(a):
                    if not E.valid(z3.Implies(c1, z3.Not(keyeq(ch[a].v[0], ch[k].v[0])))):
                        return False
            for c2, ch2 in two:
                for e in ch:
                    for f in ch2:
                        if not E.valid(z3.Implies(z3.And(c1, c2), z3.Not(keyeq(e.v[0], f.v[0])))):
                            return False
    return True


def dedupe(upd):
    out = []
    for u in upd:
        for n, o in enumerate(out):
            if E.decide_eq(o.v[0], u.v[0]):
                out[n] = U((o.v[0], u.v[1]))
                break
        else:
            out.append(u)
    return out


def union_c(a, b):
    if a.base is None and not a.upd:
        return DictC(b.base, list(b.upd))
    items = dict_items(b)
    c = DictC(a.base, a.upd + items)
    if c.base is None and all(isinstance(u, U) for u in c.upd):
        c.upd = dedupe(c.upd)
    return c


def dict_union(a, b):
    return SymDict.of(union_c(dict_content(a), dict_content(b)))


def dictof(pairs):
    """dict from an iterable of pairs"""
    d = SymDict()
    if isinstance(pairs, (SymList, SymTuple, View)) and not all(isinstance(u, U) for u in pairs.c):
        d.set(DictC(None, map_seq(pairs.c, as_pair)))
        return d
    for p in dv_iter(pairs):
        k, v = as_pair(p)
        d[k] = v
    return d


def as_pair(p):
    if type(p) is tuple and len(p) == 2:
        return p
    if isinstance(p, SV):
        return (wrap(tupel(p.t, 0)), wrap(tupel(p.t, 1)))
    if isinstance(p, SymList):
        u = p.c
        if len(u) == 2 and all(isinstance(c, U) for c in u):
            return (u[0].v, u[1].v)
    raise Unsupported("pair expected")


# ---------------------------------------------------------------- sets
class SymSet(Sym):
    """immutable use only: a membership predicate, and optionally the elements it came from"""
    pytype = set

    def __init__(self, pred, seq=None):
        self.pred, self.seq = pred, seq

    def __dv_subst__(self, p):
        K0 = z3.Const(E.run.fresh("$set"), Val)
        with E.collect() as facts:
            t = self.pred(K0)
        t = z3.substitute(t, *p)
        facts = [z3.substitute(f, *p) for f in facts]

        def pred(k):
            for f in facts:
                E.fact(z3.substitute(f, (K0, k)))
            return z3.simplify(z3.substitute(t, (K0, k)))
        return SymSet(pred, subst(self.seq, p) if self.seq is not None else None)

    def __dv_terms__(self, out):
        out.append(self.pred(z3.Const("$setkey", Val)))

    def __and__(self, o):
        return set_op("and", self, setof(o))

    def __or__(self, o):
        return set_op("or", self, setof(o))

    def __xor__(self, o):
        return set_op("xor", self, setof(o))

    def __sub__(self, o):
        return set_op("sub", self, setof(o))

    def symmetric_difference(self, o):
        return set_op("xor", self, setof(o))

    def intersection(self, *os):
        r = self
        for o in os:
            r = set_op("and", r, setof(o))
        return r

    def union(self, *os):
        r = self
        for o in os:
            r = set_op("or", r, setof(o))
        return r

    def difference(self, *os):
        r = self
        for o in os:
            r = set_op("sub", r, setof(o))
        return r

    def copy(self):
        return SymSet(self.pred, self.seq)

    def __contains__(self, k):
        return bool(contains(self, k))

    def __iter__(self):
        raise Unsupported("iteration over a set")

    def add(self, x):
        raise Unsupported("set.add")


def set_op(op, a, b):
    f = {"and": lambda x, y: z3.And(x, y), "or": lambda x, y: z3.Or(x, y), "xor": lambda x, y: z3.Xor(x, y),
         "sub": lambda x, y: z3.And(x, z3.Not(y))}[op]
    return SymSet(lambda k: f(a.pred(k), b.pred(k)))


def setof(x):
    if isinstance(x, SymSet):
        return x
    if isinstance(x, (set, frozenset)):
        return SymSet(lambda k: z3.Or([embed(e) == k for e in x]) if x else z3.BoolVal(False))
    c = listof(x).c
    return SymSet(lambda k: seq_mem(c, k), c)


def seq_mem(chunks, kt):
    """z3 formula: kt is an element of the sequence"""
    out = []
    for c in chunks:
        if isinstance(c, U):
            out.append(embed(c.v) == kt)
        elif c.body is None:
            out.append(E.member(c, kt))
        else:
            b = c.body
            if c.atom.view is None and all(len(ch) == 1 and isinstance(ch[0], U) and isinstance(ch[0].v, SV) and z3.eq(ch[0].v.t, b.x)
                                           for _, ch in b.branches) and b.ix.decl().name() not in consts([q for q, _ in b.branches]):
                # a filter
                out.append(z3.And(E.member(c, kt), z3.Or([z3.substitute(q, (b.x, kt)) for q, _ in b.branches])))
            else:
                out.append(memf(echunk(c), kt))
    return z3.Or(out) if out else z3.BoolVal(False)


# ---------------------------------------------------------------- exceptions
class SymExc(BaseException, Sym):
    """an exception raised by opaque code"""
    __hash__ = object.__hash__

    def __init__(self, t):
        BaseException.__init__(self)
        self.t = t

    @property
    def args(self):
        return (SV(self.t),)

    def __eq__(self, o):
        return cmp_eq(self, o)

    def __repr__(self):
        return f"SymExc({self.t})"


# ---------------------------------------------------------------- operations
def notv(v):
    if isinstance(v, SBool):
        return wbool(z3.Not(v.t))
    if isinstance(v, SV):
        return wbool(z3.Not(truth(v.t)))
    return not v


def cmp_eq(a, b):
    """Python ==; opaque values are modelled up to equality"""
    if a is b:
        return True
    if isinstance(a, SymSet) or isinstance(b, SymSet):
        raise Unsupported("set equality")
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        if type(a) is tuple and type(b) is tuple:
            if len(a) != len(b):
                return False
            r = True
            for x, y in zip(a, b):
                e = cmp_eq(x, y)
                if e is False:
                    return False
                if e is not True:
                    r = e if r is True else wbool(z3.And(bool_term(r), bool_term(e)))
            return r
        return a == b
    if isinstance(a, SV) and not isinstance(b, SV):
        a, b = b, a
    ta, tb = embed(a), embed(b)
    if isinstance(b, SV) and isinstance(a, (int, SInt)) and not isinstance(a, bool):
        return wbool(z3.And(Val.is_i(tb), Val.iv(tb) == as_int(a)))
    t = z3.simplify(ta == tb)
    return wbool(t)


same_object = z3.Function("same_object", Val, Val, B)


def is_same(a, b):
    """Python `is`"""
    if a is b:
        return True
    for x, y in ((a, b), (b, a)):
        if x is None or x is True or x is False:
            if isinstance(y, SV):
                return wbool(y.t == embed(x))
            if isinstance(y, SBool) and x is not None:
                return wbool(y.t == z3.BoolVal(x))
            return False
    if isinstance(a, (SymList, SymDict, Box)) or isinstance(b, (SymList, SymDict, Box)):
        if isinstance(a, (SymList, SymDict)) and isinstance(b, (SymList, SymDict)):
            return False
        if not (isinstance(a, SV) or isinstance(b, SV)):
            return False
    if isinstance(a, SV) and isinstance(b, SV):
        if z3.eq(a.t, b.t):
            return True
        # equal values need not be one object; what is one object is left open, so nothing that hinges on it counts as refuted
        E.run.weak = True
        return wbool(z3.And(a.t == b.t, z3.Or(same_object(a.t, b.t), Val.is_none(a.t), Val.is_b(a.t))))
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(a, SV) or isinstance(b, SV):
            return wbool(embed(a) == embed(b))
        raise Unsupported("identity of symbolic values")
    return False


def contains(c, k):
    if isinstance(c, DirOf):
        return wbool(hasattrf(c.v.t, embed(k)))
    if isinstance(c, (SymDict,)):
        v = dict_has(c.c, k)
        return v
    if isinstance(c, View):
        if c.ix == 0:
            return dict_has(dict_content(c.d), k)
        return wbool(seq_mem(c.c, embed(k)))
    if isinstance(c, SymSet):
        return wbool(c.pred(embed(k)))
    if isinstance(c, (SymList, SymTuple)):
        return wbool(seq_mem(c.c, embed(k)))
    if isinstance(c, SV):
        if E.run.containers == "map":
            return wbool(dget(c.t, embed(k)) != Val.absent)
        return wbool(memf(seqof(c.t), embed(k)))
    if isinstance(c, (str, SStr)):
        if isinstance(k, (str, SStr)):
            return wbool(z3.Contains(sterm(c), sterm(k)))
        raise Unsupported("substring test")
    if isinstance(c, tuple):
        r = False
        for x in c:
            e = cmp_eq(x, k)
            if e is True:
                return True
            if isinstance(e, SBool):
                r = e if r is False else wbool(z3.Or(r.t, e.t))
        return r
    if isinstance(k, Sym):
        if isinstance(c, (list, set, frozenset, dict)) or type(c).__name__ in ("dict_keys", "odict_keys"):
            return contains(tuple(c), k)
        if hasattr(type(c), "__contains__") and getattr(type(c), "__dv__", False):
            return k in c
        raise Unsupported(f"membership in {type(c).__name__}")
    if isinstance(c, Sym):
        raise Unsupported(f"membership in {type(c).__name__}")
    return k in c


def dict_has(c, k):
    kt = embed(k)
    out = []
    for u in c.upd:
        if isinstance(u, U):
            out.append(keyeq(u.v[0], k))
        else:
            b = u.body
            if b is not None and all(len(ch) == 1 and isinstance(ch[0], U) for _, ch in b.branches) and u.atom.view is None \
                    and all(isinstance(ch[0].v[0], SV) and z3.eq(ch[0].v[0].t, b.x) for _, ch in b.branches) \
                    and b.ix.decl().name() not in consts([q for q, _ in b.branches]):
                out.append(z3.And(E.member(u, kt), z3.Or([z3.substitute(q, (b.x, kt)) for q, _ in b.branches])))
            else:
                t = lookup_term(c, kt)
                return wbool(dget(edict(c), kt) != Val.absent if t is None else t[0])
    if c.base is not None:
        out.append(dget(c.base, kt) != Val.absent)
    return wbool(z3.Or(out)) if out else False


def getitem(c, k):
    if isinstance(c, SV):
        if type(k) is int and k >= 0 and E.valid(z3.And(Val.is_tup(c.t), tup_longer(c.t, k))):
            return wrap(tupel(c.t, k))
        if (type(k) is int or isinstance(k, (SInt, slice))) and E.valid(Val.is_lst(c.t)):
            return seq_getitem(wseq(Val.lv(c.t)), k, SymList)
        if isinstance(k, slice):
            return seq_getitem([F(None, Atom(seqof(c.t)))], k, SymTuple)
        kt = embed(k)
        t = dget(c.t, kt)
        if type(k) is str and k in E.run.total_items:
            E.fact(t != Val.absent)
            return wrap(t)
        if not E.decide(t != Val.absent):
            # AXIOM getitem: a failed lookup raises KeyError, IndexError or TypeError; KeyError for mappings
            e = excitem(c.t, kt)
            E.fact(z3.Or(exc_isa(e, KeyError), exc_isa(e, IndexError), exc_isa(e, TypeError)))
            raise SymExc(e)
        return wrap(t)
    if isinstance(c, (SymList, SymTuple, SymDict)) or getattr(type(c), "__dv__", False):
        return c[k]
    if isinstance(c, NATIVE_ORDER):
        return c[k]
    if isinstance(k, slice) and isinstance(c, tuple) and any(isinstance(q, Sym) for q in (k.start, k.stop)):
        return tupleof(seq_getitem([U(x) for x in c], k, SymTuple))
    if isinstance(k, Sym):
        if isinstance(c, tuple):
            return tuple_index(c, k)
        if isinstance(c, dict):
            return SymDict.of(dict_content(c))[k]
        raise Unsupported(f"symbolic index into {type(c).__name__}")
    return c[k]


def tuple_index(c, k):
    n = as_int(k)
    if n is None:
        raise Unsupported("index of unknown kind")
    for j, v in enumerate(c):
        if E.decide(z3.Or(n == j, n == j - len(c))):
            return v
    raise IndexError("tuple index out of range")


TYPE_KINDS = [(str, Val.is_s), (bool, Val.is_b), (int, Val.is_i), (tuple, Val.is_tup), (list, Val.is_lst), (bytes, Val.is_by),
              (type(None), Val.is_none)]


def type_test(t, T):
    """isinstance of the Val term t in native type T"""
    # AXIOM isinstance: fixed answers for built-in kinds, uninterpreted but subclass-monotone for opaque objects
    o = isaf(t, embed(T))
    E.subtype_facts(t, T)
    r = z3.If(Val.is_dct(t), z3.BoolVal(issubclass(dict, T)), o)
    for py, test in TYPE_KINDS:
        try:
            sub = issubclass(py, T)
        except TypeError:
            raise Unsupported(f"isinstance with {T}")
        r = z3.If(test(t), z3.BoolVal(sub), r)
    return r


def pytype_of(v):
    if isinstance(v, SymDict):
        return type(v) if getattr(type(v), "__dvclass__", False) else v.pytype
    if isinstance(v, SymList):
        return list
    if isinstance(v, SymTuple):
        return tuple
    if isinstance(v, SStr):
        return str
    if isinstance(v, SInt):
        return int
    if isinstance(v, SBool):
        return bool
    if isinstance(v, SBytes):
        return bytes
    if isinstance(v, SymSet):
        return set
    return None


def flatten_types(T):
    if isinstance(T, tuple):
        return [x for t in T for x in flatten_types(t)]
    if isinstance(T, types.UnionType) or getattr(T, "__origin__", None) is typing.Union:
        return [x for t in T.__args__ for x in flatten_types(t)]
    o = typing.get_origin(T) if not isinstance(T, Sym) else None
    return [o if isinstance(o, type) else T]


def py_isinstance(v, T):
    if isinstance(T, SymTuple):
        T = SV(embed(T))
    ts = flatten_types(T)
    out = []
    for t in ts:
        if isinstance(t, SV):
            out.append(isaf(embed(v), t.t))
            continue
        if isinstance(t, Sym):
            raise Unsupported("isinstance type argument")
        t = NATIVE_TYPE.get(t, t)
        if isinstance(v, SV):
            out.append(type_test(v.t, t))
        elif isinstance(v, SymExc):
            out.append(exc_isa(v.t, t))
        else:
            pt = pytype_of(v)
            if pt is None:
                if isinstance(v, Sym) and not isinstance(v, t):
                    if t in (Sym,):
                        pass
                    hook = getattr(v, "__dv_isa__", None)
                    r = hook(t) if hook else isinstance(v, t)
                else:
                    r = isinstance(v, t)
                    if not r and isinstance(v, Partial) and t is __import__("functools").partial:
                        r = True
            else:
                try:
                    r = issubclass(pt, t)
                    if not r and isinstance(t, type) and getattr(t, "__dvclass__", False) and isinstance(v, t):
                        r = True
                    if not r and getattr(pt, "__dvclass__", False):
                        r = any(issubclass(NATIVE_TYPE.get(b, b), t) for b in pt.__mro__ if b in NATIVE_TYPE)
                except TypeError:
                    raise Unsupported(f"isinstance with {t!r}")
            out.append(z3.BoolVal(bool(r)))
    return wbool(z3.Or(out)) if out else False


NATIVE_TYPE = {}


def exc_isa(t, T):
    """isinstance of an opaque exception"""
    if T in (BaseException, object):
        return z3.BoolVal(True)
    E.exc_facts(t, T)
    k = embed(T)
    E.exc_types[k.get_id()] = (T, k)
    return excf(t, k)


class DirOf(Sym):
    def __init__(self, v):
        self.v = v


class Partial:
    """functools.partial"""
    def __init__(self, func, args, keywords):
        self.func, self.args, self.keywords = func, args, keywords

    def __call__(self, *a, **k):
        return dv_call(self, tuple(a), tuple(k.items()))


class StarMark:
    def __init__(self, v):
        self.v = v


def listof(x):
    if isinstance(x, SymList):
        return SymList(x.c)
    if isinstance(x, (SymTuple, View)):
        return SymList(x.c)
    if isinstance(x, SV) and not E.run.iterables_raise:
        return SymList(iter_content(x))
    out = SymList()
    for e in dv_iter(x):
        out.append(e)
    return out


def tupleof(x):
    c = listof(x).c
    if all(isinstance(u, U) for u in c):
        return tuple(u.v for u in c)
    return SymTuple(c)


def iter_content(x):
    """content of an iterable that is a collection"""
    if isinstance(x, (SymList, SymTuple, View)):
        return x.c
    if isinstance(x, SymDict):
        return x.keys().c
    if isinstance(x, SV):
        t = x.t
        if E.valid(Val.is_lst(t)):
            return wseq(Val.lv(t))
        if E.valid(Val.is_tup(t)):
            return wseq(sqvl(Val.tv(t)))
        if E.run.containers == "map":
            return [F(None, keys_atom(t))]
        return [F(None, Atom(seqof(t)))]
    return None


class PullIter(Sym):
    """iterator over a symbolic sequence"""
    def __init__(self, chunks):
        self.rest, self.base, self.inner = list(chunks), None, None
        E.run.iters.append(self)

    def dv_pos(self):
        """(what is left apart from the position in the current chunk, that position)"""
        b = self.base
        if b is not None and b.state == "done":
            b = None
        if self.inner is not None:
            return ("inner", id(self.inner), len(self.rest), id(self.base)), None
        if b is not None:
            return ("chunk", len(self.rest)), (b.lo if b.state == "new" else z3.simplify(b.j + 1))
        if self.rest and isinstance(self.rest[0], F):
            return ("chunk", len(self.rest) - 1), z3.simplify(self.rest[0].lo_t())
        return ("unit", len(self.rest)), None

    def dv_seek(self, t):
        if self.base is None or self.base.state == "done":
            self.base = BasePull(self.rest.pop(0))
        self.base.lo, self.base.state = t, "new"

    def __iter__(self):
        return self

    def __next__(self):
        while True:
            if self.inner is not None:
                try:
                    return next(self.inner)
                except StopIteration:
                    self.inner = None
            if self.base is None:
                if not self.rest:
                    raise StopIteration
                c = self.rest.pop(0)
                if isinstance(c, U):
                    return c.v
                self.base = BasePull(c)
            r = self.base.pull()
            if r is None:
                self.base = None
                continue
            x, j = r
            for cond, ch in self.base.c.at(x, j):
                if E.decide(cond):
                    if len(ch) == 1 and isinstance(ch[0], U):
                        return ch[0].v
                    self.inner = PullIter(ch)
                    break

    def remaining(self):
        if self.inner is not None:
            raise Unsupported("position inside a symbolic sequence")
        b = self.base
        here = []
        if b is not None and b.state in ("new", "generic"):
            here = [F(b.c.body, b.c.atom, b.lo if b.state == "new" else z3.simplify(b.j + 1), b.hi)]
        return here + self.rest

    def copy(self):
        return PullIter(self.remaining())


class EndlessPull(PullIter):
    """a for loop over an unbounded count: a search that is taken to end (termination is not shown here)"""
    def __init__(self, count):
        n0 = z3.IntVal(0) if count is None else as_int(count.n)
        x, ix = E.bound()
        c = F(Body(x, ix, [(z3.BoolVal(True), [U(wint(ix + n0))])], True), Atom(z3.Const("naturals", Sq), None, True), z3.IntVal(0), z3.Int("endless"))
        PullIter.__init__(self, [c])
        self.base = BasePull(self.rest.pop())
        self.base.endless = True
        self.count = count

    def __next__(self):
        v = PullIter.__next__(self)
        if self.count is not None:
            self.count.__dict__["n"] = v + 1
        return v


class WhileIter(Sym):
    """a while loop: run as it is while its condition is decided, and as a search for the iteration that ends it otherwise"""
    def __init__(self):
        self.pull, self.ready = None, False

    def __iter__(self):
        return self

    def note(self, c):
        known = not isinstance(c, (Sym, Poison)) or E is None or E.run is None
        if not known:
            t = bool_term(c)
            known = E.valid(t) or E.valid(z3.Not(t))
        if known:
            self.ready = True
        else:
            self.pull = EndlessPull(None)

    def __next__(self):
        if self.pull is not None:
            next(self.pull)
            return False
        if self.ready:
            self.ready = False
            return False
        return True


def while_iter():
    if E is not None and E.run is not None and E.run.shared is not None:
        from . import locks
        return locks.while_iter()
    return WhileIter()


class ListIter(Sym):
    """live iteration over a list of known length"""
    def __init__(self, box):
        self.box, self.n = box, 0
        E.run.iters.append(self)

    def dv_pos(self):
        return ("n", self.n), None

    def __iter__(self):
        return self

    def __next__(self):
        c = self.box.c
        if self.n >= len(c):
            raise StopIteration
        if not isinstance(c[self.n], U):
            raise Unsupported("list changed during iteration")
        self.n += 1
        return c[self.n - 1].v


NATIVE_ORDER = ()


class CutIter:
    """a loop over a long sequence of known elements, cut: one arbitrary iteration is run, with every variable that an earlier iteration may
    have assigned unusable; an iteration that does not leave the loop must have changed nothing else"""
    def __init__(self, items, names):
        self.items, self.names, self.slots = items, names, None

    def __iter__(self):
        return self

    def snapshot(self, frame):
        from . import engine
        frames = []
        f = frame
        while f is not None and f.f_globals.get("__dv_mod__"):
            frames.append(f)
            f = f.f_back
            while f is not None and not f.f_globals.get("__dv_mod__") and "pydv" in f.f_code.co_filename and f.f_code.co_name in ("apply", "call_fn", "dv_call", "instantiate"):
                f = f.f_back
        return engine.Slots(E.run, frames), [(b, b.version) for b in getattr(E.run, "buffers", ())]

    def __next__(self):
        from . import engine
        frame = sys._getframe(1)
        if self.slots is None:
            self.slots = self.snapshot(frame)
            k = 0
            while k < len(self.items) and not E.decide(z3.Bool(E.run.fresh("iteration"))):
                k += 1
            if k:
                for n in self.names:
                    frame.f_locals[n] = Poison(n)
                    ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(frame), ctypes.c_int(0))
            if k == len(self.items):
                E.run.cut_through = True
                raise StopIteration
            return self.items[k]
        before, bufs = self.slots
        after, _ = self.snapshot(frame)
        for sid, v in before.v.items():
            if sid[0] == "var" and sid[1] == 0 and sid[2] in self.names:
                continue
            if sid not in after.v or not engine.unchanged(v, after.v[sid]):
                raise Unsupported(f"a cut loop changes {sid}")
        if any(b.version != n for b, n in bufs):
            raise Unsupported("a cut loop changes an array")
        raise PathEnd()


def known_items(x):
    """the elements of a sequence given literally"""
    if isinstance(x, (tuple, range, itertools.product)):
        return list(x)
    if isinstance(x, (SymList, SymTuple)) and all(isinstance(u, U) for u in x.c):
        return [u.v for u in x.c]
    return None


def dv_iter(x, names=()):
    if hasattr(x, "__dv_loop__"):
        return x.__dv_loop__(names)
    if names and E is not None and E.run is not None and getattr(E.run, "cut", None):
        items = known_items(x)
        if items is not None:
            return CutIter(items, names) if len(items) >= E.run.cut else iter(items)
    if isinstance(x, SymList) and all(isinstance(u, U) for u in x.c):
        return ListIter(x)
    if isinstance(x, (SymList, SymTuple, View, SymDict)):
        return PullIter(iter_content(x))
    if isinstance(x, SV):
        h = E.run.iter_hook
        if h is not None:
            r = h(x)
            if r is not NotImplemented:
                return r
        return PullIter(iter_content(x))
    if isinstance(x, SymSet):
        raise Unsupported("iteration over a set")
    if isinstance(x, (SStr, SBytes, SInt, SBool, Bound)):
        raise Unsupported(f"iteration over {type(x).__name__}")
    if isinstance(x, Poison):
        x._bad()
    return iter(x)


