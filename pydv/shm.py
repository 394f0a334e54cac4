"""Assumed contract of the operating system's named shared memory blocks (multiprocessing.shared_memory.SharedMemory on Linux), of
sha256 as a name, and of int.to_bytes / int.from_bytes.

The memory is a map from names to byte strings, followed by the writes of this execution.  Creating a block that exists, or attaching to one
that does not, raises; a new block has the size asked for; a block's buffer accepts only data of its own size.  Names are compared
structurally: str(i) is injective on integers, hexdigest is injective (sha256 collisions are assumed away)."""
import builtins, hashlib
from multiprocessing.shared_memory import SharedMemory
import z3
from . import core, models
from .core import *
from .models import model

mem_has = z3.Function("mem_has", S, B)
mem_at = z3.Function("mem_at", S, S)
hexf = z3.Function("hexdigest", S, S)
tbf = z3.Function("to_bytes", I, I, S)
fbf = z3.Function("from_bytes", S, I)
zerosf = z3.Function("zeros", I, S)


# ---- names
def flat(t):
    t = z3.simplify(t)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [p for c in t.children() for p in flat(c)]
    if z3.is_string_value(t):
        s = pystr(t)
        return [s] if s else []
    return [t]


def join(parts):
    ts = [zstr(p) if isinstance(p, str) else p for p in parts]
    return z3.StringVal("") if not ts else ts[0] if len(ts) == 1 else z3.Concat(*ts)


def fn_arg(p, name):
    return p.arg(0) if not isinstance(p, str) and z3.is_app(p) and p.num_args() == 1 and p.decl().name() == name else None


def int_part(p):
    """n if p is str(n) of an integer"""
    v = fn_arg(p, "str")
    return v.arg(0) if v is not None and z3.is_app(v) and v.num_args() == 1 and v.decl().name() == "i" else None


def name_eq(a, b):
    xs, ys = flat(a), flat(b)

    def strip(xs, ys, end):
        while xs and ys:
            p, q = xs[end], ys[end]
            if isinstance(p, str) and isinstance(q, str):
                n = 0
                while n < min(len(p), len(q)) and (p[n] == q[n] if end == 0 else p[-1 - n] == q[-1 - n]):
                    n += 1
                if n < min(len(p), len(q)):
                    return False
                for l, s in ((xs, p), (ys, q)):
                    l[end] = s[n:] if end == 0 else s[:len(s) - n]
                    if not l[end]:
                        l.pop(end)
            elif not isinstance(p, str) and not isinstance(q, str) and z3.eq(p, q):
                xs.pop(end), ys.pop(end)
            else:
                break
        return True
    if not strip(xs, ys, 0) or not strip(xs, ys, -1):
        return z3.BoolVal(False)
    if not xs or not ys:
        rest = xs or ys
        if not rest:
            return z3.BoolVal(True)
        if any(isinstance(p, str) or int_part(p) is not None or fn_arg(p, "hexdigest") is not None for p in rest):
            return z3.BoolVal(False)
        return z3.And([p == z3.StringVal("") for p in rest])
    if len(xs) == 1 and len(ys) == 1:
        i, j = int_part(xs[0]), int_part(ys[0])
        if i is not None and j is not None:
            return i == j
        for n, s in ((i, ys[0]), (j, xs[0])):
            if n is not None and isinstance(s, str):
                try:
                    return n == int(s) if str(int(s)) == s else z3.BoolVal(False)
                except ValueError:
                    return z3.BoolVal(False)
        h, k = fn_arg(xs[0], "hexdigest"), fn_arg(ys[0], "hexdigest")
        if h is not None and k is not None:
            u, v = fn_arg(h, "utf8"), fn_arg(k, "utf8")
            return u == v if u is not None and v is not None else h == k
    # a decimal numeral or a digest never contains anything but digits, a sign and a-f
    for ps, qs in ((xs, ys), (ys, xs)):
        if len(ps) == 1 and (int_part(ps[0]) is not None or fn_arg(ps[0], "hexdigest") is not None) \
                and any(isinstance(q, str) and any(c not in "0123456789abcdef-" for c in q) for q in qs):
            return z3.BoolVal(False)
    for ps, qs in ((xs, ys), (ys, xs)):
        if len(ps) == 1 and not isinstance(ps[0], str) and isinstance(qs[0], str) and not_a_prefix(qs[0], ps[0]):
            return z3.BoolVal(False)
    out = join(xs) == join(ys)
    for ps, qs in ((xs, ys), (ys, xs)):
        if len(ps) == 1 and not isinstance(ps[0], str) and isinstance(qs[0], str):
            out = z3.And(out, z3.PrefixOf(zstr(qs[0]), ps[0]))
    return out


def not_a_prefix(text, var):
    """the path says that var does not begin with some beginning of the text"""
    for lit in core.E.run.pc:
        if z3.is_not(lit) and z3.is_app(lit.arg(0)) and lit.arg(0).decl().kind() == z3.Z3_OP_SEQ_PREFIX \
                and z3.is_string_value(lit.arg(0).arg(0)) and z3.eq(lit.arg(0).arg(1), var) and text.startswith(pystr(lit.arg(0).arg(0))):
            return True
    return False


# ---- memory
class Mem:
    def __init__(self):
        self.base, self.log = None, []


def mem():
    run = core.E.run
    m = run.mem
    if m is None:
        m = run.mem = Mem()
    return m


def look(a, upto=None):
    """(is there a block, its content) now"""
    m = mem()
    has, at = m.base(a) if m.base is not None else (None, None)
    if has is None:
        has, at = mem_has(z3.simplify(a)), mem_at(z3.simplify(a))
    for b, p, c in m.log[:upto]:
        eq = z3.simplify(name_eq(a, b))
        if z3.is_false(eq):
            continue
        if z3.is_true(eq):
            has, at = z3.BoolVal(p), c if p else at
            continue
        has = z3.If(eq, z3.BoolVal(p), has)
        if p:
            at = z3.If(eq, c, at)
    return z3.simplify(has), z3.simplify(at)


def wrote(a, present, content):
    mem().log.append((z3.simplify(a), present, content))


def name_term(name):
    if not isinstance(name, (str, SStr)) and not (isinstance(name, SV) and core.E.valid(Val.is_s(name.t))):
        raise Unsupported(f"name of a shared memory block {str(type(name))} {name}"[:300])
    return sterm(name)


class StandBlock:
    """an attached block; valid as long as its name has not been unlinked since"""
    def __init__(self, a, opened):
        self.a, self.opened, self.closed = a, opened, False

    @property
    def name(self):
        return wstr(self.a)

    @property
    def size(self):
        return wint(z3.Length(self.content()))

    @property
    def buf(self):
        return StandBuf(self)

    def content(self):
        if self.closed:
            raise Unsupported("use of a closed block")
        for k, (b, p, c) in enumerate(mem().log[self.opened:]):
            if not p and core.E.decide(name_eq(self.a, b)):
                return look(self.a, self.opened + k)[1]
        return look(self.a)[1]

    def write(self, data):
        old = self.content()
        if not core.E.decide(z3.Length(old) == z3.Length(data)):
            raise ValueError("memoryview assignment: lvalue and rvalue have different structures")
        for b, p, c in mem().log[self.opened:]:
            if not p and core.E.decide(name_eq(self.a, b)):
                raise Unsupported("a block written after its name was unlinked")
        wrote(self.a, True, data)

    def unlink(self):
        if not core.E.decide(look(self.a)[0]):
            raise FileNotFoundError(2, "No such file or directory")
        wrote(self.a, False, None)

    def close(self):
        self.closed = True


class StandBuf:
    def __init__(self, block):
        self.block = block

    def tobytes(self, order=None):
        return wbytes(self.block.content())

    def __setitem__(self, k, data):
        if isinstance(data, (StandBuf, BufPart)):
            data = data.tobytes()
        if not isinstance(k, slice):
            raise Unsupported("one byte of a shared memory block written")
        data = byterm(data)
        if not (k.start is None and k.stop is None and k.step is None):
            old = self.block.content()
            lo, hi = slice_bounds(z3.Length(old), k)
            if not core.E.decide(hi - lo == z3.Length(data)):
                raise ValueError("memoryview assignment: lvalue and rvalue have different structures")
            if not core.E.valid(z3.And(lo == 0, hi == z3.Length(old))):
                data = z3.Concat(z3.SubString(old, z3.IntVal(0), lo), data, z3.SubString(old, hi, z3.Length(old) - hi))
        self.block.write(data)

    def __getitem__(self, k):
        if not isinstance(k, slice):
            raise Unsupported("one byte of a shared memory block")
        return BufPart(self.tobytes()[k])

    def __len__(self):
        raise Unsupported("len of a buffer")

    nbytes = property(lambda self: wint(z3.Length(self.block.content())))

    def release(self):
        pass


class BufPart:
    """part of a buffer; a view, but nothing is written to a block between taking and copying it"""
    def __init__(self, data):
        self.data, self.n = data, len(mem().log)

    def tobytes(self, order=None):
        if len(mem().log) != self.n:
            raise Unsupported("a view of part of a block, read after a block was written")
        return self.data


def m_bytes(*a):
    if len(a) == 1 and hasattr(type(a[0]), "tobytes"):
        return a[0].tobytes()
    if len(a) == 1 and isinstance(a[0], (SBytes, bytes)):
        return a[0]
    if len(a) == 2 and isinstance(a[0], SStr):
        return a[0].encode(*a[1:])
    if any(models.has_sym(x) for x in a):
        raise Unsupported("bytes()")
    return bytes(*a)


model(builtins.bytes)(m_bytes)


model(StandBuf)(StandBuf)


def refuse_name(a):
    """from here on the system refuses this name for a block (too long, or with a slash), holding none of that name"""
    core.E.run.refused_name = name_term(a)


def refused(a):
    r = getattr(core.E.run, "refused_name", None)
    if r is not None and core.E.decide(name_eq(a, r)):
        raise OSError(22, "Invalid argument")


@model(SharedMemory)
def m_shared(name=None, create=False, size=0, track=True):
    a = name_term(name)
    e = core.E
    if create is True:
        n = as_int(size)
        if n is None:
            raise Unsupported("size of a shared memory block")
        if e.decide(n <= 0):
            raise ValueError("'size' must be a positive number different from zero")
        refused(a)
        if e.decide(look(a)[0]):
            raise FileExistsError(17, "File exists")
        z = zerosf(n)
        e.fact(z3.Length(z) == n)
        e.fact(fbf(z) == 0)
        wrote(a, True, z)
    elif create is False:
        refused(a)
        if not e.decide(look(a)[0]):
            raise FileNotFoundError(2, "No such file or directory")
    else:
        raise Unsupported("create flag")
    return StandBlock(a, len(mem().log))


# ---- digests
class Digest:
    def __init__(self, t):
        self.t = t

    def hexdigest(self):
        return SStr(hexf(self.t))


@model(hashlib.sha256)
def m_sha256(data=b"", *, usedforsecurity=True):
    return Digest(byterm(data))


# ---- integers as bytes
def int_bytes(n, width):
    t = z3.simplify(tbf(z3.IntVal(width), n))
    core.E.fact(z3.Length(t) == width)
    core.E.fact(fbf(t) == n)
    return t


def m_to_bytes(n, length=1, byteorder="big", *, signed=False):
    if signed is not False or not isinstance(length, int) or byteorder != "little":
        raise Unsupported("to_bytes")
    t = as_int(n)
    if core.E.decide(z3.Or(t < 0, t >= z3.IntVal(256 ** length))):
        raise OverflowError("int too big to convert")
    return SBytes(int_bytes(t, length))


MODELS_INT["to_bytes"] = m_to_bytes


def m_from_bytes(data, byteorder="big", *, signed=False):
    if not has_bytes(data):
        return int.from_bytes(data, byteorder, signed=signed)
    if signed is not False or byteorder != "little":
        raise Unsupported("from_bytes")
    t = z3.simplify(byterm(data))
    if z3.is_app(t) and t.decl().name() == "to_bytes":
        return wint(t.arg(1))
    core.E.fact(fbf(t) >= 0)
    return wint(fbf(t))


def has_bytes(v):
    return isinstance(v, (SBytes, SV))


models.NATIVE_METHODS[(int, "from_bytes")] = m_from_bytes


# ---- what contracts use
def block(address):
    """the content of the block at an address; None if there is none"""
    has, at = look(name_term(address))
    return wbytes(at) if core.E.decide(has) else None


def block_is(address, cond, content):
    """there is a block at the address exactly if cond, and then it holds content"""
    has, at = look(name_term(address))
    c = bool_term(cond)
    same = z3.Implies(c, at == byterm(content)) if content is not None else z3.BoolVal(True)
    return wbool(z3.And(has == c, same))


def untouched(address):
    """no write of this execution reached the block at the address"""
    a = name_term(address)
    return wbool(z3.And([z3.Not(name_eq(a, b)) for b, p, c in mem().log] or [z3.BoolVal(True)]))


def only_wrote(*forms):
    """every write of this execution went to one of these names; a form is a name, or a function from any integer or any text to names"""
    ms = []
    for f in forms:
        if isinstance(f, (str, SStr)):
            ms.append(lambda a, t=z3.simplify(sterm(f)): z3.eq(a, t))
        else:
            sort = S if f[1] is str else I
            m = template(f[0], sort)
            ms.append(lambda a, m=m: m(a) is not None)
    return all(any(m(b) for m in ms) for b, p, c in mem().log)


def memory(base):
    """the memory at the start: base(name) gives (is there a block, its content), (None, None) for unspecified"""
    core.E.run.mem = m = Mem()
    m.base = base


def template(address_of, sort=I):
    """matches the names address_of gives: the argument, or None"""
    hole = z3.Const("!hole", sort)
    t = flat(sterm(address_of(SInt(hole) if sort is I else SStr(hole))))

    def match(a):
        ps = flat(a)
        if len(ps) != len(t):
            return None
        found = None
        for p, q in zip(ps, t):
            if isinstance(q, str) or not in_term(q, hole):
                if isinstance(p, str) != isinstance(q, str) or (p != q if isinstance(p, str) else not z3.eq(p, q)):
                    return None
                continue
            got = unify(q, p, hole)
            if got is None or found is not None and not z3.eq(found, got):
                return None
            found = got
        return found
    return match


def in_term(t, c):
    return z3.eq(t, c) or any(in_term(k, c) for k in t.children())


def unify(pat, t, hole):
    if z3.eq(pat, hole):
        return t
    if isinstance(t, str):
        if pat.decl().name() == "str" and int_part(pat) is not None and t.lstrip("-").isdigit() and str(int(t)) == t:
            return z3.IntVal(int(t))
        return None
    if pat.num_args() != t.num_args() or pat.decl().name() != t.decl().name():
        return None
    for p, q in zip(pat.children(), t.children()):
        if in_term(p, hole):
            r = unify(p, q, hole)
            if r is None:
                return None
            return r
        if not z3.eq(p, q):
            return None
    return None


def fn(name, *sorts):
    return z3.Function(name, *sorts)


# ---- serialisers, as inverse pairs on the values they accept
import ast, builtins, json, pickle
from . import standins
jsonf, jsonv = z3.Function("json_str", Val, S), z3.Function("json_loads", S, Val)
reprf, litv = z3.Function("repr", Val, S), z3.Function("literal_eval", S, Val)
picklef, picklev = z3.Function("pickled", Val, S), z3.Function("unpickled", S, Val)


def inverse(f, g, v):
    t = z3.simplify(embed(core.freeze(v)))
    r = f(t)
    core.E.fact(g(r) == t)
    core.E.fact(r != z3.StringVal(""))
    return r


def dict_back(t):
    """the dict a term spells out entry by entry"""
    if not (z3.is_app(t) and t.decl().name() == "dct" and z3.eq(t.arg(0), Val.none)):
        return wrap(t)
    out, todo = [], [t.arg(1)]
    while todo:
        s = todo.pop(0)
        n = s.decl().name()
        if n == "sqcat":
            todo[:0] = s.children()
        elif n == "squnit" and s.arg(0).decl().name() == "tup":
            kv = s.arg(0).arg(0)
            out.append(U((wrap(kv.arg(0)), wrap(kv.arg(1).arg(0)))))
        elif n != "sqnil":
            return wrap(t)
    return SymDict.of(DictC(None, out))


def back(g, t):
    t = z3.simplify(t)
    for f, h in ((jsonf, jsonv), (reprf, litv), (picklef, picklev)):
        if g is h and z3.is_app(t) and z3.eq(t.decl(), f) :
            return dict_back(t.arg(0))
    core.E.fact(g(t) != Val.absent)
    return wrap(z3.simplify(g(t)))


def text_of(blob):
    if isinstance(blob, SBytes):
        return unutf8(blob.t)
    return sterm(blob)


def serialisers():
    """from here on json, repr/literal_eval and pickle are inverse pairs giving strings and bytes, on every value"""
    core.E.run.inverse_pairs = True


def values_may_fail_to_encode():
    core.E.run.encoding_fails = True


def pickling_fails(v):
    return core.SBool(z3.Function("pickle_fails", Val, z3.BoolSort())(embed(core.freeze(v))))


def on():
    return getattr(core.E.run, "inverse_pairs", False)


def old(f):
    return models.MODELS.get(id(f))


def paired(f, new):
    was = old(f)

    def g(*a, **k):
        if core.E.run is not None and on():
            return new(*a, **k)
        if was is None:
            if models.has_sym(a) or models.has_sym(k):
                raise Unsupported(f"unmodelled {f!r}")
            return f(*a, **k)
        return was(*a, **k)
    model(f)(g)


def options(k, allowed):
    if set(k) - set(allowed):
        raise Unsupported("option of a serialiser")


def m_json_dumps(v, **k):
    options(k, ("indent", "sort_keys", "separators", "ensure_ascii"))
    return SStr(inverse(jsonf, jsonv, jsoned(v)))


def m_json_loads(blob, **k):
    options(k, ())
    return back(jsonv, text_of(blob))


def m_repr_(v):
    return SStr(inverse(reprf, litv, v)) if models.has_sym(v) else repr(v)


def m_literal(blob):
    return back(litv, text_of(blob)) if models.has_sym(blob) else ast.literal_eval(blob)


def m_pickle_dumps(v, protocol=None, **k):
    options(k, ())
    if getattr(core.E.run, "encoding_fails", False):
        t = embed(core.freeze(v))
        if core.E.decide(z3.Function("pickle_fails", Val, z3.BoolSort())(t)):
            raise core.SymExc(z3.Function("pickle_failure", Val, Val)(t))
    return SBytes(inverse(picklef, picklev, v))


def m_pickle_loads(blob, **k):
    options(k, ())
    return back(picklev, byterm(blob))


paired(json.dumps, m_json_dumps)
paired(json.loads, m_json_loads)
paired(builtins.repr, m_repr_)
paired(ast.literal_eval, m_literal)
paired(pickle.dumps, m_pickle_dumps)
paired(pickle.loads, m_pickle_loads)


# ---- numpy arrays over shared memory
nbytesf = z3.Function("array_bytes", Sq, S, I)


def numpy_module():
    import numpy
    return numpy


class SymDtype:
    def __init__(self, t):
        self.t = t

    @property
    def str(self):
        return wstr(self.t)

    def __eq__(self, o):
        return wbool(self.t == dtype_term(o))

    __hash__ = None


def dtype_term(d):
    if isinstance(d, SymDtype):
        return d.t
    return sterm(d)


class SymArray:
    """an array is its shape, its dtype and its elements' bytes in C order"""
    def __init__(self, shape, dtype, raw, size=None, itemsize=None):
        self.shape, self.dtype, self.raw = shape, SymDtype(dtype), raw
        self.size, self.itemsize = size, itemsize

    def copy(self, order="C"):
        return SymArray(self.shape, self.dtype.t, self.raw, self.size, self.itemsize)

    nbytes = property(lambda self: wint(nbytes_of(self.shape, self.dtype.t)))


def nbytes_of(shape, dtype):
    t = z3.simplify(nbytesf(eseq(shape.c), dtype))
    core.E.fact(t > 0)
    return t


class ArrayView:
    def __init__(self, shape, dtype, buf):
        self.shape, self.dtype, self.buf = shape, SymDtype(dtype), buf
        self.n = nbytes_of(shape, dtype)
        if core.E.decide(z3.Length(buf.block.content()) < self.n):
            raise TypeError("buffer is too small for requested array")

    def whole(self):
        return core.E.valid(z3.Length(self.buf.block.content()) == self.n)

    def bytes_(self):
        c = self.buf.block.content()
        return c if self.whole() else z3.SubString(c, z3.IntVal(0), self.n)

    def copy(self, order="C"):
        return SymArray(self.shape, self.dtype.t, self.bytes_())

    @property
    def raw(self):
        return self.bytes_()

    def __setitem__(self, k, a):
        if k is not Ellipsis or not isinstance(a, (SymArray, ArrayView)):
            raise Unsupported("array assignment")
        if not (core.E.valid(embed(self.shape) == embed(a.shape)) and core.E.valid(self.dtype.t == a.dtype.t)):
            raise Unsupported("array assignment with conversion")
        c = self.buf.block.content()
        self.buf.block.write(a.raw if self.whole() else z3.Concat(a.raw, z3.SubString(c, self.n, z3.Length(c) - self.n)))


class Count(SInt):
    """the size or item size of an array: their product is its number of bytes"""
    def __init__(self, t, n):
        SInt.__init__(self, t)
        self.n = n

    def __mul__(self, o):
        if isinstance(o, Count) and z3.eq(o.n, self.n) and not z3.eq(o.t, self.t):
            return wint(self.n)
        return SInt.__mul__(self, o)


def array(name):
    """an arbitrary non-empty array of a plain dtype"""
    shape, d = SymTuple([F(None, Atom(z3.Const(name + "_shape", Sq)))]), z3.Const(name + "_dtype", S)
    n = nbytes_of(shape, d)
    size, item, raw = Count(z3.Int(name + "_size"), n), Count(z3.Int(name + "_itemsize"), n), z3.Const(name + "_elements", S)
    core.E.fact(z3.And(size.t > 0, item.t > 0, z3.Length(raw) == n))
    return SymArray(shape, d, raw, size, item)


def ndarray(shape, dtype=float, buffer=None, **k):
    if k or not isinstance(buffer, StandBuf):
        raise Unsupported("np.ndarray")
    if isinstance(shape, (SymList, list)):
        shape = SymTuple(list(listof(shape).c))
    if isinstance(shape, SV) and core.E.valid(z3.Or(Val.is_lst(shape.t), Val.is_tup(shape.t))):
        shape = SymTuple(list(core.iter_content(shape)))
    if not isinstance(shape, SymTuple):
        raise Unsupported(f"shape {shape!r:.200}")
    return ArrayView(shape, dtype_term(dtype), buffer)


def m_copyto(dst, src, **k):
    if k or not isinstance(dst, (SymArray, ArrayView)):
        raise Unsupported("np.copyto")
    dst[...] = src


model(numpy_module().ndarray)(ndarray)
if hasattr(numpy_module(), "copyto"):
    model(numpy_module().copyto)(m_copyto)


def jsoned(v):
    """tuples come back as lists"""
    if isinstance(v, (SymDict, dict)):
        c = dict_content(v)
        return SymDict.of(DictC(c.base, [U((u.v[0], jsoned(u.v[1]))) if isinstance(u, U) else u for u in c.upd]))
    if isinstance(v, (SymTuple, tuple)):
        return SymList(list(tupled(v)))
    return v


def tupled(v):
    return [U(x) for x in v] if isinstance(v, tuple) and not isinstance(v, SymTuple) else v.c


def between(i, lo, hi):
    """lo <= i < hi, undecided"""
    return wbool(z3.And(as_int(lo) <= as_int(i), as_int(i) < as_int(hi)))


def at_least(i, n):
    return wbool(as_int(i) >= n)


def both(*cs):
    return wbool(z3.And([bool_term(c) for c in cs]))


def given(c):
    """an assumption about a constant nothing else speaks about: taken without asking whether it can hold"""
    core.E.run.add(bool_term(c))


def usable_key(name, empty=False):
    """an arbitrary key that is not reserved; with `empty`, the empty one"""
    k = z3.Const(name, S)
    core.E.run.add((k == z3.StringVal("")) if empty else (k != z3.StringVal("")))
    core.E.run.add(z3.Not(z3.PrefixOf(z3.StringVal("index"), k)))
    return SStr(k)
