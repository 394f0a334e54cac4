"""Assumed contracts of the standard library's clock, frames, files and json, for the tracker and the exception report."""
import ast, builtins, re, datetime, inspect, io, json, os, pathlib, sys, types
from . import core, models
from .core import *
from .models import model, apply, instantiate, PRELUDE, has_sym


# ---- frames: the instrumented code's own frames are the program's frames
class Frame:
    def __init__(self, f):
        self.f = f

    @property
    def f_back(self):
        f = self.f.f_back
        while f is not None and "__dv_mod__" not in f.f_globals:
            f = f.f_back
        return None if f is None else Frame(f)

    f_code = property(lambda self: self.f.f_code)
    f_lineno = property(lambda self: self.f.f_lineno)
    f_globals = property(lambda self: self.f.f_globals)


def here():
    f = sys._getframe(1)
    while "__dv_mod__" not in f.f_globals or f.f_globals.get("__name__") == "dv_prelude":
        f = f.f_back
    return Frame(f)


@model(inspect.currentframe)
def m_currentframe():
    return here()


@model(sys._getframe)
def m_getframe(depth=0):
    f = here()
    for _ in range(depth):
        f = f.f_back
    return f


@model(inspect.getframeinfo)
def m_getframeinfo(frame, context=1):
    if not isinstance(frame, Frame):
        raise Unsupported("getframeinfo")
    return types.SimpleNamespace(function=frame.f_code.co_name, lineno=frame.f_lineno, filename=frame.f_code.co_filename)


# ---- clock
class Now:
    def isoformat(self, *a, **k):
        run = core.E.run
        run.clock = getattr(run, "clock", 0) + 1
        return SStr(z3.Const(f"now{run.clock}", S))


@model(datetime.datetime)
def m_datetime(*a, **k):
    raise Unsupported("datetime")


# ---- files
@model(pathlib.Path, pathlib.PosixPath)
def m_path(*parts):
    if len(parts) == 1 and isinstance(parts[0], PRELUDE["StandPath"]):
        return parts[0]
    return instantiate(PRELUDE["StandPath"], [U(p) for p in parts], {}, False)


def path_of(p):
    if not isinstance(p, PRELUDE["StandPath"]):
        raise Unsupported("file name")
    return p


@model(builtins.open, io.open)
def m_open(p, *a, **k):
    if isinstance(p, SV):
        f = z3.Const("open", Val)
        core.E.fact(Val.is_op(f))
        return models.opcall(SV(f), [U(p)] + [U(x) for x in a], k)
    return apply(path_of(p).open, [U(x) for x in a], k)


@model(os.path.exists, os.path.isfile)
def m_exists(p):
    return apply(path_of(p).exists, [], {})


@model(os.unlink, os.remove)
def m_unlink(p):
    return apply(path_of(p).unlink, [], {})


def unsupported(msg):
    raise Unsupported(msg)


def literal(d):
    if not isinstance(d, (bytes, str)):
        raise Unsupported("overwriting with content of unknown length")
    return d


@model(unsupported)
def m_unsupported(msg):
    raise Unsupported(msg)


def literal_length(d):
    if isinstance(d, Joined):
        return sum(len(p) for p in d.parts if isinstance(p, (str, bytes)))      # at least
    return len(literal(d))


def pieces_of(box):
    c = [u.v for u in core.list_content(box)]
    out = []
    for v in [p for v in c for p in (v.parts if isinstance(v, Joined) else [v])]:
        v = v.encode() if isinstance(v, str) else v
        if isinstance(v, bytes) and out and isinstance(out[-1], bytes):
            out[-1] += v
        elif not (isinstance(v, bytes) and not v):
            out.append(v)
    return out


def split_back(box, n):
    p = pieces_of(box)
    rest = b""
    while len(rest) < n:
        if not p or not isinstance(p[-1], bytes):
            raise Unsupported("seek into content of unknown length")
        rest = p.pop() + rest
    if len(rest) > n:
        p.append(rest[:-n] if n else rest)
        rest = rest[-n:] if n else b""
    return SymList([U(v) for v in p]), rest


def cut_back(box, n):
    return split_back(box, n)[0]


@model(split_back)
def m_split(box, n):
    return split_back(box, n)


@model(cut_back)
def m_cut(box, n):
    return cut_back(box, n)


# ---- json: some text of the value, or a failure
def dumped(x, k):
    if set(k) - {"indent", "sort_keys", "separators", "ensure_ascii"}:
        raise Unsupported("option of json.dumps")
    t = embed(core.freeze(x))
    if core.E.decide(z3.Function("json_fails", Val, B)(t)):
        raise SymExc(z3.Function("json_failure", Val, Val)(t))
    return JsonText(json_text(t))


def json_text(t):
    r = z3.Function("json_text", Val, Val)(t)
    core.E.fact(Val.is_op(r))
    return r


class JsonText(SV):
    """the text json.dumps gives for a value; its bytes are identified with it"""

    def encode(self, *a, **k):
        return JsonBytes(self.t)

    def __add__(self, o):
        return joined(self, o, (str, JsonText))

    def __radd__(self, o):
        return joined(o, self, (str, JsonText))


class JsonBytes(SV):
    def __add__(self, o):
        return joined(self, o, (bytes, JsonBytes))

    def __radd__(self, o):
        return joined(o, self, (bytes, JsonBytes))

    def decode(self, *a, **k):
        return JsonText(self.t)


class Joined(Sym):
    """literals and JSON texts one after the other"""
    def __init__(self, parts, types):
        self.parts, self.types = parts, types

    def __add__(self, o):
        return joined(self, o, self.types)

    def __radd__(self, o):
        return joined(o, self, self.types)

    def encode(self, *a, **k):
        if str not in self.types:
            raise AttributeError("encode")
        return Joined([x.encode() for x in self.parts], (bytes, JsonBytes))


def joined(a, b, types):
    parts = [p for x in (a, b) for p in (x.parts if isinstance(x, Joined) else [x])]
    if not all(isinstance(p, types) for p in parts):
        raise Unsupported("JSON text joined with something else")
    return Joined(parts, types)


def join_json(sep, it):
    """sep.join(it), or None if there is no JSON text in it"""
    parts = list(it) if isinstance(it, (list, tuple)) else [u.v for u in core.list_content(it)] if isinstance(it, SymList) else None
    if parts is None or not any(isinstance(p, (JsonText, JsonBytes, Joined)) for p in parts):
        return None
    out = type(sep)()
    for k, p in enumerate(parts):
        out = (out + sep if k else out) + p
    return out


models.JOIN_JSON = join_json


@model(json.dumps)
def m_dumps(x, **k):
    return dumped(x, k)


@model(json.dump)
def m_dump(x, stream, **k):
    # written piece by piece: a failure comes after a part of it was written
    try:
        t = dumped(x, k)
    except SymExc:
        apply(stream.write, [U(SV(z3.Const("partial_json", Val)))], {})
        raise
    apply(stream.write, [U(t)], {})


def install():
    PRELUDE.update(unsupported=unsupported, literal_length=literal_length, split_back=split_back, cut_back=cut_back)
    for k in ("unsupported", "literal_length", "split_back", "cut_back"):
        PRELUDE["StandPath"].open.__globals__[k] = globals()[k]
    models.NATIVE_METHODS[(datetime.datetime, "now")] = lambda *a, **k: Now()
    models.NATIVE_METHODS[(datetime.datetime, "utcnow")] = lambda *a, **k: Now()


# ---- what contracts use
def file_of(t):
    """the pieces of a tracker's file, adjacent literal bytes joined"""
    p = t.outpath.pieces
    return None if p is None else pieces_of(p)


def blank(piece, mark):
    """a literal that is the mark, with white space around it"""
    return isinstance(piece, bytes) and piece.strip(b" \t\r\n") == mark


model(file_of)(file_of)
model(blank)(blank)


def from_json(ex):
    return isinstance(ex, SymExc)


model(from_json)(from_json)


# ---- what module a frame's code belongs to: some function of the frame, possibly none
@model(inspect.getmodule)
def m_getmodule(o, _filename=None):
    return core.wrap(z3.Function("module_of", Val, Val)(embed(o)))


# ---- signatures and source texts: functions of the callable; source may be unavailable
@model(inspect.signature)
def m_signature(f, **k):
    if f is None:
        raise TypeError("None is not a callable object")
    return core.wrap(z3.Function("signature_of", Val, Val)(embed(f)))


@model(inspect.getsource)
def m_getsource(f):
    t = embed(f)
    if core.E.decide(z3.Function("source_fails", Val, B)(t)):
        raise SymExc(z3.Function("source_failure", Val, Val)(t))
    return core.wrap(z3.Function("source_of", Val, Val)(t))


@model(io.BytesIO)
def m_bytesio(*a):
    return instantiate(PRELUDE["StandBuffer"], [U(x) for x in a], {}, False)


# ---- regular expressions: exact for patterns that are a fixed text, otherwise a function of pattern and text
def fixed_text(pattern):
    import warnings
    if not isinstance(pattern, (str, bytes)):
        return None
    try:
        import re._parser as p
        tree = p.parse(pattern)
    except Exception:
        return None
    out = []

    def go(items):
        for op, arg in items:
            if str(op) == "LITERAL":
                out.append(arg)
            elif str(op) == "MAX_REPEAT" and arg[0] == arg[1]:
                for _ in range(arg[0]):
                    if not go(arg[2]):
                        return False
            else:
                return False
        return True
    if tree.state.flags & re.IGNORECASE or not go(tree) or not out:
        return None
    return "".join(map(chr, out)) if isinstance(pattern, str) else bytes(out)


class FixedMatch:
    def __init__(self, start, n):
        self.a, self.n = start, n

    def start(self):
        return wint(self.a)

    def end(self):
        return wint(z3.simplify(self.a + self.n))

    def span(self):
        return (self.start(), self.end())


class Match(Sym):
    """a match: each group's text is a function of the match and the group; other ways to ask are not interpreted"""
    def __init__(self, t):
        self.__dict__["t"] = t

    def __dv_embed__(self):
        return self.t

    def __bool__(self):
        return True

    def group(self, *which):
        if len(which) > 1:
            return tuple(self.group(w) for w in which)
        g = z3.Function("match_group", Val, Val, Val)(self.t, embed(which[0] if which else 0))
        core.E.fact(g != Val.absent)
        return core.wrap(g)

    def __getitem__(self, which):
        return self.group(which)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"match object's {name}")

    __hash__ = None


@model(re.search)
def m_search(pattern, text, flags=0):
    fixed = fixed_text(pattern)
    if isinstance(text, SBytes) and fixed is not None and type(fixed) is bytes and not flags:
        a = z3.IndexOf(text.t, core.byterm(fixed), z3.IntVal(0))
        return None if core.E.decide(a < 0) else FixedMatch(a, len(fixed))
    t = z3.Function("re_search", Val, Val, Val, Val)(embed(pattern), embed(text), embed(int(flags)))
    if core.E.decide(t == Val.none):
        return None
    core.E.fact(Val.is_op(t))
    return Match(t)


@model(ast.literal_eval)
def m_literal_eval(x):
    """a value, or a failure of one of the kinds the documentation lists"""
    t = embed(x)
    if core.E.decide(z3.Function("not_a_literal", Val, B)(t)):
        e = z3.Function("literal_failure", Val, Val)(t)
        core.E.fact(z3.Or([core.exc_isa(e, k) for k in (ValueError, SyntaxError, TypeError, MemoryError, RecursionError)]))
        raise SymExc(e)
    r = z3.Function("literal_value", Val, Val)(t)
    core.E.fact(r != Val.absent)
    return core.wrap(r)
