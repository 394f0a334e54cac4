"""What frames.py takes as given: cells, missing cells, equal cells, arbitrary frames; and where the modules find it."""
import builtins, z3, numpy as np
from . import core, models, api, tables
from .core import *
from .models import PRELUDE, instantiate, apply


def make(cls, *a):
    return instantiate(PRELUDE[cls], [U(x) for x in a], {}, False)


def missing(v):
    """a missing cell"""
    return wbool(tables.missf(embed(v)))


equalf = z3.Function("cells_equal", Val, Val, B)


def cells_equal(a, b):
    """== of two cells: symmetric, and never true of a missing one"""
    a, b = embed(a), embed(b)
    core.E.fact(equalf(a, b) == equalf(b, a))
    core.E.fact(z3.Implies(equalf(a, b), z3.And(z3.Not(tables.missf(a)), z3.Not(tables.missf(b)))))
    return wbool(equalf(a, b))


def all_equal(rows, cols, line):
    """every cell of these columns equals the cell of the one column in its row"""
    return api.uf_bool("all_equal", models.m_tuple(rows), models.m_tuple(cols), line)


def value_of(seq):
    return models.m_tuple(seq)


def type_of(cells):
    return api.uf_val("type_of", value_of(cells))


def is_bool(dtype):
    return api.uf_bool("is_bool", dtype)


def ordered_labels(names, level, sort):
    """the order groups come in"""
    return api.uf_list("ordered_labels", value_of(names), value_of(level) if not isinstance(level, (int, SInt)) else level, sort)


def aggregate(how, cells):
    return api.uf_val("aggregate", how, value_of(cells))


def width_of(cells):
    """the length of the longest list among the cells"""
    t = z3.Function("width_of", Val, I)(embed(value_of(cells)))
    core.E.fact(t >= 0)
    return wint(t)


def levels_of(labels):
    """how many levels the labels have"""
    t = z3.Function("levels_of", Val, I)(embed(value_of(labels)))
    core.E.fact(t >= 1)
    return wint(t)


def is_whole(labels, n):
    """range(n)"""
    return core.E.prove_now(eseq(models.listof(labels).c) == eseq(models.listof(apply(range, [U(n)], {})).c))


def is_beside(v):
    return isinstance(v, PRELUDE["StandBeside"])


def is_numbered(label, items):
    return isinstance(label, PRELUDE["StandNumbers"]) and label.items_ is items


def piece(cell, i):
    """the i-th element of a list, or nothing"""
    return api.uf_val("piece", cell, i)


def nothing():
    """a missing cell"""
    t = z3.Const("nothing", Val)
    core.E.fact(z3.And(t != Val.absent, tables.missf(t)))
    return wrap(t)


class DataFrame:
    pass


class Range(Sym):
    """np.arange(n)"""
    def __init__(self, n):
        self.n = n


def m_arange(*a, **k):
    if len(a) != 1 or k:
        raise Unsupported("arange")
    return Range(a[0])


def m_repeat(a, repeats, axis=None):
    if not isinstance(a, Range):
        raise Unsupported("repeat of this")
    return make("StandTimes", a.n, repeats)


def m_frame(*a, **k):
    return apply(PRELUDE["spread"], [U(x) for x in a], k)


def m_concat(frames, axis=0, **k):
    if k:
        raise Unsupported("concat")
    return apply(PRELUDE["beside"], [U(frames), U(axis)], {})


def line(name):
    """an arbitrary series"""
    at, label = (lambda x: api.uf_val(name + "_value", x)), (lambda x: api.uf_val(name + "_label", x))
    return make("StandSeries", api.lst(name + "_items"), at, label, api.val(name + "_name"))


HOOKS = {f.__name__: f for f in (missing, cells_equal, all_equal, type_of, ordered_labels, aggregate, width_of, piece, nothing, levels_of, is_whole)}


def source(name):
    """an arbitrary frame"""
    rows, cols = api.lst(name + "_rows"), api.lst(name + "_cols")
    return make("StandFrame", rows, cols, lambda r, c: api.uf_val(name + "_cell", r, c), lambda r: api.uf_val(name + "_row_label", r),
                lambda c: api.uf_val(name + "_col_label", c))


def flags(name, axis):
    """an arbitrary truth value for every element of an axis"""
    return make("StandFlags", axis, apply(PRELUDE["mapped_"], [U(lambda x: api.uf_bool(name, x)), U(axis)], {}))


def series(*a, **k):
    data, index = (list(a) + [None, None])[:2]
    data, index = k.pop("data", data), k.pop("index", index)
    k.pop("dtype", None)
    if data is not False or k or not isinstance(index, PRELUDE["StandIndex"]):
        raise Unsupported("construction of a series")
    return make("StandMarks", index)


def picks(key):
    """flags, and not a label"""
    return not isinstance(key, Sym) and isinstance(key, (PRELUDE["StandFlags"], PRELUDE["StandMarks"]))


def is_frame(v):
    return isinstance(v, PRELUDE["StandFrame"])
