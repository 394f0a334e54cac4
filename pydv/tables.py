"""pyarrow tables as sequences of rows, and the order of cell values.

AXIOM tables: a table is the sequence of its rows, and row r has the cell cell(r, field); pac.less and its like compare cells with a
scalar in a fixed total order and are null where the cell is missing (null or NaN); pac.filter keeps, in order, the rows where the mask
is true; pa.concat_tables joins tables in order; read_row_group(i) gives the rows of row group i of the file.
The order is that of real numbers: only comparisons are made, so any total order (extended reals included) is covered."""
import z3, math
from . import core, models
from .core import *
from .models import *

Re = z3.RealSort()
numf = z3.Function("order_of", Val, Re)
cellf = z3.Function("cell", Val, Val, Val)
missf = z3.Function("missing", Val, B)


def number(v):
    """position of a value in the order"""
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, (int, float)):
        if isinstance(v, float) and not math.isfinite(v):
            return None
        core.E.fact(numf(embed(v)) == z3.RealVal(repr(v)))
        return z3.RealVal(repr(v))
    if isinstance(v, SInt):
        core.E.fact(numf(embed(v)) == z3.ToReal(v.t))
        return z3.ToReal(v.t)
    return numf(embed(v))


def order(op, a, b):
    """a op b in the order; infinities are above and below everything"""
    x, y = number(a), number(b)
    if x is None or y is None:
        if x is None and y is None:
            return wbool(z3.BoolVal({"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[op]))
        up = (a > 0) if x is None else not (b > 0)        # a above b?
        return wbool(z3.BoolVal(up == (op in ("gt", "ge"))))
    return wbool({"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[op])


def ordered():
    """in this contract, every compared value is in the order"""
    core.E.run.order, core.E.run.extremum = order, extremum


def extremum(which, values):
    """AXIOM extremum: min and max of a sequence of values in the order: no element is beyond them"""
    values = SymList(models.listof(values).c) if not isinstance(values, (SymList, SymTuple)) else values
    if not core.seq_nonempty(list(values.c)):
        raise ValueError(which + "() arg is an empty sequence")
    t = z3.Function("extreme_" + which, Sq, Val)(eseq(values.c))
    core.E.fact(t != Val.absent)
    beyond = (lambda v: numf(t) <= number(v)) if which == "min" else (lambda v: numf(t) >= number(v))
    for c in values.c:
        if isinstance(c, U):
            core.E.fact(beyond(c.v))
            continue

        def bound(x, j, c=c):
            return z3.And([z3.BoolVal(True)] + [z3.Implies(cond, beyond(u.v)) for cond, ch in c.at(x, j) for u in ch if isinstance(u, U)])
        core.E.ufact(c.atom, c.lo_t(), c.hi_t(), bound)
    return wrap(t)


def missing(v):
    return wbool(missf(embed(v)))


class Table(SymList):
    """a table is the list of its rows"""

    def __getitem__(self, k):
        if isinstance(k, (str, SStr, SV)):
            return Column(self, k)
        return SymList.__getitem__(self, k)

    column = __getitem__

    def filter(self, mask):
        return select(self, mask)

    num_rows = property(lambda self: models.m_len(self))

    def sort_by(self, keys):
        return table("sorted", self, keys)

    schema = property(lambda self: wrap(z3.Function("schema_of", Sq, Val)(eseq(self.c))))


def table(name, *args):
    """a table given by an uninterpreted function"""
    f = z3.Function(name, *[Val] * len(args), Sq)
    return Table([F(None, Atom(f(*[embed(a) for a in args])))])


def opaque(name, *args):
    """a call of something outside, whose arguments and effect are recorded"""
    return core.E.opcall(SV(z3.Const(name, Val)), args[0], args[1])


class Column:
    __dvuntracked__ = True

    def __init__(self, table, field):
        self.table, self.field = table, field

    def at(self, row):
        return wrap(cellf(embed(row), embed(self.field)))


class Mask:
    """truth and nullness of a condition, row by row"""
    __dvuntracked__ = True

    def __init__(self, table, true, null):
        self.table, self.true, self.null = table, true, null


def comparison(op):
    def compare(col, b, **k):
        if not isinstance(col, Column) or isinstance(b, Column) or k:
            raise Unsupported("comparison of this kind")
        return Mask(col.table, lambda r: z3.And(z3.Not(missf(embed(col.at(r)))), order(op, col.at(r), b).t if isinstance(order(op, col.at(r), b), SBool) else z3.BoolVal(order(op, col.at(r), b))),
                    lambda r: missf(embed(col.at(r))))
    return compare


def same_rows(a, b):
    if a is not b and not (len(a.c) == len(b.c) and all(x is y for x, y in zip(a.c, b.c))):
        raise Unsupported("a mask made on other rows")


def both(a, b):
    same_rows(a.table, b.table)
    return Mask(a.table, lambda r: z3.And(a.true(r), b.true(r)), lambda r: z3.Or(a.null(r), b.null(r)))


def either(a, b):
    same_rows(a.table, b.table)
    return Mask(a.table, lambda r: z3.And(z3.Not(a.null(r)), z3.Not(b.null(r)), z3.Or(a.true(r), b.true(r))), lambda r: z3.Or(a.null(r), b.null(r)))


def invert(a):
    return Mask(a.table, lambda r: z3.And(z3.Not(a.null(r)), z3.Not(a.true(r))), a.null)


def select(table, mask, *a, **k):
    if a or k or not isinstance(mask, Mask) or not isinstance(table, Table):
        raise Unsupported("filter of this kind")
    same_rows(table, mask.table)
    r = models.apply(models.PRELUDE["select_"], [U(table), U(lambda row: wbool(mask.true(row)))], {})
    return Table(list(r.c))


def concat(tables, **k):
    if k:
        raise Unsupported("concat_tables options")
    r = models.apply(models.PRELUDE["flatten_"], [U(tables)], {})
    return Table(list(r.c))


class Reader:
    """an open file: what its row groups hold"""
    __dvuntracked__ = True

    def __init__(self, name):
        self.name = name

    def read_row_group(self, i, columns=None, **k):
        if columns is not None or k:
            raise Unsupported("reading of some columns")
        return Table(list(rows_of(self.name, i).c))


def rows_of(file, i):
    f = z3.Function("rows_of_group", Val, Val, Sq)
    return SymList([F(None, Atom(f(embed(file), embed(i))))])


COMPUTE = {"less": comparison("lt"), "less_equal": comparison("le"), "greater": comparison("gt"), "greater_equal": comparison("ge"),
           "filter": select, "and_": both, "or_": either, "invert": invert}


def cell(row, field):
    return wrap(cellf(embed(row), embed(field)))


def reader(name):
    return Reader(name)


def truthful(field):
    """the minimum and maximum a record gives for its row group bound every value present in that row group"""
    ft = embed(field)

    def hook(at, j, x):
        if at.decl().name() != "rows_of_group":
            return
        g = at.arg(1)
        if not (g.decl().name() == "dget" and z3.eq(g.arg(1), embed("row_group"))):
            return
        rec = g.arg(0)
        v = numf(cellf(x, ft))
        lo, hi = numf(dget(rec, embed("min"))), numf(dget(rec, embed("max")))
        core.E.fact(z3.Implies(z3.And(j >= 0, j < L(at)), z3.Or(missf(cellf(x, ft)), z3.And(lo <= v, v <= hi))))
    core.E.run.element_hooks = list(getattr(core.E.run, "element_hooks", ())) + [hook]


class Meta:
    """the metadata of a file: one entry per column and row group"""
    __dvuntracked__ = True

    def __init__(self, file):
        self.file = file
        self.num_columns, self.num_row_groups = (wint(z3.Function(n, Val, I)(embed(file))) for n in ("columns_in", "row_groups_in"))
        for n in (self.num_columns, self.num_row_groups):
            core.E.fact(n.t >= 0)

    def row_group(self, i):
        return Part(lambda j: Part(None, lambda: entry(self.file, i, j)))


class Part:
    __dvuntracked__ = True

    def __init__(self, column, to_dict=None):
        self.column, self.to_dict = column, to_dict


def entry(file, i, j):
    """a fresh dict: what the metadata says about column j in row group i"""
    t = z3.Function("entry", Val, I, I, Val)(embed(file), as_int(i), as_int(j))
    return SymDict.of(DictC(t))


def read_metadata(file):
    return Meta(file)


def parquet_writer(*a, **k):
    c = z3.Const("ParquetWriter", Val)
    core.E.fact(Val.is_op(c))
    return SV(c)(*a, **k)


def linspace(lo, hi, n, **k):
    """AXIOM linspace: n values from lo to hi, none below one before it"""
    if k:
        raise Unsupported("linspace options")
    t = z3.Function("linspace", Val, Val, I, Sq)(embed(lo), embed(hi), as_int(n))
    core.E.fact(slen(t) == as_int(n))
    return SymList([F(None, Atom(t))])


def ascending(points, i, j):
    """the axiom of linspace at two places"""
    t, a, b = points.c[0].atom.t, as_int(i), as_int(j)
    core.E.fact(z3.Implies(z3.And(0 <= a, a <= b, b < slen(t)), numf(elt(t, a)) <= numf(elt(t, b))))


def starts_at(points, low):
    t = points.c[0].atom.t
    core.E.fact(z3.Implies(slen(t) > 0, numf(elt(t, z3.IntVal(0))) == number(low)))


def windowed(seq, n, **k):
    if n != 2 or k or not isinstance(seq, (SymList, SymTuple)):
        raise Unsupported("windowed of this kind")
    if not core.E.decide(models.as_int(models.m_len(seq)) >= 2):
        raise Unsupported("windowed of a short sequence")
    return models.m_zip(seq, seq[1:])


def open_file(name, **k):
    return Reader(name)


try:
    import numpy
    model(numpy.linspace)(linspace)
except ImportError:
    pass
PARQUET = {"read_metadata": read_metadata, "ParquetFile": open_file, "ParquetWriter": parquet_writer}


def least_of(points):
    """the value linspace starts from"""
    return wrap(points.c[0].atom.t.arg(0))
