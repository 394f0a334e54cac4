"""P02: frame helpers never lose or alter data they are not asked to drop.

Frames have any number of rows and columns, with arbitrary cells and labels (frames.py)."""
import numpy as np
frames = load("pydv.framehooks")
pivot = load("dustgoggles.pivot")
ASSUMES = ["pandas' selection by flags, positions and labels, item iteration, dropna and element-wise == behave as in frames.py (cross-checked against pandas)"]


def same_frame(name, got, rows, cols, f):
    ensure(name + ".is_frame", frames.is_frame(got))
    ensure_same(name + ".rows", got.rows, rows)
    ensure_same(name + ".columns", got.cols, cols)
    r, c = val("any_row"), val("any_column")
    ensure_same(name + ".cells", got.at(r, c), f.at(r, c))
    ensure_same(name + ".row_labels", got.row_label(r), f.row_label(r))
    ensure_same(name + ".column_labels", got.col_label(c), f.col_label(c))


def ob_split():
    pure()
    f = frames.source("f")
    flags = frames.flags("holds", f.index)
    yes, no = pivot.split_on(f, flags)
    same_frame("split.holds", yes, [r for r, b in zip(f.rows, flags.values) if b], f.cols, f)
    same_frame("split.does_not", no, [r for r, b in zip(f.rows, flags.values) if not b], f.cols, f)


def constant(cells, dropna):
    if dropna:
        cells = [x for x in cells if not frames.missing(x)]
    return len(cells) == 0 or all(frames.cells_equal(x, cells[0]) for x in cells)


def constants(how, dropna, drop):
    pure()
    f = frames.source("f")
    got, rest = pivot.extract_constants(f, to_dict=False, drop_constants=drop, how=how, dropna=dropna)
    if how == "rows":
        same_frame("constants", got, f.rows, [c for c in f.cols if constant([f.at(r, c) for r in f.rows], dropna)], f)
        cols = [c for c in f.cols if not constant([f.at(r, c) for r in f.rows], dropna)] if drop else f.cols
        same_frame("variables" if drop else "frame", rest, f.rows, cols, f)
    else:
        same_frame("constants", got, [r for r in f.rows if constant([f.at(r, c) for c in f.cols], dropna)], f.cols, f)
        rows = [r for r in f.rows if not constant([f.at(r, c) for c in f.cols], dropna)] if drop else f.rows
        same_frame("variables" if drop else "frame", rest, rows, f.cols, f)


def ob_constant_columns(): constants("rows", True, True)
def ob_constant_columns_kept(): constants("rows", False, False)
def ob_constant_rows(): constants("columns", False, True)
def ob_constant_rows_kept(): constants("columns", True, False)


def ob_duplicates():
    pure()
    f = frames.source("f")
    got = outcome(pivot.check_and_drop_duplicate_columns, f)
    seen, again = {}, []
    for c in f.cols:
        again.append(f.col_label(c) in seen)
        seen[f.col_label(c)] = True
    repeated = [f.col_label(c) for c, b in zip(f.cols, again) if b]
    firsts = [c for c, b in zip(f.cols, again) if not b]

    def want():
        for name in repeated:
            block = [c for c in f.cols if f.col_label(c) == name]
            first = block[0]
            if not frames.all_equal(f.rows, block, first):
                raise ValueError
    want = outcome(want)
    ensure("duplicates.refused", got[0] == want[0])
    if want[0] == "ok" and got[0] == "ok":
        same_frame("duplicates", got[1], f.rows, firsts, f)


def plain(x):
    return x.item() if isinstance(x, np.generic) else x


def report(how, dropna):
    pure()
    has_attributes("item")
    f = frames.source("f")
    assume(len(f.rows) > 0 and len(f.cols) > 0)
    got, _ = pivot.extract_constants(f, how=how, dropna=dropna)
    want = {}
    if how == "rows":
        lines = [(f.col_label(c), [f.at(r, c) for r in f.rows]) for c in f.cols]
    else:
        lines = [(f.row_label(r), [f.at(r, c) for c in f.cols]) for r in f.rows]
    for name, cells in lines:
        if constant(cells, dropna):
            there = [x for x in cells if not frames.missing(x)] if dropna else cells
            want[name] = plain(cells[0] if len(there) == 0 else there[0])
    ensure_same("constants.reported", got, want)


def ob_report_columns(): report("rows", True)
def ob_report_columns_all(): report("rows", False)
def ob_report_rows(): report("columns", True)
def ob_report_rows_all(): report("columns", False)


def ob_repeat():
    pure()
    f, n = frames.source("f"), int_("n")
    assume(n >= 0)
    got = pivot.dupe_df_block(f, n)
    r, c = val("any_row"), val("any_column")
    ensure_same("repeat.columns", got.cols, f.cols)
    ensure_same("repeat.column_labels", got.col_label(c), f.col_label(c))
    ensure_same("repeat.rows", got.rows, [r for r in f.rows for _ in range(n)])
    ensure_same("repeat.cells", got.at(r, c), f.at(r, c))
    ensure("repeat.numbered", frames.is_numbered(got.row_label, got.rows))


def ob_squeeze():
    pure()
    s = frames.line("s")
    how = val("how")
    got = pivot.squeeze(s, how) if case("given") else pivot.squeeze(s)
    how = how if case("given") else None
    seen, firsts = {}, []
    for x in s.items_:
        firsts.append(not s.label(x) in seen)
        seen[s.label(x)] = True
    firsts = [x for x, b in zip(s.items_, firsts) if b]
    ensure_same("squeeze.name", got.name, s.name)
    labels = [got.label(x) for x in got.items_]
    values = [got.at(x) for x in got.items_]
    if how is None and not frames.is_bool(s.dtype):
        ensure_same("squeeze.labels", labels, [s.label(x) for x in firsts])
        ensure_same("squeeze.first_value_of_each_label", values, [s.at(x) for x in firsts])
    else:
        names = frames.ordered_labels([s.label(x) for x in firsts], list(range(s.index.nlevels)), True)
        ensure_same("squeeze.labels", labels, names)
        ensure_same("squeeze.aggregated_values", values,
                    [frames.aggregate("any" if how is None else how, [s.at(x) for x in s.items_ if s.label(x) == name]) for name in names])


def ob_unpack():
    pure()
    s = frames.line("s")
    got = pivot.unpack(s)
    there = [x for x in s.items_ if not frames.missing(s.at(x))]
    n = frames.width_of([s.at(x) for x in there])
    ensure_same("unpack.rows", [got.row_label(r) for r in got.rows], [s.label(x) for x in there])
    ensure_same("unpack.columns", [got.col_label(c) for c in got.cols], [f"{s.name}_{i}" for i in range(n)])
    x, i = val("any_item"), int_("any_position")
    assume(x in there and i >= 0 and i < n)
    ensure_same("unpack.cells", got.at(x, got.cols[i]), frames.piece(s.at(x), i))


def ob_unpack_column():
    pure()
    f, name = frames.source("f"), val("name")
    line = [c for c in f.cols if f.col_label(c) == name]
    assume(len(line) > 0)
    got = pivot.unpack_column(f, name)
    lists = [f.at(r, line[0]) for r in f.rows]
    n = frames.width_of([x for x in lists if not frames.missing(x)])
    others = [c for c in f.cols if f.col_label(c) != name]
    ensure("unpack_column.parts", frames.is_beside(got))
    left, right = got.left, got.right
    r, c = val("any_row"), val("any_column")
    same_frame("unpack_column.others", left, f.rows, others, f)
    ensure_same("unpack_column.rows", right.rows, f.rows)
    ensure_same("unpack_column.row_labels", right.row_label(r), f.row_label(r))
    ensure_same("unpack_column.columns", [right.col_label(c) for c in right.cols], [f"{name}_{i}" for i in range(n)])
    i = int_("any_piece")
    assume(r in f.rows and i >= 0 and i < n)
    cell = f.at(r, line[0])
    ensure_same("unpack_column.cells", right.at(r, right.cols[i]), frames.nothing() if frames.missing(cell) else frames.piece(cell, i))
