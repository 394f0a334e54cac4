"""M02: chunked sorting writes every row exactly once, in order.

sort_chunked is verified against: for each window, in the direction asked for, the rows read from it (M01's contract of read_between),
sorted, are written unless there are none; the windows are [p0, p1), [p1, p2) ... [pn-2, infinity) for the n points from the least to the
greatest recorded value.  The lemmas show that these windows cover every value from the least on, that no value is in two of them, and that
every value of an earlier window is below every value of a later one, for any number of points from two."""
import math
mosaic = load("dustgoggles.mosaic")
tables = load("pydv.tables")
ASSUMES = ["numpy.linspace gives the number of points asked for, from the least value, none below one before it", "Table.sort_by sorts",
           "the writer writes the rows it is given in order", "values and bounds are in one total order",
           "the recorded minimum and maximum bound every value present in the row group"]


def READ(reader, field, bounds, meta_records, *_, **__):
    if uf_bool("nothing_between", reader.name, field, bounds, meta_records):
        return None
    return tables.table("rows_between", reader.name, field, bounds, meta_records)


def RECORDS(file):
    return uf_list("metadata_records", file)


def points(records, column, n):
    relevant = [rec for rec in records if rec["path_in_schema"] == column]
    assume(len(relevant) > 0)
    least, greatest = min([rec["min"] for rec in relevant]), max([rec["max"] for rec in relevant])
    return relevant, tables.linspace(least, greatest, n)


def windows_of(p, n):
    windows = list(zip(p, p[1:]))
    windows[-1] = (windows[-1][0], math.inf)
    return windows


def drive(direction, processed, options):
    effects(raises=False)
    tables.ordered()
    has_attributes("write_table", "close")
    has_items("min", "max", "row_group", "path_in_schema")
    contract(mosaic.read_between, READ, unfold=0)
    contract(mosaic.parquet_metadata_records, RECORDS, unfold=0)
    file, output, column, n = val("input"), val("output"), val("column"), int_("n_chunks")
    assume(n >= 2)
    process = callable_("inline_processor") if processed else None
    relevant, p = points(RECORDS(file), column, n)
    schema, size, dictionary = (val("schema"), int_("row_group_size"), val("use_dictionary")) if options else (None, None, None)
    if options:
        assume(schema is not None)
        assume(dictionary is not None)
    given = {"schema": schema, "row_group_size": size, "use_dictionary": dictionary} if options else {}

    def reference():
        writer = tables.parquet_writer(output, version="2.6", schema=schema if options else tables.reader(file).read_row_group(0).schema,
                                       **({"use_dictionary": dictionary} if options else {}))
        windows = windows_of(p, n)
        if direction == "descending":
            windows.reverse()
        try:
            for window in windows:
                rows = READ(tables.reader(file), column, window, relevant)
                if rows is None or len(rows) == 0:
                    continue
                rows = rows.sort_by([(column, direction)])
                if processed:
                    rows = process(rows)
                writer.write_table(rows, **({"row_group_size": size} if options else {}))
        finally:
            writer.close()
    w0 = world()
    want = outcome(reference)
    w1 = world()
    set_world(w0)
    got = outcome(lambda: mosaic.sort_chunked(file, output, column, direction, n_chunks=n, inline_processor=process, verbose=val("verbose"), **given))
    ensure_outcome("sort.ends_the_same", got, want)
    ensure_world("sort.written", world(), w1)


def ob_ascending():
    drive("ascending", False, False)


def ob_descending():
    drive("descending", False, False)


def ob_processed_with_options():
    drive("descending", True, True)


# ---- the windows divide the values
def some_points():
    pure()
    tables.ordered()
    low, high, n = val("least"), val("greatest"), int_("n_chunks")
    assume(n >= 2)
    p = tables.linspace(low, high, n)
    tables.starts_at(p, low)
    return p, n, low


def inside(v, window):
    return window[0] <= v and v < window[1]


def a_window(name, p, n):
    k = int_(name)
    assume(0 <= k)
    assume(k <= n - 2)
    return k


def ob_windows():
    """window k is [p(k), p(k+1)), the last one has no upper end"""
    p, n, low = some_points()
    k, windows = a_window("k", p, n), windows_of(p, n)
    ensure_same("windows.one_less_than_points", len(windows), n - 1)
    ensure_same("windows.kth", windows[k], (p[k], math.inf if k == n - 2 else p[k + 1]))


def ob_windows_disjoint_and_ordered():
    """a value of an earlier window is below every value of a later window"""
    p, n, low = some_points()
    j, k, windows = a_window("j", p, n), a_window("k", p, n), windows_of(p, n)
    assume(j < k)
    tables.ascending(p, j + 1, k)
    v, w = val("v"), val("w")
    assume(inside(v, windows[j]))
    assume(inside(w, windows[k]))
    ensure("windows.earlier_below_later", v < w)


def ob_windows_cover():
    """no value from the least on is missed: induction over the windows, the claim being that a value in none of the first k is not
    below p(k)"""
    p, n, low = some_points()
    k, v, windows = a_window("k", p, n), val("v"), windows_of(p, n)
    if case("base"):
        assume(v >= low)
        ensure("windows.cover_starts_at_the_least", v >= p[0])
    else:
        assume(v >= p[k])
        if k == n - 2:
            ensure("windows.last_takes_the_rest", inside(v, windows[k]))
        else:
            ensure("windows.in_this_one_or_past_it", inside(v, windows[k]) or v >= p[k + 1])


def ob_least():
    """the least recorded minimum is not above any value present in any row group of the column"""
    pure()
    tables.ordered()
    has_items("min", "max", "row_group", "path_in_schema")
    file, column, n = val("input"), val("column"), int_("n_chunks")
    assume(n >= 2)
    records = RECORDS(file)
    tables.truthful(column)
    relevant, p = points(records, column, n)
    i = int_("some_record")
    assume(0 <= i)
    assume(i < len(records))
    rec = records[i]
    assume(rec["path_in_schema"] == column)
    rows = tables.rows_of(file, rec["row_group"])
    r = int_("some_row")
    assume(0 <= r)
    assume(r < len(rows))
    v = tables.cell(rows[r], column)
    assume(not tables.missing(v))
    ensure("windows.least_below_every_value", v >= tables.least_of(p))
