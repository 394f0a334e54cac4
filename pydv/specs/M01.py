"""M01: reading between bounds returns exactly the rows in the half-open range.

A table is the sequence of its rows and cell values are in a total order (tables.py); row groups, their number, their rows and the
bounds are arbitrary.  The statistics are truthful: every cell present lies between the recorded minimum and maximum."""
tables = load("pydv.tables")
mosaic = load("dustgoggles.mosaic")
ASSUMES = ["pyarrow tables, masks and filters behave as in tables.py", "the recorded minimum and maximum bound every value present in the row group",
           "values and bounds are in one total order"]


def ob_read_between():
    pure()
    tables.ordered()
    has_items("min", "max", "row_group", "path_in_schema")
    reader, field, records = tables.reader(val("file")), val("field"), lst("records")
    tables.truthful(field)
    low, high = val("low"), val("high")

    def rows(rec):
        return tables.rows_of(reader.name, rec["row_group"])
    got = mosaic.read_between(reader, field, (low, high), records, verbose=val("verbose"))
    want = []
    for rec in records:
        for row in rows(rec):
            v = tables.cell(row, field)
            if not tables.missing(v) and v >= low and v < high:
                want.append(row)
    ensure_same("read_between.rows", [] if got is None else got, want)


def ob_nothing_there():
    """nothing when no row group reaches into the range"""
    pure()
    tables.ordered()
    has_items("min", "max", "row_group", "path_in_schema")
    reader, field, records = tables.reader(val("file")), val("field"), lst("records")
    low, high = val("low"), val("high")
    assume(all(rec["min"] > high or rec["max"] < low for rec in records))
    ensure("read_between.nothing", mosaic.read_between(reader, field, (low, high), records, verbose=False) is None)


def ob_records():
    """one record per column and row group, column by column, with its statistics merged in and saying where it belongs"""
    pure()
    file = val("file")
    got = mosaic.parquet_metadata_records(file)
    want = []
    about = tables.read_metadata(file)
    for c in range(about.num_columns):
        for g in range(about.num_row_groups):
            rec = tables.entry(file, g, c)
            if "statistics" in rec:
                statistics = rec.pop("statistics")
                rec = rec | statistics
            want.append(rec | {"row_group": g, "col_ix": c})
    ensure_same("records.each_once_in_order", got, want)
