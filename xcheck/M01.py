from mcommon import *
RULE = "random parquet files (type, values, row-group layout) and bounds on, between and beyond the values; result compared with a row-by-row filter; distinct = distinct descriptions"


def run_case(desc):
    vals, typ, group, lo, hi = desc
    p, t = make(vals, typ, group)
    try:
        recs = [r for r in mosaic.parquet_metadata_records(p) if r["path_in_schema"] == "v"]
        pf = parquet.ParquetFile(p)
        n = pf.num_row_groups
        check([r["row_group"] for r in recs] == list(range(n)), "records per row group", [r["row_group"] for r in recs])
        every = mosaic.parquet_metadata_records(p)
        check([(r["col_ix"], r["row_group"]) for r in every] == [(c, g) for c in range(3) for g in range(n)], "metadata records")
        snap = [dict(r) for r in recs]
        got = quiet(mosaic.read_between, pf, "v", (lo, hi), recs)
        check(recs == snap, "records changed")
        want = [(v, i) for i, v in enumerate(t["v"].to_pylist()) if v is not None and v == v and lo <= v < hi]
        if got is None:
            check(want == [], "returned nothing, expected", want)
        else:
            check(got.schema.names == t.schema.names, "columns", got.schema.names)
            rows = list(zip(got["v"].to_pylist(), got["vi"].to_pylist()))
            check(rows == want, "got", rows, "expected", want)
            check(got["other_v"].to_pylist() == [f"r{i}" for _, i in want], "other columns")
        vs = [v if v == v else None for v in t["v"].to_pylist()]
        lows = [min(v for v in vs[g * group:(g + 1) * group] if v is not None) for g in range(n)]
        highs = [max(v for v in vs[g * group:(g + 1) * group] if v is not None) for g in range(n)]
        if all(l > hi or h < lo for l, h in zip(lows, highs)):
            check(got is None, "no row group can match, yet something was returned")
        pf.close()
    finally:
        p.unlink(missing_ok=True)


def cases(rng, tier):
    # every bound on, between and beyond the values of a small file, every row-group size
    pts = [-1, 0, .5, 1, 1.5, 2, 3]
    for group in (1, 2, 3):
        for lo in pts:
            for hi in pts:
                yield ([0, 1, 1, 2, 0, 2, 2], "float64", group, lo, hi)
    # one row per group, many groups; groups of one repeated value; bounds on the first / last group
    for typ in ("int64", "float64", "int32"):
        for n, g in ((300, 1), (300, 7), (1000, 100), (5, 1000)):
            vals = [rng.randint(-50, 50) for _ in range(n)]
            for v in (vals, sorted(vals), sorted(vals, reverse=True), [3] * n):
                a, b = sorted(rng.sample(range(-52, 53), 2))
                for lo, hi in ((a, b), (min(v), max(v)), (min(v), max(v) + 1), (max(v), max(v) + 1), (max(v) + 1, max(v) + 9), (a, a), (v[0], v[0] + 1), (v[-1], v[-1] + 1)):
                    yield (list(v), typ, g, lo, hi)
    for v in (2**62, 2**53 + 1, -2**63, 2**63 - 2):
        for d in (-1, 0, 1):
            if -2**63 <= v + d:
                yield ([v, v + 1, v], "int64", 1, v + d, v + 1)
                yield ([v, v + 1, v], "int64", 3, v + d, v + 1)
    inf = float("inf")
    for lo in (-inf, -1e308, -1.0, -0.0, 0.0, 5e-324, 1.0, 1e308, inf):
        for hi in (-inf, -0.0, 0.0, 5e-324, 1.0, inf):
            for g in (1, 2, 9):
                yield ([0.0, -0.0, 5e-324, -5e-324, 1.0, 1e308, -1e308, inf, -inf], "float64", g, lo, hi)
    for _ in range(250 if tier == "quick" else 3000):
        typ = rng.choice(["int64", "float64", "int32", "uint8", "string"])
        n = rng.randint(1, 14)
        if typ == "string":
            vals = [rng.choice(["a", "b", "bb", "c", "é", "z"]) for _ in range(n)]
            lo, hi = sorted([rng.choice(["", "a", "b", "bb", "c", "z", "zz"]) for _ in range(2)])
        else:
            vals = [rng.randint(0, 8) if typ == "uint8" else rng.randint(-5, 8) for _ in range(n)]
            if typ == "float64":
                vals = [v + rng.choice([0.0, .5]) for v in vals]
            if rng.random() < .5:
                vals.sort()
            lo, hi = sorted([rng.randint(-7, 10) if typ != "uint8" else rng.randint(0, 10) for _ in range(2)])
            if rng.random() < .1:
                lo, hi = hi, lo
            if typ == "float64" and rng.random() < .3:
                lo, hi = lo + .5, float("inf")
        group = rng.randint(1, 6)
        if rng.random() < .3:
            vals = holes(rng, vals, typ, group)
        yield (vals, typ, group, lo, hi)
