from mcommon import *
RULE = "random parquet files (type, distribution, row-group layout) sorted with every chunk count and both directions; output rows compared as a multiset, order checked, input bytes compared; distinct = distinct descriptions"


def run_case(desc):
    vals, typ, group, n_chunks, direction, extra = desc
    p, t = make(vals, typ, group)
    out = p.with_suffix(".out")
    try:
        raw = p.read_bytes()
        kw = {}
        if extra == 1:
            kw["row_group_size"] = 2
        elif extra == 2:
            kw["use_dictionary"] = ["other_v"]
        elif extra == 3:
            kw["schema"] = t.schema
        elif extra == 4:
            seen = []
            kw["inline_processor"] = lambda tab: (seen.append(len(tab)), tab)[1]
        quiet(mosaic.sort_chunked, str(p), str(out), "v", direction=direction, n_chunks=n_chunks, **kw)
        check(p.read_bytes() == raw, "input modified")
        got = parquet.read_table(out)
        rows = list(zip(got["v"].to_pylist(), got["vi"].to_pylist(), got["other_v"].to_pylist()))
        want = [w for w in zip(t["v"].to_pylist(), t["vi"].to_pylist(), t["other_v"].to_pylist()) if w[0] is not None and w[0] == w[0]]
        rows_all, rows = rows, [r for r in rows if r[0] is not None and r[0] == r[0]]
        check(sorted(rows) == sorted(want), "rows", sorted(rows)[:40], "expected", sorted(want)[:40], len(rows), len(want))
        check(got.schema.names == t.schema.names and got.schema.types == t.schema.types, "columns", got.schema)
        if extra == 4:
            check(sum(seen) == len(rows_all), "rows through the processor", sum(seen), len(t))
        vs = [r[0] for r in rows]
        check(vs == sorted(vs, reverse=direction == "descending"), "order", vs[:60])
    finally:
        p.unlink(missing_ok=True)
        out.unlink(missing_ok=True)


def cases(rng, tier):
    # many chunks, few values; values on the window edges; all equal; one outlier; long files
    for n_chunks in (2, 3, 10, 11, 100, 333):
        for direction in ("ascending", "descending"):
            for vals, typ in (([5], "int64"), ([0, 0, 0], "float64"), ([0, 1], "uint8"), (list(range(11)), "int64"), ([v / 10 for v in range(11)][::-1], "float64"),
                              ([0] * 20 + [10**9] + [1] * 5, "int64"), ([-1e300, 1e300, 0.0, 5e-324], "float64"), ([-128, 127, -1, 0, 1], "int32"), ([2.0**24, 2.0**24 - 1], "float32"),
                              ([-3, -1, -2], "int64"), ([-5.5, -1e-3, -7.25], "float64"), ([-4, 0, -1], "int32"), ([0.0, -0.0, -5e-324], "float64"), ([-7], "int64"),
                              ([-2**53, -2**52], "int64"), ([-1e308, -9e307], "float64"), ([2**53, 2**52, 3], "int64"), ([1e-300, 3e-300], "float64")):
                for g in (1, 2, 50):
                    yield (list(vals), typ, g, n_chunks, direction, 0)
    for n in (500, 3000):
        for g in (1 if n == 500 else 100, 64, 5000):
            for direction in ("ascending", "descending"):
                for typ in ("int64", "float64"):
                    vals = [rng.randint(-10**6, 10**6) for _ in range(n)]
                    yield ([float(v) for v in vals] if typ == "float64" else vals, typ, g, rng.choice([2, 10, 50]), direction, rng.randrange(5))
    for _ in range(200 if tier == "quick" else 2500):
        typ = rng.choice(["int64", "float64", "int32", "uint8", "float32"])
        n = rng.randint(1, 25)
        mode = rng.random()
        if mode < .2:
            vals = [rng.randint(0, 3)] * n
        elif mode < .5:
            vals = [rng.randint(0, 10) for _ in range(n)]
        elif typ == "int64" and mode < .8:
            vals = [rng.randint(-2**50, 2**50) for _ in range(n)]
        elif typ == "float64" and mode < .8:
            vals = [rng.choice([1e300, -1e300, 1e-300, .1, .2, .3, rng.random(), rng.uniform(-1e6, 1e6)]) for _ in range(n)]
        else:
            vals = [rng.randint(0, 250) for _ in range(n)]
        if typ in ("float64", "float32"):
            vals = [float(v) for v in vals]
        if rng.random() < .3:
            vals.sort()
        group = rng.randint(1, 9)
        if rng.random() < .25:
            vals = holes(rng, vals, typ, group)
        yield (vals, typ, group, rng.randint(2, 12), rng.choice(["ascending", "descending"]), rng.randrange(5))
