from lib import *
import numpy as np, pandas as pd, warnings
from dustgoggles import pivot
RULE = "random numeric arrays (all real and integer dtypes, sizes including empty, zeros, subnormals, boundary and non-finite values) with random tolerances, as arrays and Series; distinct = distinct descriptions"
INTS = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"]
FLOATS = ["float64", "float32", "float16"]


def run_case(desc):
    _, dtype, vals, atol, rtol, series = desc
    if isinstance(vals, tuple):         # ("long", n, plain, at, odd)
        _, n, plain, at, odd = vals
        vals = [plain] * n
        vals[at] = odd
    arr = np.array(vals, dtype=dtype) if dtype not in FLOATS else np.array([float(v) for v in vals], dtype="float64").astype(dtype)
    arr = arr.copy()
    src = arr.copy()
    if series == "index":
        src = pd.Series(src, index=[f"r{i}" for i in range(len(src))], name="nm")
    elif series is True:
        src = pd.Series(src)
    elif series == "strided":
        src = np.repeat(arr, 2)[::2]
    elif series == "reversed":
        src = arr[::-1].copy()[::-1]
    elif series == "readonly":
        src.flags.writeable = False
    elif series == "swapped":
        src = src.astype(src.dtype.newbyteorder("S"))
    series = series in (True, "index")
    keep = np.asarray(src).copy()
    keep = keep.astype(keep.dtype.newbyteorder("="))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import inspect
        sig = inspect.signature(pivot.downcast).parameters
        a = sig["atol"].default if atol is None else atol
        r = sig["rtol"].default if rtol is None else rtol
        rec = pivot.downcast(src, a, r, "pandas" if series else "numpy")
    check(np.asarray(src).dtype.newbyteorder("=") == keep.dtype and np.asarray(src).astype(keep.dtype).tobytes() == keep.tobytes(), "input modified")
    out = np.asarray(rec["recast"])
    check(isinstance(rec["recast"], pd.Series) == series, "library")
    check(isinstance(rec["recast"], (pd.Series, np.ndarray)), "type", type(rec["recast"]))
    check(len(out) == len(keep), "length", len(out), len(keep))
    if dtype in INTS:
        check([int(x) for x in out] == [int(x) for x in keep], "values", out, keep)
        if len(keep):
            lo, hi = int(keep.min()), int(keep.max())
            cands = [d for d in (INTS[4:] if lo >= 0 else INTS[:4]) if np.iinfo(d).min <= lo and hi <= np.iinfo(d).max]
            check(out.dtype == np.dtype(cands[0]), "type", out.dtype, "smallest is", cands[0])
        return
    from fractions import Fraction as Fr
    big_a = big_r = Fr(0)
    for x, y in zip(keep, out):
        x, y = float(x), float(y)
        if not np.isfinite(x):
            check(not np.isfinite(y), "non-finite became finite", x, y)
            continue
        check(np.isfinite(y), "finite became", y, "from", x)
        d = abs(Fr(y) - Fr(x))
        big_a = max(big_a, d)
        if x != 0:
            big_r = max(big_r, d / abs(Fr(x)))
        else:
            check(d == 0, "zero became", y)
    eps = 1e-12 if keep.dtype == np.float64 else 1e-3
    if out.dtype != keep.dtype:
        if a is not None and np.isfinite(a):
            check(float(big_a) <= a * (1 + eps), "absolute error", float(big_a), "tolerance", a, out.dtype)
        if r is not None and np.isfinite(r):
            check(float(big_r) <= r * (1 + eps), "relative error", float(big_r), "tolerance", r, out.dtype)
    else:
        check(big_a == 0, "same dtype but changed")
    for key, v in (("aerr", big_a), ("rerr", big_r)):
        if key in rec and rec[key] is not None:
            e = float(rec[key])
            check(not e < float(v) * (1 - eps), "reported", key, e, "actual", float(v))


def cases(rng, tier):
    ib = [0, 1, 2, 127, 128, 129, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**53, 2**53 + 1, 2**63 - 1, 2**63, 2**64 - 1]
    fb = [0.0, -0.0, 1.0, -1.0, 0.1, 1e-8, 1e-45, 5e-324, 1e-310, 65504.0, 65519.0, 65520.0, 65536.0, 1e5, 3.4028234e38, 3.4028236e38, 1e39, 1e308, "nan", "inf", "-inf",
          2049.0, 16777217.0, 1 / 3, 1e-5, 6e-8, 1e-7]
    # long arrays with one deciding element, at the start, in the middle or at the end
    forms = [False, True, "index", "strided", "reversed", "readonly", "swapped"]
    for n in (1, 2, 100, 5000):
        for at in {0, n // 2, n - 1}:
            for form in forms:
                for dt in INTS:
                    base = [1] * n
                    for odd in (127, 128, 255, 256, 32768, 65536, 2**31, 2**32, -1, -129, -32769, -2**31 - 1):
                        if int(np.iinfo(dt).min) <= odd <= int(np.iinfo(dt).max) and (n < 1000 or rng.random() < .05):
                            yield ("d", dt, base[:at] + [odd] + base[at + 1:], None, None, form)
                for dt in FLOATS:
                    for odd in (0.1, 1e-8, 65520.0, 60000.5, "nan", "inf", 1e5, 2049.0, 1e39, 0.0):
                        if (dt == "float64" or isinstance(odd, str) or odd < 6e4) and (n < 1000 or rng.random() < .1):
                            base = [1.0] * n
                            yield ("d", dt, base[:at] + [odd] + base[at + 1:], rng.choice([None, 0, 1e-3, 1]), rng.choice([None, 0.01, 0, 1e-6]), form)
    for n in (70000, 140001):
        for at in (0, 66000, n - 1):
            for dt, plain, odd in (("int64", 1, 70000), ("int64", 0, -1), ("uint32", 1, 300), ("float64", 1.0, 0.1), ("float64", 0.0, 1e5), ("float64", 1.0, "nan"),
                                   ("float32", 1.0, 2049.0), ("float64", 0.5, 60000.5)):
                yield ("d", dt, ("long", n, plain, at, odd), None, None, rng.random() < .5)
    # tolerances exactly at, just below and just above the error of a conversion
    for v in (0.1, 1 / 3, 1e-3, 2049.0, 12345.678):
        for t in (np.float32, np.float16):
            e = abs(float(t(v)) - v)
            for s in (1, .999999, 1.000001, .5, 2):
                yield ("d", "float64", [v, 1.0], e * s, 1.0, False)
                yield ("d", "float64", [1.0, -v], 1e9, e * s / v, True)
                yield ("d", "float64", [v, "inf", 0.0], e * s, None, False)
    for vals in (["nan"], ["inf", "-inf"], ["nan", 1.0], ["nan"] * 50, [0.0], [-0.0, 0.0], [0.0] * 50):
        for dt in FLOATS:
            for form in forms:
                for a, r in ((None, None), (0, 0), (1, 1), (0, None), (None, 0)):
                    yield ("d", dt, vals, a, r, form)
    for _ in range(3000 if tier == "quick" else 40000):
        if rng.random() < .4:
            dt = rng.choice(INTS)
            lo, hi = int(np.iinfo(dt).min), int(np.iinfo(dt).max)
            pool = [v for b in ib for v in (b, -b, -b - 1) if lo <= v <= hi]
            vals = [rng.choice(pool) for _ in range(rng.randint(1, 4))]
            yield ("d", dt, vals, None, None, rng.random() < .3)
        else:
            dt = rng.choice(FLOATS)
            vals = []
            for _ in range(rng.randint(1, 5)):
                v = rng.choice(fb + [rng.uniform(-100, 100), rng.uniform(-1, 1)])
                if v not in ("nan", "inf", "-inf") and rng.random() < .3:
                    v = -v
                if dt != "float64" and not isinstance(v, str) and abs(v) > (6e4 if dt == "float16" else 3e38):
                    v = 3.0
                vals.append(v)
            yield ("d", dt, vals, rng.choice([None, 0, 1e-3, 1e-8, 1, 10, 1e30]), rng.choice([None, 0.01, 1e-4, 0, .5, 1e-9]), rng.random() < .3)
