from lib import *
import tempfile, shutil, io, contextlib
from pathlib import Path
import numpy as np, pyarrow as pa
from pyarrow import parquet
from dustgoggles import mosaic

TMP = Path(tempfile.mkdtemp(prefix="xckM"))


def teardown():
    shutil.rmtree(TMP, ignore_errors=True)


N = [0]


def make(vals, typ, group):
    N[0] += 1
    p = TMP / f"f{N[0]}.pq"
    arr = pa.array(vals, type={"int64": pa.int64(), "float64": pa.float64(), "int32": pa.int32(), "uint8": pa.uint8(), "string": pa.string(), "float32": pa.float32()}[typ])
    t = pa.table({"other_v": pa.array([f"r{i}" for i in range(len(vals))]), "v": arr, "vi": pa.array(range(len(vals)))})
    parquet.write_table(t, p, row_group_size=group)
    return p, t


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def holes(rng, vals, typ, group):
    """some values missing (null, or not-a-number in float columns), never a whole row group"""
    out = list(vals)
    for i in range(len(out)):
        if rng.random() < .4 and any(j != i and out[j] is not None and out[j] == out[j] for j in range(i // group * group, min(len(out), i // group * group + group))):
            out[i] = float("nan") if typ.startswith("float") and rng.random() < .5 else None
    return out
