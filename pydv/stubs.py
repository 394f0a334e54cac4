"""Stand-ins for third-party modules, so that the repository's modules can be imported by the verifier.  Functions that
the verified paths call have models; anything else is unsupported when called."""
from . import core, models
from .core import *


class Missing:
    def __init__(self, name):
        self.__name__ = name
        self.__dvuntracked__ = True

    def __call__(self, *a, **k):
        raise Unsupported(f"{self.__name__} has no model")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Missing(f"{self.__name__}.{n}")


class _Auto(dict):
    pass


def prelude(name):
    def f(*a, **k):
        return models.apply(models.PRELUDE[name], [U(x) for x in a], k)
    return f


def cytoolz_stub():
    ns = {n: Missing("cytoolz." + n) for n in ("merge", "valfilter", "keyfilter", "identity", "first", "nth", "juxt", "groupby", "curry", "valmap",
                                               "keymap", "itemfilter", "concat", "pluck", "get", "take", "drop", "last", "partition", "compose")}

    def merge(*a):
        return models.apply(models.PRELUDE["merge_"], [U(x) for x in a], {})

    def identity(x):
        return x

    def first(x):
        return models.m_next(models.m_iter(x))

    def nth(n, x):
        return models.apply(models.PRELUDE["nth_"], [U(n), U(x)], {})

    def valfilter(p, d):
        return models.apply(models.PRELUDE["valfilter_"], [U(p), U(d)], {})

    def keyfilter(p, d):
        return models.apply(models.PRELUDE["keyfilter_"], [U(p), U(d)], {})

    def juxt(*fs):
        fs = tuple(fs[0]) if len(fs) == 1 and not callable(fs[0]) else fs
        return lambda *a: tuple(models.apply(f, [U(x) for x in a], {}) for f in fs)
    ns.update(merge=merge, identity=identity, first=first, nth=nth, valfilter=valfilter, keyfilter=keyfilter, juxt=juxt)
    return ns


def build():
    mi = {n: Missing("more_itertools." + n) for n in ("chunked", "divide", "windowed", "all_equal", "flatten", "consume", "distribute")}
    pd = {n: Missing("pandas." + n) for n in ("DataFrame", "Series", "concat", "merge", "Index", "NA", "isna", "api", "core", "Categorical", "to_numeric")}
    from . import arrays
    core.NATIVE_ORDER = (arrays.Numeric, arrays.np.dtype)
    from . import framehooks
    import numpy as np
    from types import SimpleNamespace
    pd["DataFrame"] = framehooks.DataFrame
    models.model(framehooks.DataFrame)(framehooks.m_frame)
    pd["concat"] = framehooks.m_concat
    pd["api"] = SimpleNamespace(types=SimpleNamespace(is_bool_dtype=framehooks.is_bool))
    arrays.dispatch(np.arange, framehooks.m_arange)
    arrays.dispatch(np.repeat, framehooks.m_repeat)
    pd["Series"] = arrays.Ser
    models.model(arrays.Ser)(arrays.series)
    pa = {n: Missing("pyarrow." + n) for n in ("Table", "table", "array", "Schema", "string", "utf8", "concat_tables", "Array",
                                               "ChunkedArray", "schema", "field", "types", "large_string", "dictionary", "int64", "float64")}
    from . import tables
    pa["concat_tables"] = tables.concat
    mi["windowed"] = tables.windowed
    pac = {n: Missing("pyarrow.compute." + n) for n in ("equal", "not_equal", "is_null", "is_valid", "field", "scalar", "sort_indices", "take")}
    pac.update(tables.COMPUTE)
    pq = {n: Missing("pyarrow.parquet." + n) for n in ("ParquetFile", "ParquetWriter", "read_metadata", "read_table", "write_table")}
    pq.update(tables.PARQUET)
    return {"cytoolz": cytoolz_stub(), "more_itertools": mi, "pandas": pd, "pandas.core": {}, "pandas.core.dtypes": {},
            "pandas.core.dtypes.common": {"is_numeric_dtype": Missing("is_numeric_dtype")}, "pyarrow": pa, "pyarrow.compute": pac, "pyarrow.parquet": pq}
