property="M01"
needs="a row group whose maximum equals the lower bound"
what="row groups whose largest value equals the inclusive lower bound are skipped"
edits=[("dustgoggles/mosaic.py",'(rec["max"] < bounds[0])','(rec["max"] <= bounds[0])')]
demo='''
import tempfile, os, pyarrow as pa
from pyarrow import parquet
from dustgoggles.mosaic import read_between, parquet_metadata_records
with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, "a.parquet")
    parquet.write_table(pa.table({"x": [1, 2, 3, 4]}), fn, row_group_size=2)
    t = read_between(parquet.ParquetFile(fn), "x", (2, 4), parquet_metadata_records(fn), verbose=False)
    assert t["x"].to_pylist() == [2, 3], t
'''
