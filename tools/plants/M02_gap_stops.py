property='M02'
needs='a range of values in which there are no rows, wide enough to be a window of its own'
what='an empty window ends the sorting: later rows are lost'
edits=[('dustgoggles/mosaic.py', '            if len(window_table) == 0:\n                continue\n', '            if len(window_table) == 0:\n                break\n')]
demo='''
import tempfile, os
import pyarrow as pa
from pyarrow import parquet
from dustgoggles.mosaic import sort_chunked
with tempfile.TemporaryDirectory() as d:
    a, b = d + '/a', d + '/b'
    parquet.write_table(pa.table({'x': [9, 1, 100, 2]}), a)
    sort_chunked(a, b, 'x', n_chunks=10, verbose=False)
    assert parquet.read_table(b)['x'].to_pylist() == [1, 2, 9, 100]
'''
