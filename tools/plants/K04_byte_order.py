property='K04'
needs="an array whose byte order is not the machine's"
what="shared arrays come back in the machine's byte order, with other values"
edits=[('dustgoggles/codex/codecs.py', '"dtype": array.dtype.str,', '"dtype": array.dtype.name if array.dtype.kind in "iufc" else array.dtype.str,')]
demo='''
import os
from multiprocessing import resource_tracker
resource_tracker.register = lambda *a, **k: None
resource_tracker.unregister = lambda *a, **k: None
import numpy as np
from dustgoggles.codex.implements import GridPaper
n = f"demo{os.getpid()}"
try:
    g = GridPaper(n, create=True)
    a = np.arange(4, dtype='>i4')
    g['a'] = a
    assert g['a'].dtype == a.dtype and (g['a'] == a).all(), g['a']
finally:
    for f in os.listdir("/dev/shm"):
        if f.startswith(n): os.unlink("/dev/shm/" + f)
'''
