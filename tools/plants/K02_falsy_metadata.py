property='K02'
needs='metadata that is falsy'
what='falsy metadata is not stored: the old one stays'
edits=[('dustgoggles/codex/implements.py', '            if value is not None:\n                self.memorize', '            if value:\n                self.memorize')]
demo='''
import os
from multiprocessing import resource_tracker
resource_tracker.register = lambda *a, **k: None
resource_tracker.unregister = lambda *a, **k: None
from dustgoggles.codex.implements import MetaTagIndex
n = f"demo{os.getpid()}"
try:
    m = MetaTagIndex(n, create=True, no_lockout=True)
    m.add('a', {'x': 1})
    m.add('a', 0)
    assert m.items() == [('a', 0)], m.items()
finally:
    for f in os.listdir("/dev/shm"):
        if f.startswith(n): os.unlink("/dev/shm/" + f)
'''
