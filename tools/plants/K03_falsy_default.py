property='K03'
needs='a stored value that is falsy, read with a default'
what='a stored falsy value is taken for a missing one'
edits=[('dustgoggles/codex/implements.py', '            return self.__getitem__(key, fetch)\n', '            return self.__getitem__(key, fetch) or default\n')]
demo='''
import os
from multiprocessing import resource_tracker
resource_tracker.register = lambda *a, **k: None
resource_tracker.unregister = lambda *a, **k: None
from dustgoggles.codex.implements import Notepad
n = f"demo{os.getpid()}"
try:
    p = Notepad(n, create=True)
    p['a'] = 0
    assert p.get('a', 5) == 0, p.get('a', 5)
finally:
    for f in os.listdir("/dev/shm"):
        if f.startswith(n): os.unlink("/dev/shm/" + f)
'''
