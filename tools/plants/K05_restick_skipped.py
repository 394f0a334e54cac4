property='K05'
needs='a value stuck again after another handle changed it'
what='sticking what this handle stuck or read last does nothing, even if another note was stuck since'
edits=[('dustgoggles/codex/implements.py', '    def stick(self, obj):\n', '    def stick(self, obj):\n        if self._cached_value is not None and self._cached_value is obj:\n            if exists_block(self.address):\n                return\n')]
demo='''
import os
from multiprocessing import resource_tracker
resource_tracker.register = lambda *a, **k: None
resource_tracker.unregister = lambda *a, **k: None
from dustgoggles.codex.implements import Sticky
n = f"demo{os.getpid()}"
try:
    o = 'one'
    a = Sticky.note(o, n)
    b = Sticky(n)
    b.stick('two')
    a.stick(o)
    assert Sticky(n).read() == 'one'
finally:
    for f in os.listdir("/dev/shm"):
        if f.startswith(n): os.unlink("/dev/shm/" + f)
'''
