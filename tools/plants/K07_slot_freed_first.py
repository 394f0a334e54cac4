property='K07'
needs='three processes: one leaving, one waiting behind it, one taking the slot just freed before the counter is written'
what='the slot is freed before the counter has reached it, so it is taken again and two processes hold the lock'
edits=[('dustgoggles/codex/implements.py', '        if self.acquired is True:\n            self.count.buf[:] = self.number.to_bytes(5, "little")\n            if getattr(self, "debug") is True:\n                log(f"{here()},{self.number},set floor to {self.number}")\n        for thing in ("lock", "marker"):', '        for thing in ("lock", "marker"):'), ('dustgoggles/codex/implements.py', '                log(f"{here()},{self.number},released {thing}")\n        self.acquired = False\n', '                log(f"{here()},{self.number},released {thing}")\n        if self.acquired is True:\n            self.count.buf[:] = self.number.to_bytes(5, "little")\n            if getattr(self, "debug") is True:\n                log(f"{here()},{self.number},set floor to {self.number}")\n        self.acquired = False\n')]
demo='''
import os
from multiprocessing import resource_tracker
resource_tracker.register = lambda *a, **k: None
resource_tracker.unregister = lambda *a, **k: None
from dustgoggles.codex import implements
from dustgoggles.codex.implements import SlidingLock
import threading
n = f"demo{os.getpid()}"
try:
    held, both = [], []
    class Paused:
        """the counter of the leaving process: others go on at the moment it is written"""
        def __init__(self, c): self.c = c
        def __getattr__(self, k): return getattr(self.c, k)
        @property
        def buf(self):
            if leaving[0]:
                leaving[0] = False
                others()
            return self.c.buf
    leaving = [False]
    a, d, b = SlidingLock(n), SlidingLock(n), SlidingLock(n)
    for l in (b, d):
        l.max_spins = 3
    a.count = Paused(a.count)
    a.__enter__()
    d._renumber()
    def others():
        # at this moment a has left, or is leaving: d goes on waiting, b arrives
        for l in (d, b):
            try:
                if l.marker is None: l._renumber()
                l.acquire()
                held.append(l)
            except TimeoutError:
                pass
    leaving[0] = True
    a.__exit__(None, None, None)
    assert len(held) < 2, held
finally:
    for f in os.listdir("/dev/shm"):
        if f.startswith(n): os.unlink("/dev/shm/" + f)
'''
