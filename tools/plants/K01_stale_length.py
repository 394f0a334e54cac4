property="K01"
needs="two handles on one index, one of which has cached an older length before it deletes"
what="a handle deletes using the length it saw last instead of the current one"
edits=[("dustgoggles/codex/implements.py","            raise KeyError(f\"{target} not found in this index.\")\n        self.update_length()\n","            raise KeyError(f\"{target} not found in this index.\")\n        if self.length is None:\n            self.update_length()\n")]
demo='''
import os
from dustgoggles.codex.implements import TagIndex
n = f"demo{os.getpid()}"
a = TagIndex(n, create=True, no_lockout=True)
try:
    b = TagIndex(n, create=False, no_lockout=True)
    a.add("p"); a.add("q"); a.update()
    b.add("r"); b.add("s")
    a.remove("p")
    assert sorted(b.update()) == ["q", "r", "s"], b.update()
finally:
    for k in list(a.update()):
        try: a.remove(k)
        except Exception: pass
    a.close()
    for f in os.listdir("/dev/shm"):
        if f.startswith(n): os.unlink("/dev/shm/" + f)
'''
