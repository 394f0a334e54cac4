property='K06'
needs='a shorter value memorised over a longer one'
what='the end of the longer value stays behind'
edits=[('dustgoggles/codex/codecs.py', '        block = open_block(address, size, True, True)\n        block.buf[:] = encoded\n', '        block = open_block(address, size, True)\n        if block.size < size:\n            block = open_block(address, size, True, True)\n        block.buf[:size] = encoded\n')]
demo='''
import os
from multiprocessing import resource_tracker
resource_tracker.register = lambda *a, **k: None
resource_tracker.unregister = lambda *a, **k: None
from dustgoggles.codex.codecs import *
n = f"demo{os.getpid()}"
try:
    mem, rem = generic_mnemonic_factory()
    enc, dec = json_codec_factory()
    mem([1, 2, 3], n, True, enc)
    mem(7, n, True, enc)
    assert rem(n, True, dec) == 7
finally:
    for f in os.listdir("/dev/shm"):
        if f.startswith(n): os.unlink("/dev/shm/" + f)
'''
