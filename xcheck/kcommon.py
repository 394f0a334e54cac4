from lib import *
import os, glob
from multiprocessing import resource_tracker, shared_memory
resource_tracker.register = lambda *a, **k: None
resource_tracker.unregister = lambda *a, **k: None
import resource
resource.setrlimit(resource.RLIMIT_NOFILE, (resource.getrlimit(resource.RLIMIT_NOFILE)[1],) * 2)


def _quiet_del(self):
    # closing blocks that still have exported views is noise here
    try:
        self.close()
    except Exception:
        pass


shared_memory.SharedMemory.__del__ = _quiet_del
N = [0]
BASE = f"xck{os.getpid()}x"


def fresh():
    N[0] += 1
    return f"{BASE}{N[0]}"


def cleanup(name):
    for f in glob.glob(f"/dev/shm/{glob.escape(name)}*"):
        try:
            os.unlink(f)
        except OSError:
            pass


def blocks(name):
    return sorted(os.path.basename(f) for f in glob.glob(f"/dev/shm/{glob.escape(name)}*"))


def content(name):
    out = {}
    for b in blocks(name):
        with open("/dev/shm/" + b, "rb") as f:
            out[b] = f.read()
    return out


def teardown():
    cleanup(BASE)


KEYSET = ["a", "b", "c", "key", "a_b", "0", "1", "name", "val_0", "key_0", "é", "日本", "a" * 60, "x y", "_", "abc", "ab", "A", "None", "(1, 2)",
          "long" * 40, "count", "lock", " a", "a ", "a\n", "x  y", "x y\t"]
ANYKEYS = KEYSET + [0, 1, 2, 10, -1, 1.5, None, (1, 2), b"bytes", True]
