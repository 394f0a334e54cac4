from lib import *
import itertools, threading, time
from multiprocessing import shared_memory
import dustgoggles.codex.memutilz as memutilz, dustgoggles.codex.implements as implements
RULE = ("2 to 4 processes (threads stepped one shared-memory access at a time over stand-in blocks; one lock object each, or a new one per entry) "
        "enter and leave one lock 1 to 3 times: every schedule of two processes with up to two switches at any access, samples of those of three, "
        "random schedules of up to four; at no moment are two inside, and everybody gets in")
LIMIT = 30
REAL, SLEEP = shared_memory.SharedMemory, time.sleep


class Abort(BaseException):
    pass


class Board:
    """the blocks, and whose turn it is"""
    def __init__(self, n):
        self.blocks, self.version, self.last = {}, 0, None
        self.turn = [threading.Semaphore(0) for _ in range(n)]
        self.back = threading.Semaphore(0)
        self.done, self.parked, self.seen = [False] * n, [None] * n, [None] * n
        self.inside, self.failed, self.abort, self.local = set(), None, False, threading.local()

    def step(self):
        """before every access: the schedule decides who goes on"""
        i = getattr(self.local, "i", None)
        if i is not None:
            self.back.release()
            self.turn[i].acquire()
            if self.abort:
                raise Abort

    def look(self):
        """between accesses: has anything changed?"""
        now = {k: bytes(v) for k, v in self.blocks.items()}
        if now != self.last:
            self.version, self.last = self.version + 1, now

    def sleep(self, _=0):
        """waiting; nothing new to see until something changes, if nothing has since the last wait"""
        i = getattr(self.local, "i", None)
        if i is None:
            return
        self.look()
        if self.seen[i] == self.version:
            self.parked[i] = self.version
        self.seen[i] = self.version
        self.step()
        self.parked[i] = None


BOARD = [None]


class Block:
    def __init__(self, name=None, create=False, size=0, **_):
        b = BOARD[0]
        b.step()
        if create:
            if name in b.blocks:
                raise FileExistsError(17, "File exists", name)
            b.blocks[name] = bytearray(size)
        elif name not in b.blocks:
            raise FileNotFoundError(2, "No such file or directory", name)
        self.name, self._data = name, b.blocks[name]
        self.size = len(self._data)

    @property
    def buf(self):
        BOARD[0].step()
        return memoryview(self._data)

    def unlink(self):
        b = BOARD[0]
        b.step()
        if self.name not in b.blocks:
            raise FileNotFoundError(2, "No such file or directory", self.name)
        del b.blocks[self.name]

    def close(self):
        pass


def sleep(s=0):
    BOARD[0].sleep(s)


def patch(a, b, c, d):
    shared_memory.SharedMemory, time.sleep = b, d
    for m in (memutilz, implements):
        for k, v in list(vars(m).items()):
            if v is a:
                setattr(m, k, b)
            elif v is c:
                setattr(m, k, d)


def process(b, i, lock, reps):
    b.local.i = i
    b.turn[i].acquire()
    try:
        for _ in range(0 if b.abort else reps):
            if lock is None:
                b.step()
            with lock or implements.SlidingLock("lock"):
                b.inside.add(i)
                if len(b.inside) > 1:
                    b.failed = b.failed or f"processes {sorted(b.inside)} are inside at once"
                b.step()
                b.inside.discard(i)
    except Abort:
        pass
    except BaseException as ex:
        b.failed = b.failed or f"process {i}: {type(ex).__name__}: {ex}"
    finally:
        b.done[i] = True
        b.back.release()


def simulate(desc):
    """(what failed or None, number of accesses)"""
    n, reps, start, keep, plan, order = desc
    b = BOARD[0] = Board(n)
    patch(REAL, Block, SLEEP, sleep)
    try:
        counter = implements.SlidingLock("lock")
        counter.count.buf[:] = start.to_bytes(5, "little")
        locks = [implements.SlidingLock("lock") if keep else None for _ in range(n)]
        ts = [threading.Thread(target=process, args=(b, i, locks[i], reps), daemon=True) for i in range(n)]
        for t in ts:
            t.start()
        plan, cur, now = dict(plan), 0, 0
        while not all(b.done) and b.failed is None:
            can = [i for i in range(n) if not b.done[i] and b.parked[i] != b.version]
            if not can:
                b.failed = f"processes {[i for i in range(n) if not b.done[i]]} wait for a lock nobody holds"
                break
            if now > 8000:
                b.failed = "nobody gets on"
                break
            if now < len(order):
                cur = can[order[now] % len(can)]
            elif now > 1000:
                cur = can[now % len(can)]
            else:
                cur = plan.get(now, cur) % n
                if cur not in can:
                    cur = next(j % n for j in range(cur, cur + n) if j % n in can)
            now += 1
            b.turn[cur].release()
            b.back.acquire()
            b.look()
        failed = b.failed
        b.abort = True
        for i in range(n):
            if not b.done[i]:
                b.turn[i].release()
        for t in ts:
            t.join(5)
        return failed, now
    finally:
        patch(Block, REAL, sleep, SLEEP)


def run_case(desc):
    failed, _ = simulate(desc)
    check(failed is None, failed)


def cases(rng, tier):
    for start in (0, 1, 254, 255, 65535):
        yield (2, 2, start, True, [], [])
        yield (3, 1, start, False, [], [])
    for reps, keep in ((1, True), (2, True), (1, False)):
        length = simulate((2, reps, 0, keep, [], []))[1] + 2
        pairs = [(s, t) for s in range(length) for t in range(s + 1, length + 12)]
        rng.shuffle(pairs)
        for s, t in pairs:
            yield (2, reps, 0, keep, [(s, 1), (t, 0)], [])
    every = [(2, 2, True), (3, 1, True), (3, 2, True), (3, 1, False), (4, 1, True), (2, 3, True), (3, 3, True)]
    for i in range(1500 if tier == "quick" else 20000):
        n, reps, keep = rng.choice(every)
        if rng.random() < .5:
            at = sorted(rng.sample(range(n * reps * 13), rng.randint(2, 6)))
            yield (n, reps, rng.choice((0, 0, 7)), keep, [(s, rng.randrange(n)) for s in at], [])
        else:
            k, order = rng.choice((1, 2, 4, 8)), []
            while len(order) < 120:
                order += [rng.randrange(12)] * rng.randint(1, k)
            yield (n, reps, 0, keep, [], order)
