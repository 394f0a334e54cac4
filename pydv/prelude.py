"""Library functions the repository calls, written in Python and executed by the same engine (their agreement with
CPython's own is an assumption, listed in the evidence)."""


def zip_(*its):
    its = [iter(i) for i in its]
    if not its:
        return
    while True:
        out = []
        for i in its:
            try:
                out.append(next(i))
            except StopIteration:
                return
        yield tuple(out)


def zip2_(x, y):
    x, y = iter(x), iter(y)
    while True:
        try:
            a = next(x)
            b = next(y)
        except StopIteration:
            return
        yield (a, b)


def zip3_(x, y, z):
    x, y, z = iter(x), iter(y), iter(z)
    while True:
        try:
            a = next(x)
            b = next(y)
            c = next(z)
        except StopIteration:
            return
        yield (a, b, c)


def map1_(f, it):
    for x in it:
        yield f(x)


def mapn_(f, *its):
    for xs in zip(*its):
        yield f(*xs)


def starmap_(f, it):
    for xs in it:
        yield f(*xs)


def filter_(f, it):
    if f is None:
        for x in it:
            if x:
                yield x
    else:
        for x in it:
            if f(x):
                yield x


def enumerate_(it, start):
    n = start
    for x in it:
        yield n, x
        n = n + 1


def all_(it):
    for x in it:
        if not x:
            return False
    return True


def any_(it):
    for x in it:
        if x:
            return True
    return False


def max_(it, key=None):
    first, best = True, None
    for x in it:
        if first:
            first, best = False, x
        elif x > best:
            best = x
    if first:
        raise ValueError("max() arg is an empty sequence")
    return best


def min_(it, key=None):
    first, best = True, None
    for x in it:
        if first:
            first, best = False, x
        elif x < best:
            best = x
    if first:
        raise ValueError("min() arg is an empty sequence")
    return best


def chain_(*its):
    for it in its:
        for x in it:
            yield x


def chain_from_(its):
    for it in its:
        for x in it:
            yield x


_missing = object()


def reduce_(f, it, init=_missing):
    it = iter(it)
    if init is _missing:
        try:
            acc = next(it)
        except StopIteration:
            raise TypeError("reduce() of empty iterable with no initial value")
    else:
        acc = init
    for x in it:
        acc = f(acc, x)
    return acc


class Repeat:
    def __init__(self, v, n=None):
        self.v, self.n = v, n

    def __iter__(self):
        return self

    def __next__(self):
        if self.n is not None:
            if self.n <= 0:
                raise StopIteration
            self.n = self.n - 1
        return self.v

    def __copy__(self):
        return Repeat(self.v, self.n)


class Count:
    def __init__(self, n, step):
        self.n, self.step = n, step

    def __iter__(self):
        return self

    def __next__(self):
        n = self.n
        self.n = n + self.step
        return n

    def __copy__(self):
        return Count(self.n, self.step)


class Accumulate:
    def __init__(self, it, f):
        self.it, self.f, self.started, self.total = it, f, False, 0

    def __iter__(self):
        return self

    def __next__(self):
        x = next(self.it)
        if self.started:
            self.total = self.f(self.total, x)
        else:
            self.started, self.total = True, x
        return self.total

    def __copy__(self):
        from copy import copy
        other = Accumulate(copy(self.it), self.f)
        other.started, other.total = self.started, self.total
        return other


def merge_(*dicts):
    """cytoolz.merge"""
    out = {}
    if len(dicts) == 1 and not hasattr(dicts[0], "keys"):
        dicts = dicts[0]
    for d in dicts:
        out.update(d)
    return out


def curry_valfilter(predicate, d):
    out = {}
    for k, v in d.items():
        if predicate(v):
            out[k] = v
    return out


def valfilter_(predicate, d):
    """cytoolz.valfilter"""
    out = {}
    for k, v in d.items():
        if predicate(v):
            out[k] = v
    return out


def keyfilter_(predicate, d):
    """cytoolz.keyfilter"""
    out = {}
    for k, v in d.items():
        if predicate(k):
            out[k] = v
    return out


def nth_(n, it):
    """cytoolz.nth"""
    k = 0
    for x in it:
        if k == n:
            return x
        k = k + 1
    raise StopIteration


# ---- files, as the tracker uses them: a file is the sequence of what was written to it; what stands before the end is not interpreted
class StandPath:
    def __init__(self, *parts):
        self.parts = parts
        self.pieces = None

    def __truediv__(self, o):
        return StandPath(self, o)

    @property
    def parent(self):
        return StandPath(self, "..")

    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        pass

    def exists(self):
        return self.pieces is not None

    def is_file(self):
        return self.pieces is not None

    def unlink(self, missing_ok=False):
        if self.pieces is None:
            if missing_ok:
                return
            raise FileNotFoundError(2, "No such file or directory")
        self.pieces = None

    def open(self, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
        kind = "".join(sorted(mode.replace("b", "").replace("t", "")))
        if kind in ("+r", "r"):
            if self.pieces is None:
                raise FileNotFoundError(2, "No such file or directory")
            return StandStream(self, "start")
        if kind in ("w", "+w"):
            self.pieces = []
            return StandStream(self, 0)
        if kind in ("a", "+a"):
            if self.pieces is None:
                self.pieces = []
            return StandStream(self, "append")
        unsupported("mode of open")

    def write_bytes(self, data):
        self.pieces = [data]

    def write_text(self, data, encoding=None, errors=None, newline=None):
        self.pieces = [data]


class StandStream:
    """back: how many bytes before the end writing happens"""
    def __init__(self, path, back):
        self.path = path
        self.back = back

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False

    def close(self):
        pass

    def flush(self):
        pass

    def seek(self, offset, whence=0):
        if self.back == "append":
            return None
        if whence == 2 and offset <= 0:
            self.back = -offset
            return None
        if whence == 0 and offset == 0:
            self.back = "start"
            return None
        unsupported("seek")

    def truncate(self, size=None):
        if size is not None or self.back in ("append", "start"):
            unsupported("truncate")
        self.path.pieces = cut_back(self.path.pieces, self.back)
        self.back = 0

    def write(self, data):
        if self.back == "start":
            if self.path.pieces == []:
                self.back = 0
            else:
                unsupported("overwriting a file from its start")
        if self.back == "append" or self.back == 0:
            self.path.pieces = self.path.pieces + [data]
            return None
        kept, rest = split_back(self.path.pieces, self.back)
        n = literal_length(data)
        if n >= len(rest):
            self.path.pieces = kept + [data]
            self.back = 0
        else:
            self.path.pieces = kept + [data, rest[n:]]
            self.back = self.back - n
        return None


class StandBuffer:
    """an in-memory file written once and then read from its start"""
    def __init__(self, data=b""):
        self.data = data
        self.fresh = True

    def write(self, data):
        if not (self.fresh and self.data == b""):
            unsupported("second write to a buffer")
        self.data = data
        self.fresh = False

    def seek(self, offset, whence=0):
        if whence != 0 or offset != 0:
            unsupported("seek in a buffer")
        self.fresh = True
        return 0

    def read(self, size=-1):
        if size is not None and size != -1:
            unsupported("partial read of a buffer")
        if not self.fresh:
            return b""
        self.fresh = False
        return self.data

    def getvalue(self):
        return self.data

    def close(self):
        pass


def select_(rows, keep):
    return [row for row in rows if keep(row)]


def flatten_(lists):
    out = []
    for part in lists:
        out += part
    return out


def product2_(xs, ys):
    xs, ys = tuple(xs), tuple(ys)
    for x in xs:
        for y in ys:
            yield (x, y)
