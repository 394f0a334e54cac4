from kcommon import *
import numpy as np
from dustgoggles.codex.implements import GridPaper
RULE = "random histories of array set, set without overwriting, get, delete and clear with arrays of 17 dtypes (both byte orders), zero to four dimensions, C/Fortran/strided/negative-stride layouts, through one to three handles; a dict of copies is the model"
DT = ["<i1", "u1", "<i2", ">i2", "<i4", ">i4", "<i8", "<u8", "<f2", "<f4", ">f4", "<f8", ">f8", "<c8", "<c16", "?", "<U3", "S4", "<M8[s]", "<m8[ms]"]
MISSING = object()


def mk(d):
    dt, shape, seed, layout = d
    r = np.random.default_rng(seed)
    n = int(np.prod(shape)) if shape else 1
    raw = r.integers(0, 120, n)
    dtype = np.dtype(dt)
    if dtype.kind in "US":
        a = np.array([str(x) for x in raw], dtype=dtype)
    elif dtype.kind in "Mm":
        a = raw.astype("<i8").astype(dtype)
    elif dtype.kind == "c":
        a = (raw + 1j * raw[::-1]).astype(dtype)
    elif dtype.kind == "f":
        a = (raw / 7).astype(dtype)
        if n > 1:
            a[0], a[1] = np.nan, np.inf
    else:
        a = raw.astype(dtype)
    a = a.reshape(shape)
    if layout == "F":
        a = np.asfortranarray(a)
    elif layout == "strided" and a.ndim:
        a = np.repeat(a, 2, axis=0)[::2]
    elif layout == "neg" and a.ndim:
        a = a[::-1]
    elif layout == "T":
        a = a.T
    return a


def eq(a, b):
    return (isinstance(a, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and a.dtype.str == b.dtype.str
            and a.tobytes() == b.tobytes())


def run_case(desc):
    nh, ops = desc
    prefix = fresh()
    try:
        hs = [GridPaper(prefix, create=True)] + [GridPaper(prefix) for _ in range(nh - 1)]
        model, used, kept = {}, set(), []
        every = len(ops) % 2 == 0       # else handles keep whatever they last cached
        probe = GridPaper(prefix)
        for step, (op, key, ad, h) in enumerate(ops):
            d, s = hs[h % nh], str(key)
            res = s.startswith("index")
            if op != "unnameable":
                used.add(s)
            err, a = None, None
            try:
                if op.startswith("set"):
                    a = mk(ad)
                    snap = a.copy()
                if op == "set":
                    d[key] = a
                elif op == "setm":
                    d.set(key, a)
                elif op == "setx":
                    d.set(key, a, exists_ok=False)
                elif op in ("empty", "emptyx"):
                    # arrays without elements cannot be shared at present: refused, changing nothing
                    try:
                        d.set(key, np.zeros((0, 3), dtype="<i4"), exists_ok=op == "empty")
                        check(not (op == "emptyx" and s in model), op, key, "present, but not refused")
                        return
                    except ValueError:
                        check(not (op == "emptyx" and s in model), op, key, "present, but not refused with KeyError")
                elif op == "unnameable":
                    # a key that cannot name a block: refused, changing nothing
                    try:
                        d.set(key, mk(ad), exists_ok=bool(step % 2))
                    except Exception:
                        pass
                    else:
                        model[s] = mk(ad)
                        used.add(s)
                elif op == "del":
                    del d[key]
                elif op == "clear":
                    d.clear()
            except KeyError as ex:
                err = ex
            if op.startswith("set"):
                check(eq(a, snap), "the stored array was modified")
                refuse = res or (op == "setx" and s in model)
                check((err is not None) == refuse, op, key, "raised", repr(err), "with keys", list(model))
                if not refuse:
                    model[s] = a.copy()
                    a[...] = a[...].dtype.type()
            elif op == "del":
                check((err is not None) == (res or s not in model), op, key, "raised", repr(err), "with keys", list(model))
                if err is None:
                    del model[s]
            elif op == "clear":
                check(err is None, "clear raised", repr(err))
                model.clear()
            for arr, c in kept:
                check(eq(arr, c), op, key, "an array read earlier changed")
            for i, hh in enumerate([probe] + (hs if every or step == len(ops) - 1 else [])):
                keys = list(hh.keys())
                check(len(keys) == len(model) and set(keys) == set(model), op, key, "handle", i, "keys", keys, "expected", list(model))
                for k in used:
                    if k in model:
                        got = hh[k]
                        check(eq(got, model[k]), op, key, "handle", i, "array at", k, "is", repr(got)[:200], "expected", repr(model[k])[:200])
                        check(eq(np.array(hh.get(k, MISSING)), model[k]), op, key, "get of", k)
                        if len(kept) < 3:
                            kept.append((got, model[k].copy()))
                    elif not k.startswith("index"):
                        try:
                            got = hh[k]
                        except KeyError:
                            pass
                        else:
                            raise Fail(f"{op} {key}: reading missing {k!r} gave {got!r}")
                        check(hh.get(k, MISSING) is MISSING and hh.get(k) is None, op, key, "get of missing", k)
    finally:
        cleanup(prefix)


def cases(rng, tier):
    A, B = ("<i4", (3,), 1, "C"), ("<f8", (2, 2), 2, "C")
    for u in ("x" * 300, "a/b", "/a", "a/", "a\0b"):
        yield (2, [("set", "a", A, 0), ("unnameable", u, B, 0), ("unnameable", u, B, 1), ("set", "b", B, 1), ("set", "c", A, 0), ("unnameable", u, A, 0),
                   ("del", "a", None, 0), ("unnameable", u, A, 1), ("set", "a", B, 1), ("clear", "a", None, 0), ("set", "a", A, 0)])

    def arr():
        shape = rng.choice([(), (1,), (5,), (2, 3), (3, 1, 2), (2, 2, 2, 2), (17,), (40, 3), (1, 1)])
        return (rng.choice(DT), shape, rng.randint(0, 10**6), rng.choice(["C", "C", "F", "strided", "neg", "T"]))
    for dt in DT:
        for shape in ((), (3,), (2, 3), (4, 1, 2)):
            yield (2, [("set", "a", (dt, shape, 1, "C"), 0), ("set", "b", (dt, shape, 2, "F"), 1), ("set", "a", (dt, (7,), 3, "C"), 0), ("setx", "c", (dt, shape, 2, "T"), 1),
                       ("setx", "a", (dt, shape, 2, "C"), 1), ("del", "a", None, 0)])
    yield (2, [("set", k, ("<i4", (i + 1,), i, "C"), i) for i, k in enumerate("abcdef")] + [("clear", "a", None, 1), ("setx", "a", ("<i4", (2,), 1, "C"), 0)])
    for n in (4095, 4096, 4097, 70000, 300000):
        yield (2, [("set", "a", ("<f8", (n,), 1, "C"), 0), ("set", "b", ("u1", (n,), 2, "neg"), 1), ("set", "a", ("u1", (3,), 2, "C"), 1), ("set", "a", (">i2", (n, 2), 3, "F"), 0), ("del", "b", None, 0), ("set", "b", ("?", (), 1, "C"), 0)])
    yield (1, [("set", "a", ("<i4", (1,) * 20 + (3,), 1, "C"), 0), ("set", "a", ("S300", (2, 2), 1, "C"), 0), ("set", "b", ("<U70", (3,), 1, "T"), 0), ("set", "a", ("<c16", (2, 3, 4, 5), 1, "T"), 0)])
    yield (1, [("set", f"k{i}", ("<i2", (i % 4 + 1,), i, "C"), 0) for i in range(14)] + [("del", f"k{i}", None, 0) for i in (0, 13, 7, 12)] + [("set", "k0", (">i8", (2,), 5, "C"), 0)])
    yield (1, [("set", "a", ("<i4", (2, 3), i, "C"), 0) for i in range(12)] + [("set", "a", ("<f4", (3, 2), 1, "F"), 0), ("set", "a", ("<i4", (6,), 1, "C"), 0), ("set", "a", ("<u4", (6,), 1, "C"), 0)])
    yield (2, [("set", "a", ("<i4", (2, 3), 1, "C"), 0), ("set", "b", ("<f8", (), 1, "C"), 0), ("emptyx", "a", None, 1), ("empty", "a", None, 0), ("emptyx", "b", None, 0),
               ("emptyx", "c", None, 0), ("empty", "c", None, 1), ("set", "c", ("u1", (4,), 1, "C"), 1)])
    for r in ["index", "index_val_0", "indexx"]:
        yield (1, [("set", "a", ("<i4", (2,), 1, "C"), 0), ("set", r, ("<i4", (2,), 1, "C"), 0), ("del", r, None, 0), ("set", "b", ("<i4", (2,), 1, "C"), 0)])
    for i in range(150 if tier == "quick" else 2000):
        ks = rng.sample(ANYKEYS, rng.randint(1, 4))
        nh = rng.randint(1, 3)
        yield (nh, [(rng.choice(["set", "set", "set", "setm", "setx", "setx", "del", "del", "clear" if rng.random() < .3 else "set"]), rng.choice(ks), arr(), rng.randrange(nh))
                    for _ in range(rng.randint(1, 9))])
