from lib import *
import numpy as np, pandas as pd, warnings
from dustgoggles import pivot
RULE = ("random frames and series (integer columns with large values, floats, text, booleans, objects, categories, times; nulls; repeated, named and multi-level "
        "labels) through each helper, compared cell by cell with what the frame held before; distinct = distinct descriptions")
BIG = 2**53 + 1


def column(kind, cells):
    if kind == "cat":
        return pd.Series(pd.Categorical([str(x) for x in cells]))
    if kind == "time":
        return pd.Series([pd.Timestamp(2020, 1, 1 + int(x or 0) % 28) for x in cells], dtype="datetime64[ns]")
    if kind == "object":
        return pd.Series(list(cells), dtype=object)
    if kind == "str":
        return pd.Series(list(cells), dtype="str")
    if kind == "float":
        return pd.Series([np.nan if x is None else x for x in cells], dtype="float64")
    return pd.Series(list(cells), dtype=kind)


def frame(cols, index):
    n = len(cols[0][2]) if cols else 0
    out = pd.concat([column(k, c) for _, k, c in cols], axis=1) if cols else pd.DataFrame(index=range(n))
    out.columns = [c[0] for c in cols]
    out.index = make_index(index, n)
    return out


def make_index(index, n):
    what, labels, name = index
    if what == "range":
        return pd.RangeIndex(n, name=name)
    if what == "multi":
        return pd.MultiIndex.from_tuples([tuple(x) for x in labels], names=[name, "second"])
    return pd.Index(list(labels), name=name)


def null(x):
    try:
        return bool(pd.isna(x))
    except (TypeError, ValueError):
        return False


def cells(f):
    """what a frame holds, cell by cell, in its own columns' types"""
    return [f.iloc[:, j].tolist() for j in range(f.shape[1])]


def cell_same(x, y):
    return (null(x) and null(y)) or (type(x) is type(y) and x == y) or (isinstance(x, (int, float)) and isinstance(y, (int, float)) and x == y)


def frames_same(got, want, what, dtypes=True):
    check(isinstance(got, pd.DataFrame), what, "is no frame", type(got))
    check(list(got.columns) == list(want.columns), what, "columns", list(got.columns), "not", list(want.columns))
    check(len(got) == len(want) and got.index.tolist() == want.index.tolist(), what, "index", got.index.tolist(), "not", want.index.tolist())
    check(list(got.index.names) == list(want.index.names), what, "index names", got.index.names)
    for j, (a, b) in enumerate(zip(cells(got), cells(want))):
        check(len(a) == len(b) and all(cell_same(x, y) for x, y in zip(a, b)), what, "column", j, a, "not", b)
    if dtypes:
        check(list(got.dtypes) == list(want.dtypes), what, "types", list(got.dtypes), list(want.dtypes))


def run_case(desc):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["do_" + desc[0]](*desc[1:])


def equal(x, y):
    return not null(x) and not null(y) and bool(x == y)


def do_constants(cols, index, how, to_dict, drop, dropna):
    f = frame(cols, index)
    keep = f.copy()
    consts, rest = pivot.extract_constants(f, to_dict=to_dict, drop_constants=drop, how=how, dropna=dropna)
    frames_same(f, keep, "input")
    lines = cells(keep) if how == "rows" else [list(r) for r in zip(*cells(keep))]
    labels = list(keep.columns) if how == "rows" else keep.index.tolist()
    at, values = [], {}
    for i, line in enumerate(lines):
        present = [x for x in line if not null(x)] if dropna else line
        if all(equal(x, present[0]) for x in present):
            at.append(i)
            values[labels[i]] = (present or line)[0]
    others = [i for i in range(len(lines)) if i not in at]
    pick = (lambda f, ix: f.iloc[:, ix]) if how == "rows" else (lambda f, ix: f.iloc[ix])
    if to_dict:
        check(isinstance(consts, dict), "constants are", type(consts))
        check(list(consts) == list(values), "constant labels", list(consts), "not", list(values))
        for k, v in values.items():
            check(cell_same(consts[k], v), "constant", k, repr(consts[k]), "not", repr(v))
            check(not isinstance(consts[k], np.generic), "constant", k, "is of type", type(consts[k]))
    else:
        frames_same(consts, pick(keep, at), "constants")
    frames_same(rest, pick(keep, others) if drop else keep, "variables" if drop else "frame")


def do_long(n, at, how, drop):
    """a line that is constant but for one cell, far from its beginning"""
    line = [7] * n
    if at is not None:
        line[at] = 8
    f = pd.DataFrame({"a": line, "b": range(n), "c": ["x"] * n})
    if how == "columns":
        f = pd.DataFrame([line, [1] * n], index=["a", "c"])
    consts, rest = pivot.extract_constants(f, drop_constants=drop, how=how)
    want = ({"a": 7} if at is None else {}) | {"c": 1 if how == "columns" else "x"}
    check(consts == want, "constants", consts, "not", want)
    gone = list(want) if drop else []
    if how == "rows":
        frames_same(rest, f.drop(columns=gone), "variables")
    else:
        frames_same(rest, f.drop(index=gone), "variables")
    twice = pd.concat([f, f], axis=1) if how == "rows" else None
    if twice is not None:
        frames_same(pivot.check_and_drop_duplicate_columns(twice), f, "without duplicates")
        if at is not None:
            other = twice.copy()
            other.isetitem(3, [7] * n)
            try:
                pivot.check_and_drop_duplicate_columns(other)
            except ValueError:
                pass
            else:
                check(False, "columns that differ at row", at, "were dropped")
    yes, no = pivot.split_on(f, f.iloc[:, 0] == 7)
    check(len(yes) + len(no) == len(f) and (how == "columns" or len(no) == (at is not None)), "split", len(yes), len(no))
    s = pd.Series(range(n), index=[0] * (n - 1) + [1])
    check(pivot.squeeze(s).tolist() == [0, n - 1], "squeeze")
    check(len(pivot.dupe_df_block(f, 3)) == 3 * len(f), "repeated")
    u = pivot.unpack(pd.Series([[i, -i] for i in range(n)], name="s"))
    check(u["s_0"].tolist() == list(range(n)) and u["s_1"].tolist() == [-i for i in range(n)], "unpack")


def do_duplicates(cols, index):
    f = frame(cols, index)
    keep = f.copy()
    want, at, dubious = {}, [], False
    differs = False
    for j, ((label, _, _), line) in enumerate(zip(cols, cells(keep))):
        if label not in want:
            want[label] = line
            at.append(j)
        else:
            for x, y in zip(line, want[label]):
                if null(x) and null(y):
                    dubious = True          # missing cells on both sides: left to the code
                elif not equal(x, y):
                    differs = True
    try:
        got = pivot.check_and_drop_duplicate_columns(f)
    except (ValueError, TypeError) as ex:          # pandas itself does not compare some types
        check(isinstance(ex, ValueError) or len({k for _, k, _ in cols}) > 1, "failed with", repr(ex))
        check(differs or dubious, "refused equal columns")
        frames_same(f, keep, "input")
        return
    check(not differs, "columns that differ were dropped")
    frames_same(f, keep, "input")
    frames_same(got, keep.iloc[:, at], "result")


def do_split(cols, index, flags, shuffled):
    f = frame(cols, index)
    keep = f.copy()
    pred = pd.Series(list(flags), index=f.index, dtype=bool)
    if shuffled and f.index.is_unique:
        pred = pred.iloc[::-1]
    yes, no = pivot.split_on(f, pred)
    frames_same(f, keep, "input")
    frames_same(yes, keep.iloc[[i for i, b in enumerate(flags) if b]], "rows where it holds")
    frames_same(no, keep.iloc[[i for i, b in enumerate(flags) if not b]], "rows where it does not")


def do_repeat(cols, index, n):
    f = frame(cols, index)
    keep = f.copy()
    got = pivot.dupe_df_block(f, n)
    frames_same(f, keep, "input")
    check(list(got.columns) == list(keep.columns), "columns", list(got.columns))
    check(got.index.tolist() == list(range(len(keep) * n)), "index", got.index.tolist())
    for j, (a, b) in enumerate(zip(cells(got), cells(keep))):
        want = [x for x in b for _ in range(n)]
        check(len(a) == len(want) and all(cell_same(x, y) for x, y in zip(a, want)), "column", j, a, "not", want)


def unpacked_cells(got, lists, name, what):
    width = max((len(x) for x in lists if x is not None), default=0)
    check(list(got.columns) == [f"{name}_{i}" for i in range(width)], what, "columns", list(got.columns))
    for j, col in enumerate(cells(got)):
        want = [None if x is None or j >= len(x) else x[j] for x in lists]
        check(len(col) == len(want) and all(cell_same(x, y) for x, y in zip(col, want)), what, "column", j, col, "not", want)


def do_unpack(lists, index, name):
    s = pd.Series([None if x is None else type(x)(x) for x in lists], index=make_index(index, len(lists)), name=name, dtype=object)
    keep = s.tolist()
    got = pivot.unpack(s)
    check(s.tolist() == keep and s.name == name, "input changed")
    there = [i for i, x in enumerate(lists) if x is not None]
    check(got.index.tolist() == [s.index.tolist()[i] for i in there], "index", got.index.tolist())
    unpacked_cells(got, [lists[i] for i in there], name, "unpacked")


def do_column(cols, index, at, lists, name):
    f = frame(cols, index)
    f.insert(at, name, pd.array(list(lists), dtype=object))
    keep = f.copy()
    got = pivot.unpack_column(f, name)
    frames_same(f, keep, "input")
    others = keep.drop(columns=name)
    n = others.shape[1]
    frames_same(got.iloc[:, :n], others, "other columns")
    check(got.index.tolist() == keep.index.tolist(), "index", got.index.tolist())
    unpacked_cells(got.iloc[:, n:], lists, name, "unpacked")


AGG = {"sum": sum, "max": max, "min": min, "first": lambda v: v[0], "last": lambda v: v[-1], "count": len, "any": any, "all": all}


def with_missing(label):
    return tuple(map(with_missing, label)) if isinstance(label, tuple) else "<missing>" if null(label) else label


def do_squeeze(kind, values, index, name, agg):
    s = column(kind, values).set_axis(make_index(index, len(values)))
    s.name = name
    keep, labels, names = s.tolist(), [with_missing(k) for k in s.index.tolist()], list(s.index.names)
    got = pivot.squeeze(s, agg) if agg else pivot.squeeze(s)
    check(all(map(cell_same, s.tolist(), keep)) and [with_missing(k) for k in s.index.tolist()] == labels and s.name == name and list(s.index.names) == names, "input changed")
    groups = {}
    for k, v in zip(labels, keep):
        groups.setdefault(k, []).append(v)
    how = agg or ("any" if kind == "bool" else "first")
    check(isinstance(got, pd.Series), "result", type(got))
    check(got.name == name and list(got.index.names) == names, "names", got.name, got.index.names)
    have = [with_missing(k) for k in got.index.tolist()]
    check(len(have) == len(groups) and set(have) == set(groups), "labels", have, "not", list(groups))
    if agg is None and kind != "bool":
        check(have == list(groups), "order", have)
    for k, v in zip(have, got.tolist()):
        want = AGG[how](groups[k])
        check(cell_same(v, want), "label", k, repr(v), "not", repr(want))


def stand_in():
    """frames.py, which the proofs take pandas to behave like, as an ordinary program"""
    import os
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "pydv", "frames.py")

    def unsupported(msg):
        raise NotImplementedError(msg)
    ns = {"__name__": "frames", "missing": null, "cells_equal": equal, "unsupported": unsupported, "nothing": lambda: None,
          "width_of": lambda cells: max((len(x) for x in cells), default=0), "piece": lambda x, i: x[i] if i < len(x) else None,
          "ordered_labels": lambda names, level, sort: sorted(names), "aggregate": lambda how, cells: AGG[how](cells),
          "levels_of": lambda labels: 1, "is_whole": lambda labels, n: list(labels) == list(range(n)),
          "all_equal": lambda *a: None}
    ns["all_equal"] = lambda rows, cols, line: all(equal(ns["cell"](r, c), ns["cell"](r, line)) for r in rows for c in cols)
    ns["picks"] = lambda key: isinstance(key, (ns["StandFlags"], ns["StandMarks"]))
    with open(path) as f:
        exec(compile(f.read(), path, "exec"), ns)
    return ns


STAND = []


def mimic(f):
    """a stand-in frame holding what a pandas frame holds"""
    ns = STAND[0] if STAND else STAND.append(stand_in()) or STAND[0]
    lines, rl, cl = cells(f), f.index.tolist(), list(f.columns)
    ns["cell"] = lambda r, c: lines[c][r]
    return ns, ns["StandFrame"](list(range(len(rl))), list(range(len(cl))), ns["cell"], lambda r: rl[r], lambda c: cl[c])


def agrees(what, real, stand):
    if isinstance(real, pd.DataFrame):
        check([stand.col_label(c) for c in stand.cols] == list(real.columns), "stand-in", what, "columns")
        if hasattr(stand.row_label, "items_"):
            check(real.index.tolist() == list(range(len(real))), "stand-in", what, "numbering")
        else:
            check([stand.row_label(r) for r in stand.rows] == real.index.tolist(), "stand-in", what, "rows")
        have = [[stand.at(r, c) for r in stand.rows] for c in stand.cols]
        check(all(len(a) == len(b) and all(map(cell_same, a, b)) for a, b in zip(have, cells(real))), "stand-in", what, have, cells(real))
    else:
        check([stand.label(x) for x in stand.items_] == real.index.tolist(), "stand-in", what, "labels")
        have = list(stand.tolist())
        check(len(have) == len(real) and all(map(cell_same, have, real.tolist())), "stand-in", what, have, real.tolist())


def do_standin(cols, index, flags, k):
    """pandas does what frames.py says it does"""
    f = frame(cols, index)
    ns, s = mimic(f)
    agrees("frame", f, s)
    pred = pd.Series(list(flags), index=f.index, dtype=bool)
    marked = ns["StandFlags"](s.index, list(flags))
    agrees("loc[flags]", f.loc[pred], s.loc[marked])
    agrees("loc[~flags]", f.loc[~pred], s.loc[~marked])
    agrees("[flags]", f[pred], s[marked])
    again, again_s = f.columns.duplicated(), s.columns.duplicated()
    check(again.tolist() == again_s.values and (~again).tolist() == (~again_s).values, "stand-in duplicated")
    check(list(f.columns[again]) == list(s.columns[again_s]), "stand-in labels picked")
    agrees("loc[:, flags]", f.loc[:, ~again], s.loc[:, ~again_s])
    rows = np.repeat(np.arange(len(f)), k)
    agrees("iloc[repeat]", f.iloc[rows], s.iloc[ns["StandTimes"](len(f), k)])
    agrees("reset_index", f.reset_index(drop=True), s.reset_index(drop=True))
    for name in set(f.columns[again]):
        block, block_s = f.loc[:, name], s.loc[:, name]
        agrees("loc[:, label]", block, block_s)
        if len(block) and "category" not in list(map(str, block.dtypes)) and not (object in list(block.dtypes) and len(set(block.dtypes)) > 1):
            both = block.eq(block.iloc[:, 0], axis=0).all(axis=None), block_s.eq(block_s.iloc[:, 0], axis=0).all(axis=None)
            check(bool(both[0]) == bool(both[1]), "stand-in eq.all", both)
    for how, line in (("items", lambda i: f.iloc[:, i]), ("iterrows", None)):
        if how == "iterrows" and len({k for _, k, _ in cols}) > 1:
            continue
        for (name, a), (name_s, b) in zip(getattr(f, how)(), getattr(s, how)()):
            check(name == name_s and a.name == b.name, "stand-in", how, "label")
            agrees(how, a, b)
            agrees("dropna", a.dropna(), b.dropna())
            check(len(a) == len(b), "stand-in len")
            if len(a):
                check(cell_same(a.iloc[:1].tolist()[0], b.iloc[0]), "stand-in iloc[0]")
                check((a == a.iloc[0]).tolist() == (b == b.iloc[0]).values, "stand-in ==")
                check(bool((a == a.iloc[0]).all()) == bool((b == b.iloc[0]).all()), "stand-in all")
    marks, marks_s = pd.Series(False, f.columns), ns["StandMarks"](s.columns)
    for i in range(0, len(cols), 2):
        marks.iloc[i] = True
        marks_s.iloc[i] = True
    agrees("loc[:, marks]", f.loc[:, marks], s.loc[:, marks_s])
    agrees("loc[:, ~marks]", f.loc[:, ~marks], s.loc[:, ~marks_s])
    name = cols[0][0]
    if list(f.columns).count(name) == 1:
        agrees("[label]", f[name], s[name])
        agrees("drop", f.drop(columns=name), s.drop(columns=name))
        if index[0] != "multi" and cols[0][1] in ("int64", "int8"):
            agrees("groupby", f[name].groupby(level=0).agg("max"), s[name].groupby(level=0).agg("max"))


KINDS = ["int64", "float", "str", "bool", "object", "cat", "time", "int8"]


def cell(rng, kind):
    if kind == "int64":
        return rng.choice([0, 1, 1, 1, 2, -1, BIG, BIG + 1, 2**62])
    if kind == "int8":
        return rng.choice([0, 1, 1, -3])
    if kind == "float":
        return rng.choice([0.0, 1.0, 1.0, 0.5, None, None, 1e300, float("inf")])
    if kind == "str":
        return rng.choice(["a", "a", "b", "", None])
    if kind == "bool":
        return rng.random() < .7
    if kind == "object":
        return rng.choice([1, 1, "a", None, 2.5, BIG, "a"])
    return rng.choice([1, 1, 2])


def a_column(rng, n, kind=None):
    kind = kind or rng.choice(KINDS)
    c = [cell(rng, kind) for _ in range(n)]
    r = rng.random()
    if r < .45 and n:
        c = [c[0]] * n
        if rng.random() < .5:
            c[rng.randrange(n)] = cell(rng, kind)
        if kind in ("float", "str", "object") and rng.random() < .4:
            c[rng.choice([0, rng.randrange(n)])] = None
    return kind, tuple(c)


def an_index(rng, n, unique=False):
    name = rng.choice([None, None, "ix", "a"])
    r = rng.random()
    if r < .3:
        return ("range", (), name)
    if unique:
        return ("labels", tuple(rng.sample([f"r{i}" for i in range(n + 3)], n)), name)
    if r < .5:
        return ("labels", tuple(f"r{i}" for i in range(n)), name)
    if r < .6:
        return ("multi", tuple((rng.choice("ab"), rng.randrange(2)) for _ in range(n)), name) if n else ("range", (), name)
    if r < .8:
        return ("labels", tuple(rng.choice("abc") for _ in range(n)), name) if n else ("range", (), name)
    return ("labels", tuple(rng.randrange(4) for _ in range(n)), name) if n else ("range", (), name)


def a_frame(rng, lo=0, width=5, dups=False, kinds=None):
    n = rng.choice([1, 2, 3, 3, 4, 6] + ([0] if lo == 0 else []) + ([40] if rng.random() < .1 else []))
    w = rng.randrange(1, width)
    kind = rng.choice(kinds) if kinds else None
    labels = [rng.choice(["a", "b", 0]) for _ in range(w)] if dups else rng.sample(["a", "b", "c", "d", 0, 1, "a_0"], w)
    cols = []
    for l in labels:
        k, c = a_column(rng, n, kind)
        cols.append((l, k, c))
    return tuple(cols), n


def lists_for(rng, n, width):
    out = []
    for _ in range(n):
        if rng.random() < .15:
            out.append(None)
            continue
        w = width if rng.random() < .8 else rng.randrange(width + 1)
        out.append(rng.choice([list, tuple])(rng.choice([1, 2, 3, "x", 2.5]) if rng.random() < .5 else rng.randrange(5) for _ in range(w)))
    if rng.random() < .3:       # positions that are empty in some of the lists, or in all
        gone = {i for i in range(width) if rng.random() < .4}
        every = rng.random() < .5
        out = [x if x is None else type(x)(None if i in gone and (every or rng.random() < .5) else y for i, y in enumerate(x)) for x in out]
    if rng.random() < .3:
        k = rng.choice([(1, BIG), (BIG, BIG + 1), ("x", 3)])
        out = [k if rng.random() < .5 else (k[1], k[0]) for _ in out] if k[0] != "x" else [k for _ in out]
    return tuple(out)


def cases(rng, tier):
    for n in (2500, 130) if tier == "quick" else (12000, 2500, 300, 130):
        for how in ("rows", "columns"):
            for at in (n - 1, n // 2, None):
                yield ("long", n if how == "rows" else min(n, 300), at if at is None or how == "rows" else min(at, 299), how, rng.random() < .5)
    for _ in range(220 if tier == "quick" else 1500):
        how = rng.choice(["rows", "rows", "columns"])
        cols, n = a_frame(rng, lo=1, dups=rng.random() < .2, kinds=["int64", "float", "str", "bool", "int8"] if how == "columns" else None)
        if how == "columns" and rng.random() < .5:      # rows that are constant
            cols = tuple((l, k, tuple(cols[0][2])) for l, k, _ in cols)
        yield ("constants", cols, an_index(rng, n), how, rng.random() < .6, rng.random() < .5, rng.random() < .6)
        cols, n = a_frame(rng)
        yield ("split", cols, an_index(rng, n), tuple(rng.random() < .5 for _ in range(n)), rng.random() < .4)
        cols, n = a_frame(rng, dups=rng.random() < .3)
        yield ("repeat", cols, an_index(rng, n), rng.choice([1, 2, 3, 0, 5]))
        cols, n = a_frame(rng, dups=True, width=6, kinds=["int64", "float", "str", "bool", "object", "time"])
        if rng.random() < .7:
            seen = {}
            cols = tuple((l, k, seen.setdefault(l, c)) for l, k, c in cols)
            if rng.random() < .5 and n:
                j = rng.randrange(len(cols))
                l, k, c = cols[j]
                c = list(c)
                c[rng.choice([n - 1, rng.randrange(n)])] = cell(rng, k)
                cols = cols[:j] + ((l, k, tuple(c)),) + cols[j + 1:]
        yield ("duplicates", cols, an_index(rng, n))
        cols, n = a_frame(rng, dups=rng.random() < .4, kinds=rng.choice([None, ["int64"], ["str"], ["float"]]))
        yield ("standin", cols, an_index(rng, n), tuple(rng.random() < .5 for _ in range(n)), rng.choice([0, 1, 3]))
        n = rng.choice([1, 2, 3, 5, 0, 30])
        yield ("unpack", lists_for(rng, n, rng.choice([1, 2, 3, 12])), an_index(rng, n), rng.choice(["s", "t", 0]))
        cols, n = a_frame(rng)
        yield ("column", cols, an_index(rng, n), rng.randrange(len(cols) + 1), lists_for(rng, n, rng.choice([1, 2, 3])), rng.choice(["s", "nest", 7]))
        n = rng.choice([1, 2, 4, 6, 30])
        kind = rng.choice(["int64", "str", "bool", "float", "object", "time"])
        kind, vals = a_column(rng, n, kind)
        name = rng.choice([None, "v", "a", "ix", "index"])
        index = an_index(rng, n)
        agg = rng.choice([None, None, "max", "min", "first", "last", "count", "sum"])
        if agg is not None:
            kind = rng.choice(["int64", "int8"] if agg == "sum" else ["int64", "float1", "str1", "bool"] if agg in ("first", "last", "count") else ["int64", "float1", "int8"])
            vals = tuple({"int64": lambda: rng.choice([0, 1, BIG, -BIG, 5]), "int8": lambda: rng.choice([1, 2, -1]), "float1": lambda: rng.choice([.5, 1.0, -2.0]),
                          "str1": lambda: rng.choice("abc"), "bool": lambda: rng.random() < .5}[kind]() for _ in range(n))
            kind = kind.replace("1", "") if kind.endswith("1") else kind
        if index[0] != "range" and rng.random() < .3:
            off = rng.random() * .8
            index = (index[0], [k if rng.random() < off else (None,) + tuple(k)[1:] if index[0] == "multi" else None for k in index[1]], index[2])
        yield ("squeeze", kind, vals, index, name, agg)
