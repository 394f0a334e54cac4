"""AXIOM frames: data frames and series, as the frame helpers use pandas.  (Read as program text by the verifier, like prelude.py.)

A frame is its rows and its columns, in order, each with a label, and a cell for every row and column; selecting rows or columns keeps the
others' cells, labels and order.  Two cells are equal when neither is missing and they compare equal.  Labels may repeat.  The cross-check of
P02 runs this text on concrete frames next to pandas itself."""


class StandIndex:
    """an axis: its elements and their labels"""
    def __init__(self, items, label):
        self.items_ = items
        self.label = label

    def __len__(self):
        return len(self.items_)

    def __iter__(self):
        return iter([self.label(x) for x in self.items_])

    @property
    def nlevels(self):
        return levels_of([self.label(x) for x in self.items_])

    def tolist(self):
        return [self.label(x) for x in self.items_]

    to_list = tolist

    def duplicated(self):
        seen, out = {}, []
        for x in self.items_:
            name = self.label(x)
            out.append(name in seen)
            seen[name] = True
        return StandFlags(self, out)

    def __getitem__(self, key):
        if picks(key):
            return StandIndex(picked(self.items_, key), self.label)
        unsupported("picking from an axis")


class StandFlags:
    """one truth value for every element of an axis"""
    def __init__(self, axis, values):
        self.axis = axis
        self.values = values

    def __invert__(self):
        return StandFlags(self.axis, [not b for b in self.values])

    def any(self):
        return any(self.values)

    def all(self):
        return all(self.values)


class StandMarks:
    """a series of truth values, false until marked"""
    def __init__(self, axis):
        self.axis = axis
        self.at = {}
        self.named = {}

    @property
    def iloc(self):
        return StandPlaces(self.at)

    @property
    def loc(self):
        return StandPlaces(self.named)

    def flags(self):
        return StandFlags(self.axis, [i in self.at or self.axis.label(x) in self.named for i, x in enumerate(self.axis.items_)])

    def __invert__(self):
        return ~self.flags()


class StandPlaces:
    def __init__(self, at):
        self.at = at

    def __setitem__(self, key, value):
        if value is not True:
            unsupported("marking")
        self.at[key] = True


def flags_of(key):
    if isinstance(key, StandMarks):
        return key.flags()
    return key


def picked(items, key):
    return [x for x, b in zip(items, flags_of(key).values) if b]


def whole(key):
    return isinstance(key, slice) and key == slice(None)


class StandSeries:
    """a line of a frame: for each element of an axis a value"""
    def __init__(self, items, at, label, name, line=None):
        self.items_ = items
        self.at = at
        self.label = label
        self.name = name
        self.line = line            # the column of the frame this is

    @property
    def index(self):
        return StandIndex(self.items_, self.label)

    def __len__(self):
        return len(self.items_)

    @property
    def size(self):
        return len(self.items_)

    @property
    def empty(self):
        return len(self.items_) == 0

    def isna(self):
        at = self.at
        return StandFlags(self.index, [missing(at(x)) for x in self.items_])

    def notna(self):
        return ~self.isna()

    isnull = isna
    notnull = notna

    def __getitem__(self, key):
        return self.loc[key]

    def dropna(self):
        at = self.at
        return StandSeries([x for x in self.items_ if not missing(at(x))], at, self.label, self.name)

    @property
    def iloc(self):
        return StandPositions(self)

    @property
    def loc(self):
        return StandPicked(self)

    def tolist(self):
        return StandCells(self)

    to_list = tolist

    @property
    def dtype(self):
        return type_of(self.at_all())

    def at_all(self):
        at = self.at
        return [at(x) for x in self.items_]

    def copy(self, deep=True):
        return StandSeries(self.items_, self.at, self.label, self.name)

    def reset_index(self, drop=False):
        if drop is not True:
            unsupported("reset_index")
        return StandSeries(self.items_, self.at, StandNumbers(self.items_), self.name)

    def groupby(self, level=None, sort=True, dropna=True):
        return StandGroups(self, level, sort, dropna)

    def __eq__(self, value):
        at = self.at
        return StandFlags(self.index, [cells_equal(at(x), value) for x in self.items_])

    def eq(self, value):
        return self == value

    def __hash__(self):
        return id(self)


class StandCells:
    """the values of a series, in order"""
    def __init__(self, series):
        self.series = series

    def __len__(self):
        return len(self.series.items_)

    def __iter__(self):
        return iter(self.series.at_all())


class StandGroups:
    """a series by its labels: one value for each label there is, made of the values that have it"""
    def __init__(self, series, level, sort, dropna):
        self.series = series
        self.level = level
        self.sort = sort
        self.dropna = dropna

    def agg(self, how):
        s = self.series
        at, label = s.at, s.label
        firsts = picked(s.items_, ~s.index.duplicated())
        names = ordered_labels([label(x) for x in firsts], self.level, self.sort)
        if self.dropna is not False:
            names = [name for name in names if not missing(name)]
        return StandSeries(names, lambda name: aggregate(how, [at(x) for x in s.items_ if label(x) == name]), identity_, s.name)


class StandPositions:
    def __init__(self, series):
        self.series = series

    def __getitem__(self, i):
        if not isinstance(i, int):
            unsupported("picking from a series")
        s = self.series
        return s.at(s.items_[i])


class StandPicked:
    def __init__(self, series):
        self.series = series

    def __getitem__(self, key):
        s = self.series
        if picks(key):
            return StandSeries(picked(s.items_, key), s.at, s.label, s.name)
        unsupported("picking from a series")


class StandFrame:
    def __init__(self, rows, cols, at, row_label, col_label):
        self.rows = rows
        self.cols = cols
        self.at = at
        self.row_label = row_label
        self.col_label = col_label

    @property
    def columns(self):
        return StandIndex(self.cols, self.col_label)

    @columns.setter
    def columns(self, names):
        new = self.named(names)
        self.cols, self.at, self.col_label = new.cols, new.at, new.col_label

    @property
    def index(self):
        return StandIndex(self.rows, self.row_label)

    @property
    def shape(self):
        return len(self.rows), len(self.cols)

    @property
    def empty(self):
        return len(self.rows) == 0 or len(self.cols) == 0

    def __len__(self):
        return len(self.rows)

    def column(self, c):
        at = self.at
        return StandSeries(self.rows, lambda r: at(r, c), self.row_label, self.col_label(c), (c,))

    def row(self, r):
        at = self.at
        return StandSeries(self.cols, lambda c: at(r, c), self.col_label, self.row_label(r))

    def items(self):
        for c in self.cols:
            yield self.col_label(c), self.column(c)

    def iterrows(self):
        for r in self.rows:
            yield self.row_label(r), self.row(r)

    @property
    def loc(self):
        return StandLoc(self)

    @property
    def iloc(self):
        return StandIloc(self)

    def with_(self, rows, cols):
        return StandFrame(rows, cols, self.at, self.row_label, self.col_label)

    def eq(self, other, axis="columns"):
        if not isinstance(other, StandSeries) or axis not in (0, "index"):
            unsupported("comparison of frames")
        if other.line is None:
            unsupported("comparison with something else than a column")
        return StandTests(self.rows, self.cols, other.line[0])

    def reset_index(self, drop=False):
        if drop is not True:
            unsupported("reset_index")
        return StandFrame(self.rows, self.cols, self.at, StandNumbers(self.rows), self.col_label)

    def copy(self, deep=True):
        return self.with_(self.rows, self.cols)

    def __getitem__(self, name):
        if picks(name):
            return self.with_(picked(self.rows, name), self.cols)
        label = self.col_label              # one column has this label
        return self.column([c for c in self.cols if label(c) == name][0])

    def drop(self, columns=None):
        label = self.col_label
        return self.with_(self.rows, [c for c in self.cols if label(c) != columns])

    def named(self, names):
        """other column labels"""
        cols, at = self.cols, self.at
        if len(names) != len(cols):
            raise ValueError("Length mismatch")
        return StandFrame(self.rows, list(range(len(cols))), lambda r, k: at(r, cols[k]), self.row_label, lambda k: names[k])

    def set_axis(self, labels, axis=0):
        if axis in (1, "columns"):
            return self.named(labels)
        if not isinstance(labels, StandIndex):
            unsupported("labels of rows")
        if labels.items_ is not self.rows:
            unsupported("labels of other rows")
        return StandFrame(self.rows, self.cols, self.at, labels.label, self.col_label)

    def reindex(self, labels=None, index=None):
        labels = index if labels is None else labels
        base, rows, at = self.row_label, self.rows, self.at
        if not isinstance(base, StandNumbers) or not is_whole(labels, len(base.items_)):
            unsupported("reindex")
        return StandFrame(base.items_, self.cols, lambda r, c: at(r, c) if r in rows else nothing(), base, self.col_label)


class StandNumbers:
    """labels that are positions: 0, 1, 2... along the whole axis"""
    def __init__(self, items):
        self.items_ = items

    def __call__(self, x):
        unsupported("positions as labels")


class StandBeside:
    """two frames with the same rows, the columns of one before those of the other"""
    def __init__(self, left, right):
        self.left = left
        self.right = right


def identity_(x):
    return x


class StandTests:
    """whether each cell of some columns equals the cell of one column in its row"""
    def __init__(self, rows, cols, line):
        self.rows = rows
        self.cols = cols
        self.line = line

    def all(self, axis=0):
        if axis is not None:
            unsupported("all along an axis")
        return all_equal(self.rows, self.cols, self.line)


class StandLoc:
    def __init__(self, frame):
        self.frame = frame

    def __getitem__(self, key):
        f = self.frame
        if isinstance(key, tuple):
            rows, cols = key
            if not whole(rows):
                unsupported("picking both rows and columns")
            if picks(cols):
                return f.with_(f.rows, picked(f.cols, cols))
            label = f.col_label             # a label that is there more than once
            return f.with_(f.rows, [c for c in f.cols if label(c) == cols])
        if picks(key):
            return f.with_(picked(f.rows, key), f.cols)
        unsupported("picking rows by label")


class StandIloc:
    def __init__(self, frame):
        self.frame = frame

    def __getitem__(self, key):
        f = self.frame
        if isinstance(key, tuple):
            rows, i = key
            if not whole(rows) or not isinstance(i, int):
                unsupported("picking both rows and columns")
            return f.column(f.cols[i])
        if isinstance(key, StandTimes):
            return f.with_(key.of(f.rows), f.cols)
        unsupported("picking rows by position")


class StandTimes:
    """np.repeat(np.arange(n), k): every position k times"""
    def __init__(self, n, k):
        self.n = n
        self.k = k

    def of(self, items):
        if self.n != len(items):
            unsupported("positions of something else")
        return [x for x in items for _ in range(self.k)]


def mapped_(f, axis):
    return [f(x) for x in axis.items_]


def spread(cells, index):
    """pd.DataFrame(lists, index=labels): the i-th column has each list's i-th element; nothing where a list is shorter"""
    if not isinstance(cells, StandCells) or not isinstance(index, StandIndex):
        unsupported("construction of a frame")
    if index.items_ is not cells.series.items_:
        unsupported("construction of a frame")
    at = cells.series.at
    return StandFrame(index.items_, list(range(width_of(cells.series.at_all()))), lambda r, i: piece(at(r), i), index.label, identity_)


def beside(frames, axis=0):
    """pd.concat([left, right], axis=1) of frames with the same row labels, in the same order"""
    left, right = frames
    if axis not in (1, "columns"):
        unsupported("frames below each other")
    if left.rows is not right.rows or left.row_label is not right.row_label:
        unsupported("frames of different rows beside each other")
    return StandBeside(left, right)
