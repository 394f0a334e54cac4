"""T01: a tracker's history is a complete, ordered, numbered record.

Representation invariant of a tracker: its log shows its history (the same list) and the next count is one more than the number of
records since the count was last restarted.  The constructor establishes it; every method is verified on an arbitrary tracker
satisfying it (arbitrary history, metadata, count)."""
from itertools import count
tracker = load("dustgoggles.tracker")
ASSUMES = ["frames, clock and files behave as pydv/standins.py says", "the counter is an itertools.count of the standard library"]


def invariant(name, t, n):
    ensure(name + ".log_shows_this_history", t.log["history"] is t.history)
    representation(type(t.counter) is type(count(1)))
    ensure_same(name + ".next_count", next(t.counter), n)


def arbitrary():
    """a tracker in any state that satisfies the invariant: k records counted so far"""
    t = tracker.Tracker(val("name"))
    history, k = lst("history"), int_("counted")
    assume(k >= 0)
    t.history[:] = history
    t.metadata = dct("metadata")
    set_counter(t, k)
    return t


def set_counter(t, k):
    representation(type(t.counter) is type(count(1)))
    t.counter = count(k + 1)


def some_caller(t, func, metadata):
    t.track(func, **metadata)


some_caller_line = some_caller.__code__.co_firstlineno + 1


def record(t, func, target, metadata):
    old, defaults, k = [r for r in t.history], t.metadata.copy(), int_("counted")
    history, log = t.history, t.log
    given = metadata.copy()
    some_caller(t, func, metadata)
    want = {"target": target, "caller": "some_caller", "lineno": some_caller_line, "trackcount": k + 1} | defaults | given
    ensure("track.same_history_list", t.history is history)
    ensure_same("track.one_record_appended_last", t.history, old + [want])
    ensure_same("track.metadata_unchanged", t.metadata, defaults)
    ensure_same("track.arguments_unchanged", metadata, given)
    ensure("track.log_kept", t.log is log)
    invariant("track", t, k + 2)


def ob_init():
    t = tracker.Tracker(val("name"))
    ensure_same("init.history_empty", t.history, [])
    ensure_same("init.no_metadata", t.metadata, {})
    invariant("init", t, 1)


def ob_track_named():
    t, func = arbitrary(), obj("func")
    assume("__name__" in dir(func))
    record(t, func, func.__name__, dct("given"))


def ob_track_unnamed():
    t, func = arbitrary(), val("func")
    assume("__name__" not in dir(func))
    record(t, func, str(func), dct("given"))


def ob_track_no_metadata():
    t, func = arbitrary(), val("func")
    assume("__name__" not in dir(func))
    record(t, func, str(func), {})


def ob_set_metadata():
    t, given = arbitrary(), dct("given")
    defaults, old, history = t.metadata.copy(), [r for r in t.history], t.history
    t.set_metadata(**given)
    ensure_same("set_metadata.merged", t.metadata, defaults | given)
    ensure("set_metadata.same_history_list", t.history is history)
    ensure_same("set_metadata.history_unchanged", t.history, old)
    invariant("set_metadata", t, int_("counted") + 1)


def ob_clear():
    t = arbitrary()
    history = t.history
    t.clear()
    ensure_same("clear.history_empty", t.history, [])
    ensure("clear.same_history_list", t.history is history)
    invariant("clear", t, 1)


def ob_dump():
    t = arbitrary()
    t.outpath.pieces = None if case("no_file") else [val("file"), b"]"]
    if case("paused"):
        t.paused = True
    old, history, defaults = [r for r in t.history], t.history, t.metadata.copy()
    outcome(lambda: t.dump())
    ensure("dump.same_history_list", t.history is history)
    ensure_same("dump.history_unchanged", t.history, old)
    ensure_same("dump.metadata_unchanged", t.metadata, defaults)
    invariant("dump", t, int_("counted") + 1)
