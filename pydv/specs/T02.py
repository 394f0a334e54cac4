"""T02: a tracker's log file is always a complete JSON list of its dumps.

A file is what was written to it, up to the interpretation of what stands before its end.  Invariant: either there is no file (no dump
since it was created or cleared), or its bytes are O followed by the closing the first dump wrote, where O is "[" and the elements so
far, separated by commas.  The first dump establishes it, every dump from an arbitrary O keeps it, O included byte for byte."""
import json
tracker = load("dustgoggles.tracker")
ASSUMES = ["files behave as pydv/standins.py says; writing to the file does not fail", "json.dumps gives a JSON text of its argument or fails"]


def fresh():
    t = tracker.Tracker(val("name"))
    t.history[:] = lst("history")
    representation(type(t.outpath) is type(t.outpath.parent))
    return t


def ob_first_dump():
    pure()
    t = fresh()
    got = outcome(lambda: t.dump())
    p = file_of(t)
    if got[0] == "raised":
        ensure("dump.failure_leaves_no_file", p is None)
        ensure("dump.failure_only_of_json", from_json(got[1]))
    else:
        ensure("dump.file_is_a_list_of_one", p is not None and len(p) == 3 and blank(p[0], b"[") and blank(p[2], b"]"))
        ensure_same("dump.element_is_the_log", p[1], json.dumps(t.log))
        ensure("dump.element_shows_the_history", t.log["history"] is t.history)


def ob_next_dump():
    pure()
    t = fresh()
    closing = closing_of(t)
    before = val("elements_so_far")
    t.outpath.pieces = [before, closing]
    old = [r for r in t.history]
    got = outcome(lambda: t.dump())
    p = file_of(t)
    if got[0] == "raised":
        ensure("dump.failure_only_of_json", from_json(got[1]))
        ensure("dump.failure_leaves_the_file", p is not None and len(p) == 2 and p[0] is before and p[1] == closing)
    else:
        ensure("dump.file_extended_by_one_element",
               p is not None and len(p) == 4 and p[0] is before and blank(p[1], b",") and blank(p[3], b"]") and p[3] == closing)
        ensure_same("dump.element_is_the_log", p[2], json.dumps(t.log))
        ensure("dump.element_shows_the_history", t.log["history"] is t.history)
        ensure_same("dump.history_unchanged", t.history, old)


def closing_of(t):
    """what the first dump of this tracker puts after its element"""
    other = tracker.Tracker(val("name"))
    got = outcome(lambda: other.dump())
    assume(got[0] == "ok")
    p = file_of(other)
    representation(p is not None and len(p) == 3 and blank(p[2], b"]"))
    return p[2]


def ob_paused():
    pure()
    t = fresh()
    t.paused = True
    before = val("elements_so_far")
    t.outpath.pieces = None if case("no_file") else [before, b"]"]
    none = t.outpath.pieces is None
    got = outcome(lambda: t.dump())
    p = file_of(t)
    ensure("paused.dump_is_quiet", got[0] == "ok")
    ensure("paused.nothing_written", p is None if none else p is not None and len(p) == 2 and p[0] is before and p[1] == b"]")


def ob_resumed():
    pure()
    t = fresh()
    t.paused = True
    t.paused = False
    got = outcome(lambda: t.dump())
    ensure("resumed.dump_writes_again", got[0] == "raised" or file_of(t) is not None)


def ob_clear():
    pure()
    t = fresh()
    t.outpath.pieces = None if case("no_file") else [val("elements_so_far"), b"]"]
    got = outcome(lambda: t.clear())
    ensure("clear.succeeds", got[0] == "ok")
    ensure("clear.removes_the_file", not t.outpath.exists())


def ob_others_do_not_write():
    pure()
    t = fresh()
    before = val("elements_so_far")
    t.outpath.pieces = [before, b"]"]
    t.track(val("func"))
    t.set_metadata(some=val("some"))
    p = file_of(t)
    ensure("others.file_untouched", p is not None and len(p) == 2 and p[0] is before and p[1] == b"]")
