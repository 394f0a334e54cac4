"""C05: editing a pipeline changes exactly what was asked.

Every editing method is verified on an arbitrary composition (arbitrary steps, sends and inserts) against the resulting tables, including
what must not change; captures: every step is given to add_capture with its own list, which becomes a send with pointer 0, and the send
loop and delivery (C03) put the step's output there."""
from collections.abc import Mapping
comp = load("dustgoggles.composition")
structures = load("dustgoggles.structures")
ASSUMES = ["lists and dicts in the tables are not shared with one another"]


def composition(tracker=None):
    steps = dct("steps")
    c = comp.Composition(steps)
    ensure("construct.steps_as_given", c.steps is steps)
    c.sends, c.inserts, c.tracker = dct("sends"), dct("inserts"), tracker
    return c


def rest(c, steps=None, sends=None, inserts=None):
    if steps is not None:
        ensure_same("edit.steps_unchanged", c.steps, steps)
    if sends is not None:
        ensure_same("edit.sends_unchanged", c.sends, sends)
    if inserts is not None:
        ensure_same("edit.inserts_unchanged", c.inserts, inserts)


def ob_add_step():
    effects(raises=True)
    c, name, step = composition(), val("name"), val("step")
    assume(name is not None)
    steps, sends, inserts = c.steps.copy(), c.sends.copy(), c.inserts.copy()
    w0 = world()
    c.add_step(step, name)
    if name in steps:
        want = {k: step if k == name else v for k, v in steps.items()}
        ensure_same("add_step.replaced_in_place", c.steps, want)
        ensure_same("add_step.order_kept", [k for k in c.steps.keys()], [k for k in steps.keys()])
    else:
        ensure_same("add_step.appended_last", [i for i in c.steps.items()], [i for i in steps.items()] + [(name, step)])
    ensure_world("add_step.calls_nothing", world(), w0)
    rest(c, sends=sends, inserts=inserts)


def ob_add_step_unnamed():
    effects(raises=True)
    c, step = composition(), val("step")
    steps, sends, inserts = c.steps.copy(), c.sends.copy(), c.inserts.copy()
    c.add_step(step)
    ensure_same("add_step.named_by_count", c.steps, steps | {len(steps) + 1: step})
    rest(c, sends=sends, inserts=inserts)


def ob_add_step_tracked():
    """with a tracker, the step also gets one send that records it"""
    effects(raises=False)
    tracker, name, step, state = obj("tracker"), val("name"), val("step"), val("state")
    assume(name is not None)
    assume("track" in dir(tracker))
    c = composition(tracker)
    steps, inserts = c.steps.copy(), c.inserts.copy()
    sends = c.sends.copy()
    assume(name not in c.sends)
    c.add_step(step, name)
    ensure_same("add_step.tracked_step", c.steps, steps | {name: step})
    (pipe, target, pointer), = c.sends[name]
    ensure("add_step.tracked_send_goes_nowhere", target is None)
    w0 = world()
    pipe(state)
    w1 = world()
    set_world(w0)
    tracker.track(step, step=name)
    ensure_world("add_step.tracked_send_records", world(), w1)
    ensure_same("add_step.tracked_other_sends", {k: v for k, v in c.sends.items() if k != name}, sends)
    rest(c, inserts=inserts)


def ob_reindex():
    effects(raises=True)
    c = composition()
    values, sends, inserts = [v for v in c.steps.values()], c.sends.copy(), c.inserts.copy()
    w0 = world()
    c.reindex()
    ensure_same("reindex.renumbered_in_order", [i for i in c.steps.items()], [(n, v) for n, v in enumerate(values)])
    ensure_world("reindex.calls_nothing", world(), w0)
    rest(c, sends=sends, inserts=inserts)


def ob_add_insert():
    effects(raises=True)
    c, name, key, value, other = composition(), val("name"), val("key"), val("value"), val("other")
    steps, sends = c.steps.copy(), c.sends.copy()
    if case("has_inserts"):
        insert = dct("insert")
        c.inserts[name] = insert
        old, keys, others = insert.copy(), [k for k in c.inserts.keys()], c.inserts.get(other)
        c.add_insert(name, key, value)
        ensure("add_insert.same_entry", c.inserts[name] is insert)
        ensure_same("add_insert.entry_merged", insert, old | {key: value})
        ensure_same("add_insert.no_other_step_named", [k for k in c.inserts.keys()], keys)
        if other != name:
            ensure_same("add_insert.other_entries_unchanged", c.inserts.get(other), others)
    else:
        assume(name not in c.inserts)
        inserts = c.inserts.copy()
        c.add_insert(name, key, value)
        ensure_same("add_insert.entry_added", c.inserts, inserts | {name: {key: value}})
    rest(c, steps, sends)


def ob_add_send():
    effects(raises=True)
    c, name, other = composition(), val("name"), val("other")
    pipe, target, pointer = val("pipe"), val("target"), val("pointer")
    steps, inserts = c.steps.copy(), c.inserts.copy()
    assume(not (pipe is None and target is None))
    if case("has_sends"):
        registered = lst("registered")
        c.sends[name] = registered
        old, keys, others = [b for b in registered], [k for k in c.sends.keys()], c.sends.get(other)
        c.add_send(name, pipe, target, pointer)
        ensure("add_send.same_entry", c.sends[name] is registered)
        ensure_same("add_send.appended_after_earlier_ones", registered, old + [(pipe, target, pointer)])
        ensure_same("add_send.no_other_step_named", [k for k in c.sends.keys()], keys)
        if other != name:
            ensure_same("add_send.other_entries_unchanged", c.sends.get(other), others)
    else:
        assume(name not in c.sends)
        sends = c.sends.copy()
        c.add_send(name, pipe, target, pointer)
        ensure_same("add_send.entry_added", c.sends, sends | {name: [(pipe, target, pointer)]})
    rest(c, steps, inserts=inserts)


def ob_add_send_refused():
    effects(raises=True)
    c, name, pointer = composition(), val("name"), val("pointer")
    steps, sends, inserts = c.steps.copy(), c.sends.copy(), c.inserts.copy()
    got = outcome(lambda: c.add_send(name, pointer=pointer))
    ensure("add_send.refused", got[0] == "raised" and type(got[1]) is ValueError)
    rest(c, steps, sends, inserts)


def captured(self, step_name, target):
    obj("add_capture")(step_name, target)


def ob_add_captures():
    effects(raises=True)
    c = composition()
    steps, sends, inserts = c.steps.copy(), c.sends.copy(), c.inserts.copy()
    contract(comp.Composition.add_capture, captured, unfold=0)
    w0 = world()

    def reference():
        for k in c.steps.keys():
            captured(c, k, [None])
    want = outcome(reference)
    w1 = world()
    set_world(w0)
    got = outcome(lambda: c.add_captures())
    ensure_outcome("captures.outcome", got, want)
    ensure_world("captures.every_step_once", world(), w1)
    ensure_same("captures.one_list_per_step", c.captures, {k: [None] for k in steps.keys()})
    rest(c, steps, sends, inserts)


def ob_add_capture():
    effects(raises=True)
    c, name = composition(), val("name")
    steps, inserts = c.steps.copy(), c.inserts.copy()
    assume(name not in c.sends)
    sends = c.sends.copy()
    target = lst("held")
    old = [x for x in target]
    c.add_capture(name, target)
    (pipe, to, pointer), = c.sends[name]
    ensure("capture.unpiped", pipe is None)
    ensure("capture.into_the_list_given", to is target)
    ensure_same("capture.at_its_first_place", pointer, 0)
    ensure_same("capture.list_untouched", target, old)
    ensure_same("capture.other_sends_unchanged", {k: v for k, v in c.sends.items() if k != name}, sends)
    rest(c, steps, inserts=inserts)


def ob_add_capture_default():
    effects(raises=True)
    c, name = composition(), val("name")
    assume(name not in c.sends)
    c.add_capture(name, None)
    ensure_same("capture.own_list", c.sends[name], [(None, [None], 0)])


def ob_capture_holds_the_output():
    effects(raises=True)
    c, name, state, target = composition(), val("name"), val("state"), [val("before")]
    assume(name not in c.sends)
    c.add_capture(name, target)
    c._perform_sends(name, state)
    ensure_same("capture.holds_exactly_the_output", target, [state])
    again = val("again")
    c._perform_sends(name, again)
    ensure_same("capture.holds_the_latest_output", target, [again])
