"""C03: sends deliver each step's output exactly once and never alter the flow.

The send loop is compared with its reference over an arbitrary list of sends (pipe, target, pointer), with delivery as an arbitrary
function; delivery is then verified per kind of target, the step's output by `_do_step`, registration in order by C05."""
comp = load("dustgoggles.composition")
ASSUMES = ["pipes and targets do not edit the composition's sends while they are being delivered"]


def delivered(self, thing, target, pointer):
    obj("place_into")(thing, target, pointer)


def expected(c, buses, state):
    for pipe, target, pointer in buses:
        out = state
        if pipe is not None:
            out = pipe(state)
        if target is not None:
            delivered(c, out, target, pointer)


def composition():
    steps = dct("steps")
    c = comp.Composition(steps)
    ensure("construct.steps_as_given", c.steps is steps)
    c.sends, c.inserts = dct("sends"), dct("inserts")
    return c


def ob_loop():
    effects(raises=True)
    c, name, state = composition(), val("name"), val("state")
    contract(comp.Composition.place_into, delivered, unfold=0)
    buses = uf_list("sends_of_this_step", view=3)
    c.sends[name] = buses
    before = c.steps.copy(), c.inserts.copy(), [b for b in buses]
    w0 = world()
    want = outcome(lambda: expected(c, buses, state))
    w1 = world()
    set_world(w0)
    got = outcome(lambda: c._perform_sends(name, state))
    ensure_outcome("sends.outcome", got, want)
    ensure_world("sends.each_once_in_order_with_the_output", world(), w1)
    ensure_same("sends.steps_unchanged", c.steps, before[0])
    ensure_same("sends.inserts_unchanged", c.inserts, before[1])
    ensure("sends.list_kept", c.sends[name] is buses)
    ensure_same("sends.list_unchanged", [b for b in c.sends[name]], before[2])


def ob_none_registered():
    """a step without sends of its own makes no call, whatever other steps send"""
    effects(raises=True)
    c, name, state = composition(), val("name"), val("state")
    contract(comp.Composition.place_into, delivered, unfold=0)
    assume(name not in c.sends)
    sends = c.sends.copy()
    w0 = world()
    ensure_same("sends.nothing_for_this_step", c._perform_sends(name, state), None)
    ensure_world("sends.others_do_not_fire", world(), w0)
    ensure_same("sends.table_unchanged", c.sends, sends)


def place(target, pointer):
    """delivery of a thing; returns the composition, the thing, the inserts there were, and the outcome"""
    c, thing = composition(), val("thing")
    return c, thing, c.steps.copy(), c.sends.copy(), c.inserts.copy()


def frame(c, steps, sends, inserts=None):
    ensure_same("place.steps_unchanged", c.steps, steps)
    ensure_same("place.sends_unchanged", c.sends, sends)
    if inserts is not None:
        ensure_same("place.inserts_unchanged", c.inserts, inserts)


def ob_into_a_step_without_inserts():
    effects(raises=True)
    target, pointer = val("target"), val("pointer")
    assume(isinstance(target, (str, int)))
    c, thing, steps, sends, inserts = place(target, pointer)
    assume(target not in c.inserts)
    w0 = world()
    ensure_same("place.insert_nothing_returned", c.place_into(thing, target, pointer), None)
    ensure_same("place.insert_added", c.inserts, inserts | {target: {pointer: thing}})
    ensure_world("place.insert_calls_nothing", world(), w0)
    frame(c, steps, sends)


def ob_into_a_step_with_inserts():
    effects(raises=True)
    target, pointer, other = val("target"), val("pointer"), val("other")
    assume(isinstance(target, (str, int)))
    insert = dct("insert")
    c, thing, steps, sends, _ = place(target, pointer)
    c.inserts[target] = insert
    old, keys, others = insert.copy(), [k for k in c.inserts.keys()], c.inserts.get(other)
    w0 = world()
    ensure_same("place.insert_nothing_returned", c.place_into(thing, target, pointer), None)
    ensure("place.insert_kept", c.inserts[target] is insert)
    ensure_same("place.insert_merged", insert, old | {pointer: thing})
    ensure_same("place.no_other_step_named", [k for k in c.inserts.keys()], keys)
    if other != target:
        ensure_same("place.other_inserts_unchanged", c.inserts.get(other), others)
    ensure_world("place.insert_calls_nothing", world(), w0)
    frame(c, steps, sends)


def ob_into_a_list_appended():
    effects(raises=True)
    target = lst("target")
    old = [x for x in target]
    c, thing, *rest = place(target, None)
    w0 = world()
    c.place_into(thing, target, None)
    ensure_same("place.list_appended", target, old + [thing])
    ensure_world("place.list_calls_nothing", world(), w0)
    frame(c, *rest)


def ob_into_a_list_assigned():
    effects(raises=True)
    target, pointer = lst("target"), int_("pointer")
    assume(pointer >= 0)
    assume(pointer < len(target))
    old = [x for x in target]
    c, thing, *rest = place(target, pointer)
    w0 = world()
    c.place_into(thing, target, pointer)
    ensure_same("place.list_assigned", target, old[:pointer] + [thing] + old[pointer + 1:])
    ensure_world("place.list_calls_nothing", world(), w0)
    frame(c, *rest)


def ob_into_a_list_out_of_range():
    effects(raises=True)
    target, pointer = lst("target"), int_("pointer")
    assume(pointer >= len(target))
    old = [x for x in target]
    c, thing, *rest = place(target, pointer)
    got = outcome(lambda: c.place_into(thing, target, pointer))
    ensure("place.list_out_of_range_raises", got[0] == "raised" and type(got[1]) is IndexError)
    ensure_same("place.list_out_of_range_unchanged", target, old)
    frame(c, *rest)


def ob_into_a_capture():
    """the target add_capture makes: a list of one"""
    effects(raises=True)
    target = [val("latest")]
    c, thing, *rest = place(target, 0)
    c.place_into(thing, target, 0)
    ensure_same("place.capture_holds_the_output", target, [thing])
    frame(c, *rest)


def ob_into_a_dict():
    effects(raises=True)
    target, pointer = dct("target"), val("pointer")
    old = target.copy()
    c, thing, *rest = place(target, pointer)
    w0 = world()
    c.place_into(thing, target, pointer)
    ensure_same("place.dict_assigned", target, old | {pointer: thing})
    ensure_world("place.dict_calls_nothing", world(), w0)
    frame(c, *rest)


def ob_into_a_writer():
    effects(raises=True)
    target, pointer = obj("target"), val("pointer")
    assume(not isinstance(target, (str, int, list, dict)))
    assume("write" in dir(target))
    c, thing, *rest = place(target, pointer)
    w0 = world()
    want = outcome(lambda: target.write(thing))
    w1 = world()
    set_world(w0)
    got = outcome(lambda: c.place_into(thing, target, pointer))
    ensure_same("place.written_outcome", got[0], want[0])
    ensure_world("place.written_once", world(), w1)
    frame(c, *rest)


def ob_into_a_writer_raising():
    effects(raises=True)
    target = obj("target")
    assume(not isinstance(target, (str, int, list, dict)))
    assume("write" in dir(target))
    c, thing, *rest = place(target, None)
    w0 = world()
    want = outcome(lambda: target.write(thing))
    set_world(w0)
    got = outcome(lambda: c.place_into(thing, target, None))
    if want[0] == "raised":
        ensure_outcome("place.write_failure_leaves", got, want)


def called(self, name, state):
    return obj("call_step")(name, state)


def sent(self, name, state):
    obj("perform_sends")(name, state)


def ob_flow_unaltered():
    """the value handed on is the step's own output, sent once after the step has completed"""
    effects(raises=True)
    c, name, signal = composition(), val("name"), val("signal")
    contract(comp.Composition.call_step, called, unfold=0)
    contract(comp.Composition._perform_sends, sent, unfold=0)
    w0 = world()

    def reference():
        out = called(c, name, signal)
        sent(c, name, out)
        return out
    want = outcome(reference)
    w1 = world()
    set_world(w0)
    got = outcome(lambda: c._do_step(name, signal))
    ensure_outcome("flow.output_is_the_steps_own", got, want)
    ensure_world("flow.sends_after_the_step", world(), w1)


def ob_construct():
    """sends and inserts given as mappings are kept as they are; given as sequences they belong to the steps by number"""
    effects(raises=True)
    sends, inserts = dct("sends"), dct("inserts")
    c = comp.Composition(dct("steps"), sends, inserts)
    ensure("construct.mappings_kept", c.sends is sends and c.inserts is inserts)
    c = comp.Composition(lst("steps"), lst("sends"), lst("inserts"))
    ensure_same("construct.sends_numbered", [i for i in c.sends.items()], [(n, x) for n, x in enumerate(lst("sends"))])
    ensure_same("construct.inserts_numbered", [i for i in c.inserts.items()], [(n, x) for n, x in enumerate(lst("inserts"))])
    c = comp.Composition(dct("steps"))
    ensure_same("construct.no_sends", c.sends, {})
    ensure_same("construct.no_inserts", c.inserts, {})


class Recorder:
    """any tracker, as far as the constructor sees it"""


def recorded(self, step_name):
    obj("add_track_send")(step_name)


def ob_construct_tracked():
    """with a tracker, every step gets its recording send, once, in order"""
    effects(raises=False)
    contract(comp.Composition._add_track_send, recorded, unfold=0)
    steps, tracker = dct("steps"), Recorder()
    w0 = world()
    for k in steps.keys():
        recorded(None, k)
    w1 = world()
    set_world(w0)
    c = comp.Composition(steps, tracker=tracker)
    ensure_world("construct.every_step_recorded", world(), w1)
    ensure("construct.tracker_kept", c.tracker is tracker)


def ob_track():
    """track() gives an untracked composition a tracker and every step its recording send; a tracked one is left alone"""
    effects(raises=False)
    contract(comp.Composition._add_track_send, recorded, unfold=0)
    c = composition()
    w0 = world()
    for k in c.steps.keys():
        recorded(c, k)
    w1 = world()
    set_world(w0)
    c.track()
    ensure_world("track.every_step_recorded", world(), w1)
    ensure("track.has_a_tracker", c.tracker is not None)
    mine = c.tracker
    w0 = world()
    c.track()
    ensure("track.tracker_kept", c.tracker is mine)
    ensure_world("track.not_recorded_twice", world(), w0)
