"""C04: a failing step stops the pipeline and is reported, not swallowed.

`_do_step` (one step and its sends) is an arbitrary function that may raise any exception at any step; the tracker is an arbitrary object
whose calls are part of the compared sequence of calls.  `_do_step` failing in its sends: do_step below."""
comp = load("dustgoggles.composition")
ASSUMES = ["steps do not edit the composition they run in", "StopIteration raised by a step is not considered (a generator turns it into RuntimeError)"]


def step_of(c, name, state):
    return obj("do_step")(name, state)


def details(ex):
    """what exc_report says about the exception (its content: D01)"""
    return {"exception": uf_val("exception_of", ex)}


def expected(c, signal, tracker, optional):
    state = signal
    for name in c.steps.keys():
        try:
            state = step_of(c, name, state)
        except Exception as ex:
            assume(not isinstance(ex, StopIteration))
            if tracker is not None:
                tracker.track(c.steps[name], **details(ex))
            if optional is True:
                return None
            raise
    return state


def drive(tracked, optional):
    effects(raises=True)
    tracker = obj("tracker") if tracked else None
    steps = dct("steps")
    c = comp.Composition(steps, optional=optional)
    ensure("construct.steps_as_given", c.steps is steps)
    c.tracker = tracker
    c.sends, c.inserts = dct("sends"), dct("inserts")
    assume(len(c.steps) > 0)
    contract(comp.Composition._do_step, step_of, unfold=0)
    contract(comp.exc_report, details, unfold=0)
    signal = val("signal")
    w0 = world()
    want = outcome(lambda: expected(c, signal, tracker, optional))
    w1 = world()
    set_world(w0)
    got = outcome(lambda: c.execute(signal))
    ensure_outcome("execute.failure_leaves_or_none", got, want)
    ensure_world("execute.stops_and_records_the_step_that_failed", world(), w1)


def ob_plain():
    drive(False, False)


def ob_optional():
    drive(False, val("optional"))


def ob_tracked():
    drive(True, False)


def ob_tracked_optional():
    drive(True, val("optional"))


def ob_do_step():
    """a failing step makes no send; a failing send lets its exception out and nothing follows"""
    effects(raises=True)
    c, name, signal = comp.Composition(dct("steps")), val("name"), val("signal")
    c.sends, c.inserts = dct("sends"), dct("inserts")
    contract(comp.Composition.call_step, called, unfold=0)
    contract(comp.Composition._perform_sends, sent, unfold=0)
    w0 = world()

    def reference():
        out = called(c, name, signal)
        sent(c, name, out)
        return out
    want = outcome(reference)
    w1 = world()
    set_world(w0)
    got = outcome(lambda: c._do_step(name, signal))
    ensure_outcome("do_step.failure_leaves", got, want)
    ensure_world("do_step.nothing_after_a_failure", world(), w1)


def called(self, name, state):
    return obj("call_step")(name, state)


def sent(self, name, state):
    obj("perform_sends")(name, state)
