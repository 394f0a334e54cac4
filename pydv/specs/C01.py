"""C01: a pipeline computes the ordered fold of its steps.

`_do_step` (one step and its sends) is an arbitrary effectful function here: execute, __call__ and itercall are compared with the fold
over the names of the steps on result, exceptions and the complete sequence of calls.  `_do_step` itself is then shown to be the call
of the step followed by its sends, on a composition whose steps it leaves alone (what a step call is: C02; what sends are: C03)."""
comp = load("dustgoggles.composition")
ASSUMES = ["steps do not edit the composition they run in", "StopIteration raised by a step is not considered (a generator turns it into RuntimeError)"]


def step_of(c, name, state):
    return obj("do_step")(name, state)


def called(self, name, state):
    return obj("call_step")(name, state)


def sent(self, name, state):
    obj("perform_sends")(name, state)


def setup(raises):
    effects(raises=raises)
    c = comp.Composition(dct("steps"))
    c.sends, c.inserts = dct("sends"), dct("inserts")
    return c


def unchanged(c, steps, sends, inserts):
    ensure_same("execute.steps_unchanged", c.steps, steps)
    ensure_same("execute.sends_unchanged", c.sends, sends)
    ensure_same("execute.inserts_unchanged", c.inserts, inserts)


def fold(c, signal):
    state = signal
    for name in c.steps.keys():
        state = step_of(c, name, state)
    return state


def run(entry, raises):
    c, signal = setup(raises), val("signal")
    assume(len(c.steps) > 0)
    contract(comp.Composition._do_step, step_of, unfold=0)
    before = c.steps.copy(), c.sends.copy(), c.inserts.copy()
    w0 = world()
    want = outcome(lambda: fold(c, signal))
    w1 = world()
    if want[0] == "raised":
        assume(not isinstance(want[1], StopIteration))
    set_world(w0)
    got = outcome(lambda: entry(c, signal))
    ensure_outcome("execute.result_is_the_fold", got, want)
    ensure_world("execute.calls_in_order_once_each", world(), w1)
    unchanged(c, *before)


def ob_execute():
    run(lambda c, s: c.execute(s), False)


def ob_call():
    run(lambda c, s: c(s), False)


def ob_execute_special_kwargs():
    run(lambda c, s: c.execute(s, special=val("special")), False)


def ob_call_signal_by_name():
    run(lambda c, s: c(signal=s), False)


def ob_execute_raising():
    run(lambda c, s: c.execute(s), True)


def ob_execute_default_signal():
    c = setup(False)
    assume(len(c.steps) > 0)
    contract(comp.Composition._do_step, step_of, unfold=0)
    w0 = world()
    want = fold(c, None)
    w1 = world()
    set_world(w0)
    got = c.execute()
    ensure_same("execute.default_signal_is_none", got, want)
    ensure_world("execute.default_signal_calls", world(), w1)


def ob_again():
    """a second execution makes the same calls from where the first one ended"""
    c, signal, other = setup(False), val("signal"), val("other")
    assume(len(c.steps) > 0)
    contract(comp.Composition._do_step, step_of, unfold=0)
    w0 = world()
    fold(c, signal)
    want = fold(c, other)
    w1 = world()
    set_world(w0)
    c.execute(signal)
    got = c.execute(other)
    ensure_same("execute.again_result", got, want)
    ensure_world("execute.again_calls", world(), w1)


def ob_itercall():
    """the outputs come lazily, in order: the consumer's calls interleave with the steps"""
    c, signal = setup(False), val("signal")
    contract(comp.Composition._do_step, step_of, unfold=0)
    consume = obj("consume")
    before = c.steps.copy(), c.sends.copy(), c.inserts.copy()
    w0 = world()
    state, n = signal, 0
    for name in c.steps.keys():
        state = step_of(c, name, state)
        consume(state)
        n = n + 1
    w1 = world()
    set_world(w0)
    it = c.itercall(signal)
    ensure_world("itercall.nothing_runs_before_it_is_asked", world(), w0)
    m = 0
    for out in it:
        consume(out)
        m = m + 1
    ensure_world("itercall.outputs_lazily_in_order", world(), w1)
    ensure_same("itercall.as_many_outputs_as_steps", m, n)
    unchanged(c, *before)


def ob_itercall_outputs():
    c, signal = setup(False), val("signal")
    contract(comp.Composition._do_step, step_of, unfold=0)
    w0 = world()
    want, state = [], signal
    for name in c.steps.keys():
        state = step_of(c, name, state)
        want.append(state)
    set_world(w0)
    ensure_same("itercall.outputs", [x for x in c.itercall(signal)], want)


def ob_do_step():
    c, name, signal = setup(True), val("name"), val("signal")
    contract(comp.Composition.call_step, called, unfold=0)
    contract(comp.Composition._perform_sends, sent, unfold=0)
    before = c.steps.copy(), c.sends.copy(), c.inserts.copy()
    w0 = world()

    def expected():
        out = called(c, name, signal)
        sent(c, name, out)
        return out
    want = outcome(expected)
    w1 = world()
    set_world(w0)
    got = outcome(lambda: c._do_step(name, signal))
    ensure_outcome("do_step.output_is_the_steps_own", got, want)
    ensure_world("do_step.step_then_sends", world(), w1)
    unchanged(c, *before)


def ob_construct():
    """the steps given as a mapping are kept as they are; given as a sequence they are numbered in order; none is the identity"""
    effects(raises=True)
    d = dct("steps")
    c = comp.Composition(d)
    ensure("construct.mapping_kept", c.steps is d)
    l = lst("listed")
    c = comp.Composition(l)
    ensure_same("construct.sequence_numbered", [i for i in c.steps.items()], [(n, x) for n, x in enumerate(l)])
    c = comp.Composition()
    ensure_same("construct.default_identity", c(signal=val("signal")), val("signal"))
