"""C02: step arguments combine inserts, baked-in arguments and the signal.

The step is an arbitrary object; the reference states which call is made, with which positional and keyword arguments, and that its
result is returned.  The two executions are compared on the complete sequence of calls made to code outside the repository."""
from collections.abc import Mapping, Collection
from itertools import count
comp = load("dustgoggles.composition")
ASSUMES = ["the search for a free position ends (the number of arguments is finite)", "dir() and attribute reads of a step have no side effect",
           "sorted() gives the same elements, the same for equal inputs"]


def with_signal(args, state):
    """the signal takes the lowest position that is not occupied; arguments are passed in increasing position"""
    free = lowest_free(args)
    full = args | {free: state}
    return [full[k] for k in sorted(full.keys())]


def lowest_free(args):
    for n in count():
        if n not in args:
            return n


def baked_positions(args):
    if args is None:
        return {}
    if isinstance(args, Mapping):
        return args
    return {n: a for n, a in enumerate(args)}


def expected(step, insert, state):
    args = {} if insert is None else {k: v for k, v in insert.items() if isinstance(k, int)}
    kwargs = {} if insert is None else {k: v for k, v in insert.items() if isinstance(k, str)}
    target = step
    if "func" in dir(step):
        target = step.func
        if "args" in dir(step):
            args = baked_positions(step.args) | args
        if "keywords" in dir(step):
            kwargs = step.keywords | kwargs
    if len(args) == 0:
        return target(state, **kwargs)
    return target(*with_signal(args, state), **kwargs)


def setup(insert_for):
    c = comp.Composition(dct("steps"))
    step, name = obj("step"), val("name")
    c.steps[name] = step
    c.inserts = dct("inserts")
    insert = None
    if insert_for:
        insert = dct("insert")
        c.inserts[name] = insert
    else:
        assume(name not in c.inserts)
    return c, name, step, insert


def compare(c, name, step, insert, state):
    w0 = world()
    want = outcome(lambda: expected(step, insert, state))
    w1 = world()
    set_world(w0)
    steps = c.steps.copy()
    inserts = c.inserts.copy()
    before = None if insert is None else insert.copy()
    got = outcome(lambda: c.call_step(name, state))
    ensure_outcome("call_step.result", got, want)
    ensure_world("call_step.one_call_with_these_arguments", world(), w1)
    ensure_same("call_step.steps_unchanged", c.steps.copy(), steps)
    if insert is not None:
        ensure_same("call_step.insert_unchanged", insert.copy(), before)
        ensure("call_step.insert_kept", c.inserts[name] is insert)
    ensure_same("call_step.inserts_unchanged", c.inserts.copy(), inserts)


def plain(step):
    assume("func" not in dir(step))


def partial_of(step, args, keywords):
    assume("func" in dir(step))
    assume(("args" in dir(step)) == args)
    assume(("keywords" in dir(step)) == keywords)


def drive(insert_for, kind, *how):
    # the step may raise; with both an insert and baked-in arguments only its normal outcomes are followed
    effects(raises=not (insert_for and kind is partial_of))
    c, name, step, insert = setup(insert_for)
    kind(step, *how)
    compare(c, name, step, insert, val("state"))


def ob_plain():
    drive(False, plain)


def ob_plain_insert():
    drive(True, plain)


def ob_partial():
    drive(False, partial_of, False, False)


def ob_partial_keywords():
    drive(False, partial_of, False, True)


def ob_partial_args():
    drive(False, partial_of, True, False)


def ob_partial_args_keywords():
    drive(False, partial_of, True, True)


def ob_partial_insert():
    drive(True, partial_of, False, False)


def ob_partial_insert_keywords():
    drive(True, partial_of, False, True)


def ob_partial_insert_args():
    drive(True, partial_of, True, False)


def ob_partial_insert_args_keywords():
    drive(True, partial_of, True, True)
