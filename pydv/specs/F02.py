"""F02: call wrappers call the wrapped function exactly when and how they should.

Opaque functions are effectful: every call appends to an abstract history (the world), so equal worlds mean the same calls
with the same arguments in the same order; any call may raise an arbitrary exception."""
func = load("dustgoggles.func")


def ob_catch_interaction():
    effects()
    f, flag, d, args, kw = callable_("f"), val("flag"), val("default"), seq("args"), dct("kwargs")
    give = case("default_given")
    w0 = world()
    if give:
        got = outcome(lambda: func.catch_interaction(flag, f, *args, _default=d, **kw))
    else:
        got = outcome(lambda: func.catch_interaction(flag, f, *args, **kw))
    w1 = world()
    R().world = w0
    if flag:
        want = ("ok", d if give else "")
    else:
        want = outcome(lambda: f(*args, **kw))
    ensure_outcome("catch_interaction.result", got, want)
    ensure_world("catch_interaction.calls", w1, world())


def ob_optionalize():
    effects()
    f, cb, args, kw = callable_("f"), callable_("callback"), seq("args"), dct("kwargs")
    opt = func.optionalize(f, cb)
    w0 = world()
    got = outcome(lambda: opt(*args, **kw))
    w1 = world()
    R().world = w0
    want = outcome(lambda: ref_optionalize(f, cb, args, kw))
    ensure_outcome("optionalize.result", got, want)
    ensure_world("optionalize.calls", w1, world())


def ref_optionalize(f, cb, args, kw):
    try:
        return f(*args, **kw)
    except KeyboardInterrupt:
        raise
    except Exception as ex:
        cb(ex)
        return None


def ob_triggerize():
    effects()
    f = callable_("f")
    t = func.triggerize(f)
    w0 = world()
    if case("state_given"):
        s = val("state")
        got = outcome(lambda: t(s))
    else:
        s = None
        got = outcome(lambda: t())
    w1 = world()
    R().world = w0
    want = outcome(lambda: ref_trigger(f, s))
    ensure_outcome("triggerize.result", got, want)
    ensure_world("triggerize.calls", w1, world())


def ref_trigger(f, s):
    f()
    return s


def ob_constant():
    effects()
    v, args, kw = val("v"), seq("args"), dct("kwargs")
    c = func.constant(v)
    w0 = world()
    got = outcome(lambda: c(*args, **kw))
    ensure_outcome("constant.result", got, ("ok", v))
    ensure_world("constant.no_calls", world(), w0)
    ensure_outcome("constant.same_again", outcome(lambda: c()), ("ok", v))


def ob_zero():
    effects()
    args, kw = seq("args"), dct("kwargs")
    w0 = world()
    ensure_outcome("zero.result", outcome(lambda: func.zero(*args, **kw)), ("ok", None))
    ensure_world("zero.no_calls", world(), w0)


def ob_pass_parameters():
    effects()
    f, args, kw = callable_("f"), seq("args"), dct("kwargs")
    w0 = world()
    got = outcome(lambda: func.pass_parameters(f, *args, **kw))
    w1 = world()
    R().world = w0
    ensure_outcome("pass_parameters.result", got, outcome(lambda: f(*args, **kw)))
    ensure_world("pass_parameters.calls", w1, world())


def ob_splat():
    effects()
    f, args = callable_("f"), seq("args")
    s = func.splat(f)
    w0 = world()
    got = outcome(lambda: s(args))
    w1 = world()
    R().world = w0
    ensure_outcome("splat.result", got, outcome(lambda: f(*args)))
    ensure_world("splat.calls", w1, world())


def ob_argstop():
    effects()
    f, kw, n = callable_("f"), dct("kwargs"), int_("n")
    assume(n >= 0)
    unpack = case("unpack")
    g = func.argstop(f, n, unpack)
    one = case("one_argument")
    if one:
        inner = seq("inner")
        args = (inner,) if unpack else (val("only"),)
    else:
        args = seq("args")
        assume(len(args) != 1)
    w0 = world()
    got = outcome(lambda: g(*args, **kw))
    w1 = world()
    R().world = w0
    if one and unpack:
        want = outcome(lambda: f(*inner[:n], **kw))
    else:
        want = outcome(lambda: f(*SymTuple(list_content(args))[:n], **kw))
    ensure_outcome("argstop.result", got, want)
    ensure_world("argstop.calls", w1, world())


def ob_gmap():
    effects()
    f, mapper, ev, its = callable_("f"), callable_("mapper"), callable_("evaluator"), seq("iterables")
    w0 = world()
    got = outcome(lambda: func.gmap(f, *its, mapper=mapper, evaluator=ev))
    w1 = world()
    R().world = w0
    ensure_outcome("gmap.result", got, outcome(lambda: ev(mapper(f, *its))))
    ensure_world("gmap.calls", w1, world())


def ob_gmap_default():
    pure(raises=True)
    f, it = callable_("f"), seq("iterable")
    got = outcome(lambda: func.gmap(f, it))
    want = outcome(lambda: tuple([f(x) for x in it]))
    ensure_outcome("gmap.default", got, want)


def ob_gmap_two():
    pure()
    f, a, b = callable_("f"), seq("a"), seq("b")
    got = outcome(lambda: func.gmap(f, a, b))
    want = outcome(lambda: tuple([f(x, y) for x, y in zip(a, b)]))
    ensure_outcome("gmap.two_iterables", got, want)


def ob_gmap_effects():
    effects()
    f, it = callable_("f"), seq("iterable")
    w0 = world()
    got = outcome(lambda: func.gmap(f, it))
    w1 = world()
    R().world = w0
    want = outcome(lambda: tuple([f(x) for x in it]))
    ensure_outcome("gmap.effects.result", got, want)
    ensure_world("gmap.effects.calls", w1, world())


def ob_filtern():
    effects()
    f, it = callable_("f"), seq("iterable")
    w0 = world()
    got = outcome(lambda: func.filtern(f, it))
    w1 = world()
    R().world = w0
    want = outcome(lambda: ref_filtern(f, it))
    ensure_outcome("filtern.result", got, want)
    ensure_world("filtern.calls", w1, world())


def ref_filtern(f, it):
    for x in it:
        if f(x):
            return x
    raise StopIteration
