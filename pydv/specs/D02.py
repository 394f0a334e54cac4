"""D02: dynamic functions record failures and move cleanly between states.

Every method is verified on a dynamic in an arbitrary state (loaded or not, any errors, any flags) satisfying the invariant that a call
record is only ever last while the call-failure flag is set.  The wrapped function is arbitrary and may raise anything; compiling and
defining are arbitrary functions that may fail; exc_report is under its own contract (D01)."""
import inspect
dynamic = load("dustgoggles.dynamic")
ASSUMES = ["compile() and FunctionType() are functions of their arguments, or fail", "inspect.signature succeeds on a function"]


def details(ex):
    return {"exception": uf_val("exception_of", ex)}


def compiled(source):
    return obj("compile")(source)


def defined(code, globals_=None):
    return obj("make_function")(code, globals_)


def unloaded(**how):
    """a dynamic that is not loaded, whatever it went through before"""
    contract(dynamic.exc_report, details, unfold=0)
    contract(dynamic.compile_source, compiled, unfold=0)
    contract(dynamic.define, defined, unfold=0)
    has_attributes("__name__")
    d = dynamic.Dynamic(val("source"), val("globals"), lazy=True, **how)
    d.errors = lst("errors")
    d.call_fail, d.compile_fail = bool_("call_fail"), bool_("compile_fail")
    assume(d.call_fail or len(d.errors) == 0 or d.errors[-1].get("category") != "call")
    return d


def loaded(**how):
    d = unloaded(**how)
    d.func, d.code = callable_("func"), obj("code")
    return d


def state(d):
    return d.func, d.code, d.source, [e for e in d.errors], d.call_fail, d.compile_fail, d.optional, d.load_on_call


def same_state(name, d, before):
    for what, new, old in zip(("func", "code", "source", "errors", "call_fail", "compile_fail", "optional", "load_on_call"), state(d), before):
        ensure_same(f"{name}.{what}_unchanged", new, old)


def ordinary(ex):
    return isinstance(ex, Exception)


# ---- calls
def call(required, by_keyword):
    effects(raises=True)
    args, kw = seq("args"), dct("kwargs")
    assume("_optional" not in kw)
    if by_keyword:
        d = loaded(optional=val("optional"))
        flag = False if required else True
    else:
        d = loaded(optional=False if required else True)
    f, before = d.func, state(d)
    w0 = world()
    want = outcome(lambda: f(*args, **kw))
    w1 = world()
    set_world(w0)
    if by_keyword:
        got = outcome(lambda: d(*args, _optional=flag, **kw))
    else:
        got = outcome(lambda: d(*args, **kw))
    ensure_world("call.one_call_with_these_arguments", world(), w1)
    if want[0] == "ok":
        ensure_outcome("call.result", got, want)
        same_state("call.success", d, before)
    elif required:
        ensure_outcome("call.exception_leaves", got, want)
        same_state("call.required", d, before)
    elif ordinary(want[1]):
        ensure("call.optional_gives_none", got[0] == "ok" and got[1] is None)
        ensure_same("call.optional_one_record_more", len(d.errors), len(before[3]) + 1)
        ensure_same("call.optional_record_is_a_call_failure", d.errors, before[3] + [details(want[1]) | {"func": f, "category": "call"}])
        ensure_same("call.optional_flag_set", d.call_fail, True)
        ensure_same("call.optional_compile_flag_unchanged", d.compile_fail, before[5])
        ensure("call.optional_still_loaded", d.func is f and d.code is before[1])
    else:
        ensure_outcome("call.interrupt_leaves", got, want)


def ob_call_required():
    call(True, False)


def ob_call_required_by_keyword():
    call(True, True)


def ob_call_optional():
    call(False, False)


def ob_call_optional_by_keyword():
    call(False, True)


# ---- states
def refused(name, d, go):
    before = state(d)
    w0 = world()
    got = outcome(go)
    ensure(name + ".refused", got[0] == "raised" and type(got[1]) is dynamic.AlreadyLoadedError)
    ensure_world(name + ".calls_nothing", world(), w0)
    same_state(name, d, before)


def ob_load_again():
    effects(raises=True)
    d = loaded()
    refused("load", d, lambda: d.load())


def ob_define_again():
    effects(raises=True)
    d = loaded()
    refused("define", d, lambda: d.define())


def ob_compile_again():
    effects(raises=True)
    d = loaded()
    refused("compile", d, lambda: d.compile_source(False))


def ob_unload():
    effects(raises=True)
    if case("loaded"):
        d = loaded()
    else:
        d = unloaded()
    source, globals_, optional, on_call = d.source, d.globals_, d.optional, d.load_on_call
    d.unload()
    ensure("unload.no_function_no_code", d.func is None and d.code is None)
    ensure_same("unload.no_errors", d.errors, [])
    ensure("unload.no_flags", d.call_fail is False and d.compile_fail is False)
    ensure_same("unload.source_kept", d.source, source)
    ensure_same("unload.globals_kept", d.globals_, globals_)
    ensure_same("unload.settings_kept", (d.optional, d.load_on_call), (optional, on_call))


def ob_call_refused():
    effects(raises=True)
    on_call = val("load_on_call")
    assume(on_call is not True)
    d = unloaded(load_on_call=on_call)
    before = state(d)
    w0 = world()
    got = outcome(lambda: d(*seq("args")))
    ensure("call.unready_refused", got[0] == "raised" and type(got[1]) is dynamic.UnreadyError)
    ensure_world("call.unready_calls_nothing", world(), w0)
    same_state("call.unready", d, before)


def ob_call_reloads():
    """an unloaded one that compiles and defines: the call goes to the function made from its source in its globals"""
    effects(raises=True)
    d, args = unloaded(load_on_call=True), seq("args")
    before, globals_ = state(d), d.globals_
    w0 = world()

    def reference():
        code = compiled(d.source)
        f = defined(code, globals_)
        return f, code
    made = outcome(reference)
    assume(made[0] == "ok")
    f, code = made[1]
    want = outcome(lambda: f(*args))
    w1 = world()
    set_world(w0)
    got = outcome(lambda: d(*args, _optional=False))
    ensure_outcome("reload.result", got, want)
    ensure_world("reload.compiled_defined_called_once", world(), w1)
    ensure_same("reload.loaded", (d.func, d.code), (f, code))
    ensure_same("reload.errors_unchanged", d.errors, before[3])
    ensure_same("reload.flags_unchanged", (d.call_fail, d.compile_fail), (before[4], before[5]))


def ob_load_records_compile_failure():
    """source that does not compile leaves one compile record and the compile flag, whatever defining does with it"""
    effects(raises=True)
    d = unloaded()
    before = state(d)
    w0 = world()
    want = outcome(lambda: compiled(d.source))
    assume(want[0] == "raised")
    assume(ordinary(want[1]))
    set_world(w0)
    d.compile_source()
    ensure_same("compile.failure_recorded", d.errors, before[3] + [details(want[1]) | {"category": "compile"}])
    ensure_same("compile.flag_set", d.compile_fail, True)
    ensure_same("compile.call_flag_unchanged", d.call_fail, before[4])


def ob_construct():
    """a new one is loaded at once unless asked to be lazy"""
    effects(raises=True)
    contract(dynamic.exc_report, details, unfold=0)
    contract(dynamic.compile_source, compiled, unfold=0)
    contract(dynamic.define, defined, unfold=0)
    has_attributes("__name__")
    source, globals_ = val("source"), val("globals")
    w0 = world()

    def reference():
        code = compiled(source)
        return defined(code, globals_), code
    made = outcome(reference)
    assume(made[0] == "ok")
    w1 = world()
    set_world(w0)
    d = dynamic.Dynamic(source, globals_)
    ensure_same("construct.loaded", (d.func, d.code), made[1])
    ensure_world("construct.compiled_defined_once", world(), w1)
    ensure_same("construct.no_errors", d.errors, [])
    ensure("construct.no_flags", d.call_fail is False and d.compile_fail is False)
    ensure("construct.required_and_loaded_on_call_unless_asked", d.optional is False and d.load_on_call is True)
    ensure_same("construct.settings_kept", (d.source, d.globals_), (source, globals_))
    asked, on_call = val("asked_optional"), val("asked_load_on_call")
    set_world(w0)
    d = dynamic.Dynamic(source, globals_, asked, False, on_call)
    ensure("construct.asked_settings_kept", d.optional is asked and d.load_on_call is on_call)
    set_world(w0)
    d = dynamic.Dynamic(source, globals_, lazy=True)
    ensure("construct.lazy_unloaded", d.func is None and d.code is None)
    ensure_world("construct.lazy_calls_nothing", world(), w0)


def ob_from_function():
    effects(raises=True)
    f = callable_("f")
    has_attributes("__name__", "__code__", "__globals__")
    source = outcome(lambda: inspect.getsource(f))
    assume(source[0] == "ok")
    w0 = world()
    d = dynamic.Dynamic.from_function(f)
    ensure("from_function.loaded_with_it", d.func is f)
    ensure_same("from_function.source_kept", d.source, source[1])
    ensure_same("from_function.globals_kept", d.globals_, f.__globals__)
    ensure_same("from_function.code_kept", d.code, f.__code__)
    ensure_same("from_function.no_errors", d.errors, [])
    ensure("from_function.no_flags", d.call_fail is False and d.compile_fail is False)
    ensure_world("from_function.calls_nothing", world(), w0)
    asked, on_call = val("asked_optional"), val("asked_load_on_call")
    d = dynamic.Dynamic.from_function(f, optional=asked, load_on_call=on_call)
    ensure("from_function.asked_settings_kept", d.optional is asked and d.load_on_call is on_call)
    ensure("from_function.still_loaded_with_it", d.func is f)
    ensure_world("from_function.still_calls_nothing", world(), w0)


# ---- compiled but not defined: after a call of compile_source alone
def ob_compile_then_define():
    effects(raises=True)
    d = unloaded()
    before, globals_ = state(d), d.globals_
    w0 = world()
    made = outcome(lambda: compiled(d.source))
    assume(made[0] == "ok")
    code = made[1]
    assume(code is not None)
    w1 = world()
    set_world(w0)
    d.compile_source()
    ensure("compile.code_only", d.code is code and d.func is None)
    ensure_same("compile.errors_unchanged", d.errors, before[3])
    ensure_same("compile.flags_unchanged", (d.call_fail, d.compile_fail), (before[4], before[5]))
    ensure_world("compile.compiled_once", world(), w1)
    refused("compile_again", d, lambda: d.compile_source(False))
    refused("load_when_compiled", d, lambda: d.load())
    refused("call_when_compiled", d, lambda: d())
    want = outcome(lambda: defined(code, globals_))
    assume(want[0] == "ok")
    w2 = world()
    set_world(w1)
    d.define()
    ensure("define.made_from_the_code", d.func is want[1] and d.code is code)
    ensure_world("define.defined_once", world(), w2)


def ob_reload():
    """asked to reload, a loaded one compiles and defines again"""
    effects(raises=True)
    d = loaded()
    before, globals_ = state(d), d.globals_
    w0 = world()

    def reference():
        code = compiled(d.source)
        return defined(code, globals_), code
    made = outcome(reference)
    assume(made[0] == "ok")
    w1 = world()
    set_world(w0)
    d.load(reload=True)
    ensure_same("reload.asked_loaded_afresh", (d.func, d.code), made[1])
    ensure_world("reload.asked_compiled_defined_once", world(), w1)
    ensure_same("reload.asked_errors_unchanged", d.errors, before[3])


def ob_recompile():
    """compiling again is allowed unless refused by argument, and leaves the function alone"""
    effects(raises=True)
    d = loaded()
    before = state(d)
    w0 = world()
    made = outcome(lambda: compiled(d.source))
    assume(made[0] == "ok")
    set_world(w0)
    d.compile_source()
    ensure("recompile.new_code_same_function", d.code is made[1] and d.func is before[0])
    ensure_same("recompile.errors_unchanged", d.errors, before[3])
