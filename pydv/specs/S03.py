"""S03: nested editing changes exactly the matching entries, in place, at every depth.

The mapping is a dictionary of arbitrary content; recursive calls are logged (which object, in which order) instead of executed.
What is shown is the step of the induction on nesting: after the call the dictionary has the keys it had, in their order; a matched
entry holds the setter's result; and the same edit was made to every nested mapping among the values now present, once each,
and to nothing else."""
st = load("dustgoggles.structures")
ASSUMES = ["nesting is finite and no mapping occurs twice in it", "filter and setter are pure functions of key and value"]

def EDIT(m, p, s, types):
    """the log entry of a recursive call; it returns the mapping it edits"""
    f = z3.Function("EDIT", World, Val, Val, Val, Val, World)
    set_world(f(world(), embed(m), embed(p), embed(s), embed(types)))
    return m


def ob_level():
    pure()
    contract(st.dig_and_edit, EDIT)
    m, p, s, types = dct("m"), callable_("p"), callable_("s"), obj("types")
    want = {}
    for k, v in m.items():
        want[k] = s(k, v) if p(k, v) else v
    w0 = world()
    for v in want.values():
        if isinstance(v, types):
            EDIT(v, p, s, types)
    w1 = world()
    set_world(w0)
    got = outcome(lambda: st.dig_and_edit(m, p, s, types))
    ensure("dig_and_edit.no_exception", got[0] == "ok")
    ensure("dig_and_edit.in_place", got[1] is m)
    ensure_same("dig_and_edit.entries", [e for e in m.items()], [e for e in want.items()])
    ensure_world("dig_and_edit.descends", world(), w1)


def ob_default_types():
    pure()
    contract(st.dig_and_edit, EDIT)
    m, p, s = dct("m"), callable_("p"), callable_("s")
    want = {}
    for k, v in m.items():
        want[k] = s(k, v) if p(k, v) else v
    w0 = world()
    for v in want.values():
        if isinstance(v, dict):
            EDIT(v, p, s, (dict,))
    w1 = world()
    set_world(w0)
    got = outcome(lambda: st.dig_and_edit(m, p, s))
    ensure("dig_and_edit.no_exception", got[0] == "ok")
    ensure("dig_and_edit.in_place", got[1] is m)
    ensure_same("dig_and_edit.entries", [e for e in m.items()], [e for e in want.items()])
    ensure_world("dig_and_edit.descends_into_dicts", world(), w1)


def ob_level_raising():
    """a filter or setter that raises is not taken for one that gave something: an exception gets out, and no key is lost"""
    pure(raises=True)
    contract(st.dig_and_edit, EDIT)
    m, p, s, types = dct("m"), callable_("p"), callable_("s"), obj("types")

    def reference():
        matches = [k for k, v in m.items() if p(k, v)]
        out = {}
        for k in matches:
            out[k] = s(k, m[k])
        return out
    want = outcome(reference)
    before = m.copy()
    got = outcome(lambda: st.dig_and_edit(m, p, s, types))
    if want[0] != "ok":
        ensure("dig_and_edit.exception_gets_out", got[0] != "ok")
        ensure_same("dig_and_edit.same_keys", list(m), list(before))
    else:
        ensure("dig_and_edit.ok", got[0] == "ok")
