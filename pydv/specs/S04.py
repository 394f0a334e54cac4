"""S04: auto-nesting dictionaries nest at any depth and convert to plain dicts.

Indexing is verified on the class as it runs on collections.defaultdict's protocol.  The conversion is verified one level at a
time: the plain result has the keys of the level in their order, each auto-nesting value replaced by a plain dictionary with the
same items, every other value kept; and the same edit is made, in place, to every dictionary among the values of the result."""
st = load("dustgoggles.structures")
ASSUMES = ["collections.defaultdict calls default_factory for a missing key and stores its result", "nesting is finite and no mapping occurs twice in it"]


def EDIT(m, p, s, types=(dict,)):
    f = z3.Function("EDIT", World, Val, Val, World)
    k, v = val("any_key"), val("any_value")
    require_same("todict.selects_auto_nesting", bool(p(k, v)), isinstance(v, st.NestingDict))
    plain = s(k, v)
    require("todict.replaces_by_plain_dict", type(plain) is dict and plain is not v)
    require_same("todict.keeps_the_items", [e for e in plain.items()], [e for e in v.items()])
    set_world(f(world(), embed(m), embed(types)))
    return m


def ob_missing():
    pure()
    nd, k = st.NestingDict(), val("k")
    child = nd[k]
    ensure("nesting.child_type", type(child) is st.NestingDict)
    ensure("nesting.child_is_new", child is not nd)
    ensure("nesting.child_empty", len(child) == 0)
    ensure("nesting.child_stored", nd[k] is child)
    ensure_same("nesting.only_that_key", [x for x in nd.keys()], [k])
    j, v = val("j"), val("v")
    child[j] = v
    ensure_same("nesting.read_back", nd[k][j], v)


def ob_existing():
    pure()
    nd, k = st.NestingDict(None, dct("content")), val("k")
    before = [e for e in nd.items()]
    assume(k in nd)
    a = nd[k]
    ensure_same("nesting.existing_returned", a, dct("content")[k])
    ensure_same("nesting.existing_unchanged", [e for e in nd.items()], before)


def ob_missing_among_others():
    pure()
    nd, k = st.NestingDict(None, dct("content")), val("k")
    before = [e for e in nd.items()]
    assume(k not in nd)
    child = nd[k]
    ensure("nesting.child_type", type(child) is st.NestingDict)
    ensure("nesting.child_stored", nd[k] is child)
    ensure_same("nesting.others_kept", [e for e in nd.items()], before + [(k, child)])


def ob_todict():
    pure()
    contract(st.dig_and_edit, EDIT)
    nd = st.NestingDict(None, dct("content"))
    want = {}
    for k, v in nd.items():
        want[k] = dict(v) if isinstance(v, st.NestingDict) else v
    w0 = world()
    f = z3.Function("EDIT", World, Val, Val, World)
    for v in want.values():
        if isinstance(v, dict):
            set_world(f(world(), embed(v), embed((dict,))))
    w1 = world()
    set_world(w0)
    got = outcome(lambda: nd.todict())
    ensure("todict.no_exception", got[0] == "ok")
    ensure("todict.plain", type(got[1]) is dict)
    ensure_same("todict.entries", [e for e in got[1].items()], [e for e in want.items()])
    ensure_world("todict.descends", world(), w1)
