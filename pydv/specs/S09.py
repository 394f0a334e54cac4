"""S09: reshaping helpers keep every element, in order, exactly once."""
from collections.abc import Mapping, Collection
st = load("dustgoggles.structures")
ASSUMES = ["opaque mappings satisfy the Mapping interface", "opaque collections give the same elements on every iteration"]


def numbered(values):
    out, n = {}, 0
    for v in values:
        out[n] = v
        n = n + 1
    return out


def same_items(name, got, want):
    ensure("%s.no_exception" % name, got[0] == "ok")
    ensure_same(name + ".content", got[1], want)
    ensure_same(name + ".order", list(got[1].items()), list(want.items()))


def ob_reindex_mapping():
    m = mapping("m")
    same_items("reindex_mapping", outcome(lambda: st.reindex_mapping(m)), numbered(m.values()))


def ob_enumerate_as_mapping():
    which = "none" if case("none") else "mapping" if case("mapping") else "sequence"
    if which == "none":
        same_items("enumerate_as_mapping.none", outcome(lambda: st.enumerate_as_mapping(None)), {})
    elif which == "mapping":
        m = mapping("m")
        ensure_outcome("enumerate_as_mapping.mapping", outcome(lambda: st.enumerate_as_mapping(m)), ("ok", m))
    else:
        s = seq("s") if case("tuple") else lst("s")
        same_items("enumerate_as_mapping.sequence", outcome(lambda: st.enumerate_as_mapping(s)), numbered(s))


def ob_separate_by():
    effects()
    ref, s = callable_("ref"), seq("s") if case("tuple") else lst("s")
    w0 = world()
    got = outcome(lambda: st.separate_by(s, ref))
    w1 = world()
    set_world(w0)

    def want():
        hits, misses = [], []
        for x in s:
            if ref(x) is True:
                hits.append(x)
            else:
                misses.append(x)
        return hits, misses
    want = outcome(want)
    ensure_outcome("separate_by.lists", got, want)
    ensure_world("separate_by.tests_once_each", w1, world())


def ob_get_from_all():
    k, d = val("key"), val("default")
    if case("mapping"):
        ms = mapping("ms")
        view = ms.values()
    else:
        ms = view = seq("ms") if case("tuple") else lst("ms")
    got = outcome(lambda: st.get_from_all(k, ms, d))
    want = ("ok", [m[k] if k in m else d for m in view])
    ensure_outcome("get_from_all.values", got, want)
    got = outcome(lambda: st.get_from_all(k, ms))
    want = ("ok", [m[k] if k in m else None for m in view])
    ensure_outcome("get_from_all.default_none", got, want)


def ob_listify():
    v = val("v")
    got = outcome(lambda: st.listify(v))
    if isinstance(v, Collection) and not isinstance(v, str):
        ensure_outcome("listify.collection", got, ("ok", [x for x in v]))
    else:
        ensure_outcome("listify.wraps", got, ("ok", [v]))


def ob_listify_known():
    s = seq("s") if case("tuple") else lst("s")
    ensure_outcome("listify.sequence", outcome(lambda: st.listify(s)), ("ok", [x for x in s]))
    t = str_("t")
    ensure_outcome("listify.string", outcome(lambda: st.listify(t)), ("ok", [t]))


def ob_insert_after():
    m, new, value, prior = mapping("m"), val("new"), val("value"), val("prior")
    assume(new not in m)
    got = outcome(lambda: st.insert_after(new, value, prior, m))
    ensure("insert_after.no_exception", got[0] == "ok")
    want = []
    for k, v in m.items():
        want.append((k, v))
        if k == prior:
            want.append((new, value))
    ensure_same("insert_after.items", list(got[1].items()), want)
