"""S02: a single-result nested search finds a match whenever one exists.

DIG(m, p, types), the list of all matches, is defined by recursion on nesting (see S01).  dig_for's contract: None when DIG is
empty, otherwise a non-empty list whose first element is the first of DIG.  The body is verified against it with its own
recursive calls replaced by the contract; the three wrappers are verified against dig_for's contract."""
st = load("dustgoggles.structures")
ASSUMES = ["nesting is finite (the definition of DIG by recursion on nesting is well founded)",
           "opaque mappings satisfy the Mapping interface", "the predicate of a match rule is a pure function"]


def DIG(m, p, types):
    return uf_list("DIG", m, p, types, view=2)


def ref_level(m, p, types):
    out = [(k, v) for k, v in m.items() if p(k, v)]
    for v in m.values():
        if isinstance(v, types):
            out += DIG(v, p, types)
    return out


def dig_for_contract(m, p, types):
    d = DIG(m, p, types)
    if len(d) == 0:
        return None
    r = uf_list("FIRST_LEVEL", m, p, types, view=2)
    assume(len(r) > 0)
    assume(r[0] == d[0])
    return r


def ob_dig_for():
    pure()
    contract(st.dig_for, dig_for_contract)
    m, p, types = mapping("m"), callable_("p"), obj("types")
    got = outcome(lambda: st.dig_for(m, p, types))
    ensure("dig_for.no_exception", got[0] == "ok")
    want = ref_level(m, p, types)
    if len(want) == 0:
        ensure("dig_for.none", got[1] is None)
    else:
        ensure("dig_for.found", got[1] is not None and len(got[1]) > 0)
        ensure_same("dig_for.first", got[1][0], want[0])


def ob_dig_for_raises():
    """an exception of the predicate is never swallowed at the level it is raised"""
    pure(raises=True)
    contract(st.dig_for, dig_for_contract)
    m, p, types = mapping("m"), callable_("p"), obj("types")
    got = outcome(lambda: st.dig_for(m, p, types))
    want = outcome(lambda: [1 for k, v in m.items() if p(k, v)])
    if want[0] == "raised":
        ensure_outcome("dig_for.raises", got, want)


def wrapper(fn, pick):
    import operator
    pure()
    m, ref, base, types = mapping("m"), val("ref"), callable_("base"), obj("types")
    contract(st.constant_to_dig_predicate, lambda r, match="key", default=None: uf_val("RULE", r, match, default), 0)
    contract(st.dig_for, dig_for_contract, 0)
    for match in ("key", "value", "item"):
        got = outcome(lambda: fn(m, ref, match, base, types))
        items = DIG(m, uf_val("RULE", ref, match, base), types)
        ensure_outcome("wrapper." + match, got, ("ok", None if len(items) == 0 else pick(items[0])))
    got = outcome(lambda: fn(m, ref))
    items = DIG(m, uf_val("RULE", ref, "key", operator.eq), (dict,))
    ensure_outcome("wrapper.defaults", got, ("ok", None if len(items) == 0 else pick(items[0])))


def ob_dig_for_item():
    wrapper(st.dig_for_item, lambda x: x)


def ob_dig_for_value():
    wrapper(st.dig_for_value, lambda x: x[1])


def ob_dig_for_key():
    wrapper(st.dig_for_key, lambda x: x[0])


def ob_match_rule():
    pure(raises=True)
    ref, base, k, v = val("ref"), callable_("base"), val("k"), val("v")
    for match in ("key", "value", "item"):
        got = outcome(lambda: st.constant_to_dig_predicate(ref, match, base)(k, v))
        want = outcome(lambda: matched(ref, match, base, k, v))
        ensure_outcome("match_rule." + match, got, want)


def matched(ref, match, base, k, v):
    if callable(ref):
        return ref(k, v)
    if match == "key":
        return base(ref, k)
    if match == "value":
        return base(ref, v)
    return base(ref, k, v)
