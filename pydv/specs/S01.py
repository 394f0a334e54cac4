"""S01: searching a nested mapping for all matches is complete and exact.

DIG(m, p, types) is the (uninterpreted) list of all matches of a mapping.  Its definition, by recursion on nesting, is
ref_level; the code's recursive function is shown to satisfy exactly that definition, with its own recursive calls replaced by
DIG.  Over finite mappings the definition has one solution, so the two agree."""
st = load("dustgoggles.structures")
ASSUMES = ["nesting is finite (the definition by recursion on nesting is well founded)",
           "opaque mappings satisfy the Mapping interface: items/values/keys agree, keys are unique, lookups do not modify",
           "the predicate of a match rule is a pure function in the pure-mode obligations"]


def DIG(m, p, types):
    return uf_list("DIG", m, p, types, view=2)


def ref_level(m, p, types):
    out = [(k, v) for k, v in m.items() if p(k, v)]
    for v in m.values():
        if isinstance(v, types):
            out += DIG(v, p, types)
    return out


def ob_dig_for_all():
    pure(raises=True)
    contract(st.dig_for_all, DIG)
    m, p, types = mapping("m"), callable_("p"), obj("types")
    got = outcome(lambda: st.dig_for_all(m, p, types))
    want = outcome(lambda: ref_level(m, p, types))
    ensure_outcome("dig_for_all.definition", got, want)


def matcher(ref, match, base):
    """the documented meaning of a match rule"""
    if callable(ref):
        return lambda k, v: ref(k, v)
    if match == "key":
        return lambda k, v: base(ref, k)
    if match == "value":
        return lambda k, v: base(ref, v)
    return lambda k, v: base(ref, k, v)


def ob_match_rule():
    effects()
    ref, base, k, v = val("ref"), callable_("base"), val("k"), val("v")
    for match in ("key", "value", "item"):
        w0 = world()
        got = outcome(lambda: st.constant_to_dig_predicate(ref, match, base)(k, v))
        w1 = world()
        set_world(w0)
        want = outcome(lambda: matcher(ref, match, base)(k, v))
        ensure_outcome("match_rule." + match, got, want)
        ensure_world("match_rule.calls." + match, w1, world())
        set_world(w0)


def ob_match_rule_default():
    pure()
    import operator
    ref, k, v = val("ref"), val("k"), val("v")
    got = outcome(lambda: st.constant_to_dig_predicate(ref)(k, v))
    want = outcome(lambda: ref(k, v) if callable(ref) else ref == k)
    ensure_outcome("match_rule.default", got, want)


def wrapper(fn, pick):
    pure()
    m, ref, base, types = mapping("m"), val("ref"), callable_("base"), obj("types")
    P = callable_("P")
    seen = []
    contract(st.constant_to_dig_predicate, lambda r, match="key", default=None: uf_val("RULE", r, match, default), 0)
    contract(st.dig_for_all, DIG, 0)
    for match in ("key", "value", "item"):
        got = outcome(lambda: fn(m, ref, match, base, types))
        rule = uf_val("RULE", ref, match, base)
        items = DIG(m, rule, types)
        want = ("ok", None if len(items) == 0 else [pick(x) for x in items])
        ensure_outcome("wrapper." + match, got, want)
    import operator
    got = outcome(lambda: fn(m, ref))
    items = DIG(m, uf_val("RULE", ref, "key", operator.eq), (dict,))
    ensure_outcome("wrapper.defaults", got, ("ok", None if len(items) == 0 else [pick(x) for x in items]))


def ob_dig_for_items():
    wrapper(st.dig_for_items, lambda x: x)


def ob_dig_for_values():
    wrapper(st.dig_for_values, lambda x: x[1])


def ob_dig_for_keys():
    wrapper(st.dig_for_keys, lambda x: x[0])
