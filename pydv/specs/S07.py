"""S07: unnesting keeps every leaf under its full path.

UN(m, types, escape, levels) is the uninterpreted list of single-entry records of a mapping below the given levels.  The body
of the recursive helper satisfies the definition ref_level; unnest merges the records in order; and the key of a leaf unfolds
level by level into the documented form."""
st = load("dustgoggles.structures")
ASSUMES = ["nesting is finite", "cytoolz.merge merges left to right, later values winning", "opaque mappings satisfy the Mapping interface"]


def UN(m, types, escape, levels):
    return uf_list("UN", m, types, escape, levels)


def key(escape, levels, k):
    """<escape><level><escape>_ for every level above, then the leaf's own key"""
    if len(levels) == 0:
        return str(k)
    return escape + (escape + "_" + escape).join([str(x) for x in levels]) + escape + "_" + str(k)


def ref_level(m, types, escape, levels):
    out = []
    for k, v in m.items():
        if isinstance(v, types):
            out += UN(v, types, escape, levels + [k])
        else:
            out.append({key(escape, levels, k): v})
    return out


def ob_unnest_level():
    pure()
    contract(st._unnest, UN)
    m, types, escape = mapping("m"), obj("types"), str_("escape")
    assume(isinstance(m, types))
    levels = [] if case("top") else lst("levels")
    got = outcome(lambda: st._unnest(m, types, escape, levels))
    want = outcome(lambda: ref_level(m, types, escape, levels))
    ensure_outcome("unnest.level", got, want)


def ob_key_unfolds():
    """key([], k) = str(k) and key(L + [l], k) = key(L, <escape>l<escape>_k): by induction the documented form"""
    escape, L, l, k = str_("escape"), lst("L"), val("l"), val("k")
    ensure_same("unnest.key_top", key(escape, [], k), str(k))
    ensure_same("unnest.key_step", key(escape, L + [l], k), key(escape, L, escape + str(l) + escape + "_" + str(k)))


def ob_unnest():
    pure()
    contract(st._unnest, UN, 0)
    m, types, escape = mapping("m"), obj("types"), str_("escape")
    defaults = case("defaults")
    got = outcome((lambda: st.unnest(m)) if defaults else (lambda: st.unnest(m, types, escape)))
    if defaults:
        types, escape = (dict,), ""

    def merged():
        out = {}
        for rec in UN(m, types, escape, []):
            out.update(rec)
        return out
    ensure_outcome("unnest.merge", got, outcome(merged))
