"""S05: recursive merge is a deep right-biased union.

RMERGE is the uninterpreted meaning of a recursive call; the body is shown to produce, key by key, exactly the documented value."""
st = load("dustgoggles.structures")
ASSUMES = ["nesting is finite", "opaque mappings satisfy the Mapping interface: items/values/keys agree, keys are unique, lookups do not modify",
           "no mutation: opaque mappings are only read through items/keys/values/lookup in the verified body (any other use is unsupported)"]


def RMERGE(a, b, types=None):
    return uf_val("RMERGE", a, b, types)


def check(types, explicit):
    pure()
    contract(st.rmerge, RMERGE)
    a, b, k = mapping("a"), mapping("b"), val("k")
    got = outcome((lambda: st.rmerge(a, b, types)) if explicit else (lambda: st.rmerge(a, b)))
    ensure("rmerge.no_exception", got[0] == "ok")
    out = got[1]
    ensure("rmerge.keys", (k in out) == (k in a or k in b))
    if k in a:
        if k not in b:
            ensure_same("rmerge.left_only", out[k], a[k])
        elif isinstance(a[k], types) and isinstance(b[k], types):
            ensure_same("rmerge.recursive", out[k], RMERGE(a[k], b[k], types))
        else:
            ensure_same("rmerge.right_wins", out[k], b[k])
    elif k in b:
        ensure_same("rmerge.right_only", out[k], b[k])


def ob_rmerge():
    check(obj("types"), True)


def ob_rmerge_default_types():
    from collections import OrderedDict
    check((dict, OrderedDict), False)
