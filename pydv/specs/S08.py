"""S08: hierarchical lookup returns the addressed item or the default, never an error."""
st = load("dustgoggles.structures")
ASSUMES = ["a failed item lookup raises KeyError, IndexError or TypeError; a failed attribute lookup raises AttributeError or TypeError",
           "equality of opaque items is their identity"]


def has_item(c, k):
    return wbool(dget(embed(c), embed(k)) != Val.absent)


def has_attr(c, k):
    return wbool(hasattrf(embed(c), embed(k)))


def item(c, k):
    return wrap(dget(embed(c), embed(k)))


def attribute(c, k):
    return wrap(attrf(embed(c), embed(k)))


def ref(collection, keys, default):
    level = collection
    for k in keys:
        if has_item(level, k):
            level = item(level, k)
        elif has_attr(level, k):
            level = attribute(level, k)
        else:
            return default
    return level


def ob_get_from():
    pure()
    c, keys, d = val("collection"), seq("keys"), val("default")
    got = outcome(lambda: st.get_from(c, keys, d))
    want = ("ok", ref(c, keys, d))
    ensure_outcome("get_from.path", got, want)


def ob_get_from_default():
    pure()
    c, keys = val("collection"), lst("keys")
    got = outcome(lambda: st.get_from(c, keys))
    want = ("ok", ref(c, keys, None))
    ensure_outcome("get_from.no_default", got, want)


def ob_empty_path():
    pure()
    c, d = val("collection"), val("default")
    ensure_outcome("get_from.empty_path", outcome(lambda: st.get_from(c, (), d)), ("ok", c))


def ob_getitemattr():
    pure()
    c, k = val("collection"), val("key")
    got = outcome(lambda: st.getitemattr(c, k))
    if has_item(c, k):
        ensure_outcome("getitemattr.item", got, ("ok", item(c, k)))
    elif has_attr(c, k):
        ensure_outcome("getitemattr.attribute", got, ("ok", attribute(c, k)))
    else:
        ensure("getitemattr.neither", got[0] == "raised")
