"""S10: a deduplicating dictionary returns an equivalent of what was last stored.

Representation invariant: every stored class representative is in `reverse` under its own class, and every key's class has a
representative.  The invariant is assumed at the keys and classes an operation can observe and shown to hold again afterwards."""
st = load("dustgoggles.structures")
ASSUMES = ["the equivalence function is pure and its results are hashable", "HashDict's state is only reached through its methods"]


def fresh():
    h = callable_("equivalence")
    d = st.HashDict(h)
    return d, h


def arbitrary(d):
    """any content"""
    d.dict_ = dct("dict_")
    d.reverse = dct("reverse")


def inv(d, h, q, c):
    """the invariant at key q and class c"""
    out = True
    if q in d.dict_:
        out = out and d.dict_[q] in d.reverse and h(d.reverse[d.dict_[q]]) == d.dict_[q]
    if c in d.reverse:
        out = out and h(d.reverse[c]) == c
    return out


def ob_initial():
    pure()
    d, h = fresh()
    q, c = val("q"), val("c")
    ensure("hashdict.inv_initially", inv(d, h, q, c))
    ensure("hashdict.empty", q not in d.dict_)


def ob_setitem():
    pure()
    d, h = fresh()
    arbitrary(d)
    k, x, q, c = val("key"), val("item"), val("other_key"), val("some_class")
    for a in (k, q):
        for b in (h(x), c):
            assume(inv(d, h, a, b))
    before = outcome(lambda: d[q])
    first = d.reverse[h(x)] if h(x) in d.reverse else x
    got = outcome(lambda: d.__setitem__(k, x))
    ensure("setitem.no_exception", got[0] == "ok")
    ensure("setitem.inv_kept", inv(d, h, q, c))
    read = outcome(lambda: d[k])
    ensure("getitem.no_exception", read[0] == "ok")
    ensure("getitem.equivalent_to_stored", h(read[1]) == h(x))
    ensure_same("getitem.first_of_class", read[1], first)
    if q != k:
        ensure_outcome("setitem.other_keys_unchanged", outcome(lambda: d[q]), before)


def ob_same_object():
    pure()
    d, h = fresh()
    arbitrary(d)
    a, b = val("a"), val("b")
    assume(a in d.dict_ and b in d.dict_)
    assume(inv(d, h, a, d.dict_[a]) and inv(d, h, b, d.dict_[b]))
    x, y = d[a], d[b]
    if h(x) == h(y):
        ensure_same("hashdict.one_object_per_class", x, y)


def ob_missing():
    pure()
    d, h = fresh()
    arbitrary(d)
    k = val("k")
    assume(k not in d.dict_)
    got = outcome(lambda: d[k])
    ensure("getitem.missing_key_error", got[0] == "raised" and isinstance(got[1], KeyError))
