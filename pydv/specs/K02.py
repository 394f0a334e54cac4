"""K02: metadata stays attached to its own key.

K01's abstract state, and for every position possibly one block of metadata; beyond the last position there is none.  Every operation is run
from an arbitrary such memory, and afterwards the metadata at an arbitrary position is looked at."""
k01 = load_spec("K01")
impl, codecs = k01.impl, load("dustgoggles.codex.codecs")
shm = load("pydv.shm")
ASSUMES = k01.ASSUMES + ["the JSON codec's encoding of any stored value is decoded to that value (K06) and is not empty"]


def has_meta(i):
    return z3.Function("has_metadata", z3.IntSort(), z3.BoolSort())(shm.as_int(i))


def meta(i):
    t = z3.Function("metadata", z3.IntSort(), z3.StringSort())(shm.as_int(i))
    E.fact(t != z3.StringVal(""))
    return t


def encoded(v):
    t = z3.Function("json_encode", shm.Val, z3.StringSort())(shm.embed(v))
    E.fact(z3.Function("json_decode", z3.StringSort(), shm.Val)(t) == shm.embed(v))
    E.fact(t != z3.StringVal(""))
    return shm.SBytes(t)


def decoded(b):
    t = z3.Function("json_decode", z3.StringSort(), shm.Val)(shm.byterm(b))
    E.fact(t != shm.Val.absent)
    return shm.wrap(t)


def json_codec():
    return encoded, decoded


def attached():
    contract(codecs.json_codec_factory, json_codec, unfold=0)
    return k01.attached(impl.MetaTagIndex, val_base)


def val_base(ix, keys):
    match = shm.template(ix.val_address)
    L = shm.as_int(keys.length)

    def base(a):
        i = match(a)
        if i is None:
            return None, None
        return z3.And(i >= 0, i < L, has_meta(shm.SInt(i))), meta(shm.SInt(i))
    return base


def represents(ix, n, length, key_of, position_of, has_of, meta_of):
    k01.represents(ix, n, length, key_of, position_of, (ix.val_address, int))
    i = int_("any_position")
    there = shm.both(shm.between(i, 0, length), shm.SBool(has_of(i)))
    ensure("metadata.each_at_its_keys_position", shm.block_is(ix.val_address(i), there, shm.SBytes(meta_of(i))))


def unchanged_keys(ix, n, keys):
    represents(ix, n, keys.length, lambda i: k01.key_at(keys, i), lambda k: shm.SInt(k01.position(keys, k)), has_meta, meta)


def added(value):
    ix, keys = attached()
    n, k = ix.name, str_("new_key")
    assume(k != "")
    k01.about_key(keys, k)
    p, L = k01.position(keys, k), shm.as_int(keys.length)
    got = outcome(lambda: ix.add(k) if value is None else ix.add(k, value))
    at = p if shm.SInt(p) >= 0 else L
    ensure_same("add.gives_the_position", got, ("ok", shm.SInt(at)))

    def has_of(i):
        t = shm.as_int(i)
        return has_meta(i) if value is None else z3.Or(t == at, has_meta(i))

    def meta_of(i):
        t = shm.as_int(i)
        return meta(i) if value is None else z3.If(t == at, shm.byterm(encoded(value)), meta(i))
    if shm.SInt(p) >= 0:
        represents(ix, n, keys.length, lambda i: k01.key_at(keys, i), lambda q: shm.SInt(k01.position(keys, q)), has_of, meta_of)
    else:
        def here(i):
            t = shm.as_int(i)
            return z3.And(z3.BoolVal(False), t == t) if value is None else t == at
        represents(ix, n, keys.length + 1, lambda i: z3.If(shm.as_int(i) == L, shm.sterm(k), k01.key_at(keys, i)),
                   lambda q: shm.SInt(z3.If(shm.sterm(q) == shm.sterm(k), L, k01.position(keys, q))),
                   lambda i: z3.If(shm.as_int(i) == L, z3.BoolVal(value is not None), has_meta(i)), meta_of)


def ob_add_with_metadata():
    v = val("metadata_value")
    assume(v is not None)
    added(v)


def ob_add_without_metadata():
    added(None)


def ob_lookup():
    ix, keys = attached()
    k = str_("key")
    k01.about_key(keys, k)
    p = shm.SInt(k01.position(keys, k))
    got = outcome(lambda: ix[k])
    if p < 0:
        ensure("lookup.absent_key_refused", got[0] == "raised" and isinstance(got[1], KeyError))
    else:
        assume(shm.SBool(has_meta(p)))
        ensure_same("lookup.metadata_of_this_key", got, ("ok", shm.SBytes(meta(p))))


def ob_delete():
    ix, keys = attached()
    n, k = ix.name, str_("removed_key")
    k01.about_key(keys, k)
    L = shm.as_int(keys.length)
    p = k01.position(keys, k)
    k01.about_position(keys, shm.SInt(L - 1))
    got = outcome(lambda: ix.__delitem__(k))
    if shm.SInt(p) < 0:
        ensure("remove.absent_key_refused", got[0] == "raised" and isinstance(got[1], KeyError))
        unchanged_keys(ix, n, keys)
    else:
        ensure("remove.succeeds", got[0] == "ok")
        last = k01.key_at(keys, shm.SInt(L - 1))
        lastpos = shm.SInt(L - 1)
        represents(ix, n, keys.length - 1, lambda i: z3.If(shm.as_int(i) == p, last, k01.key_at(keys, i)),
                   lambda q: shm.SInt(z3.If(shm.sterm(q) == shm.sterm(k), z3.IntVal(-1), z3.If(shm.sterm(q) == last, p, k01.position(keys, q)))),
                   lambda i: z3.If(shm.as_int(i) == p, has_meta(lastpos), has_meta(i)),
                   lambda i: z3.If(shm.as_int(i) == p, meta(lastpos), meta(i)))


def ob_listings():
    ix, keys = attached()
    ks, vs = [], []
    for i in range(keys.length):
        ks.append(shm.SStr(k01.key_at(keys, i)))
    for i in range(keys.length):
        vs.append(decoded(shm.SBytes(meta(i))) if shm.SBool(has_meta(i)) else None)
    pairs = []
    for i in range(keys.length):
        pairs.append((shm.SStr(k01.key_at(keys, i)), decoded(shm.SBytes(meta(i))) if shm.SBool(has_meta(i)) else None))
    ensure_same("listing.keys", ix.keys(), ks)
    ensure_same("listing.values", ix.values(), vs)
    ensure_same("listing.items_pair_keys_with_their_values", ix.items(), pairs)
