"""K04: shared arrays come back with the same shape, type and contents.

Abstract state: K01's key list and one array (shape, dtype, elements) per key, its description kept as the key's metadata.  A GridPaper in any
object state is attached to an arbitrary memory that represents some contents; each operation runs once from there, index operations included,
and afterwards the array block and the metadata of arbitrary keys are looked at."""
k01 = load_spec("K01")
impl, codecs = k01.impl, load("dustgoggles.codex.codecs")
shm = load("pydv.shm")
ASSUMES = k01.ASSUMES + ["an ndarray over a buffer reads and writes its elements there, in C order, for the given shape and dtype (numpy)",
                         "dtype.str and shape survive JSON (tuples as lists) and reconstruct plain dtypes and shapes",
                         "arrays are non-empty, of plain dtypes"]


def grid_shape(k):
    return shm.SymTuple([shm.F(None, shm.Atom(z3.Function("grid_shape", z3.StringSort(), shm.Sq)(shm.sterm(k))))])


def grid_dtype(k):
    return z3.Function("grid_dtype", z3.StringSort(), z3.StringSort())(shm.sterm(k))


def grid_elements(k):
    t = z3.Function("grid_elements", z3.StringSort(), z3.StringSort())(shm.sterm(k))
    E.fact(z3.Length(t) == shm.nbytes_of(grid_shape(k), grid_dtype(k)))
    return t


def described(name, dtype, shape, size):
    """the metadata kept for an array"""
    return shm.utf8(shm.inverse(shm.jsonf, shm.jsonv, shm.jsoned({"name": name, "dtype": shm.SStr(dtype), "shape": shape, "size": size})))


def metadata(pad, k):
    n = z3.Function("grid_size", z3.StringSort(), z3.IntSort())(shm.sterm(k))
    return described(pad.address(k), grid_dtype(k), grid_shape(k), shm.SInt(n))


def present(keys, k):
    k01.about_key(keys, k)
    return k01.position(keys, k) >= 0


def attached():
    effects(raises=False)
    shm.serialisers()
    prefix = str_("prefix")
    shm.memory(lambda a: (z3.BoolVal(True), shm.int_bytes(z3.IntVal(0), 8)))
    pad = impl.GridPaper(prefix, no_lockout=True)
    match = shm.template(pad.address, z3.StringSort())
    match_val = shm.template(pad.index.val_address)
    name = pad.index.name

    def values(ix, keys):
        L = shm.as_int(keys.length)

        def base(a):
            i = match_val(a)
            if i is not None:
                k01.about_position(keys, shm.SInt(i))
                return z3.And(i >= 0, i < L), metadata(pad, shm.SStr(k01.key_at(keys, shm.SInt(i))))
            k = match(a)
            if k is None:
                return None, None
            i = shm.fn_arg(k, "keys_key")
            if i is not None:
                k01.about_position(keys, shm.SInt(i))
            return present(keys, shm.SStr(k)), grid_elements(shm.SStr(k))
        return base
    ix, keys = k01.attached(impl.MetaTagIndex, values, name)
    pad = impl.GridPaper(prefix, no_lockout=not ix.ghost_lock)
    pad.index.ghost_held = ix.ghost_held
    pad.index.length = val("stale_length")
    pad.index.cache = lst("stale_cache")
    return pad, keys


def represents(pad, length, key_of, position_of, elements_of, metadata_of):
    ix = pad.index
    k01.represents(ix, ix.name, length, key_of, position_of, (ix.val_address, int), (pad.address, str))
    i = int_("any_position")
    inside = shm.between(i, 0, length)
    ensure("pad.description_of_every_array", shm.block_is(ix.val_address(i), inside, shm.SBytes(metadata_of(shm.SStr(key_of(i)))) ))
    k = shm.usable_key("any_key")
    there = shm.at_least(position_of(k), 0)
    ensure("pad.elements_of_every_array", shm.block_is(pad.address(k), there, shm.SBytes(elements_of(k)) ))


def unchanged(pad, keys):
    represents(pad, keys.length, lambda i: k01.key_at(keys, i), lambda q: shm.SInt(k01.position(keys, q)), grid_elements, lambda q: metadata(pad, q))


def same_array(name, a, shape, dtype, raw):
    ensure_same(name + ".shape", a.shape, shape)
    ensure_same(name + ".dtype", a.dtype.str, shm.SStr(dtype))
    ensure_same(name + ".elements", shm.SBytes(a.raw), shm.SBytes(raw))


def ob_get():
    pad, keys = attached()
    k, default = shm.usable_key("key"), val("default")
    got = outcome(lambda: pad[k])
    if shm.SBool(present(keys, k)):
        ensure("get.succeeds", got[0] == "ok")
        same_array("get", got[1], grid_shape(k), grid_dtype(k), grid_elements(k))
        same_array("get.method", pad.get(k, default), grid_shape(k), grid_dtype(k), grid_elements(k))
    else:
        ensure("get.missing_key_refused", got[0] == "raised" and isinstance(got[1], KeyError))
        ensure_same("get.missing_key_gives_the_default", pad.get(k, default), default)
        ensure_same("get.default_is_none", pad.get(k), None)


def ob_get_changes_nothing():
    pad, keys = attached()
    k = shm.usable_key("key")
    got = outcome(lambda: pad[k])
    unchanged(pad, keys)


def setting(how, forbid):
    pad, keys = attached()
    k, v = shm.usable_key("key"), shm.array("value")
    L = shm.as_int(keys.length)
    there = shm.SBool(present(keys, k))

    def store():
        if how == "item":
            pad[k] = v
        elif forbid:
            pad.set(k, v, exists_ok=False)
        else:
            pad.set(k, v)
    got = outcome(store)
    description = described(pad.address(k), v.dtype.t, v.shape, v.size * v.itemsize)

    def elements_of(q):
        return z3.If(shm.sterm(q) == shm.sterm(k), v.raw, grid_elements(q))

    def metadata_of(q):
        return z3.If(shm.sterm(q) == shm.sterm(k), description, metadata(pad, q))
    if there:
        if forbid:
            ensure("set.existing_array_kept_if_forbidden", got[0] == "raised" and isinstance(got[1], KeyError))
            unchanged(pad, keys)
        else:
            ensure("set.overwrites", got[0] == "ok")
            represents(pad, keys.length, lambda i: k01.key_at(keys, i), lambda q: shm.SInt(k01.position(keys, q)), elements_of, metadata_of)
    else:
        ensure("set.stores", got[0] == "ok")
        represents(pad, keys.length + 1, lambda i: z3.If(shm.as_int(i) == L, shm.sterm(k), k01.key_at(keys, i)),
                   lambda q: shm.SInt(z3.If(shm.sterm(q) == shm.sterm(k), L, k01.position(keys, q))), elements_of, metadata_of)


def ob_set_item():
    setting("item", False)


def ob_set_method():
    setting("method", False)


def ob_set_forbidding():
    setting("method", True)


def ob_delete():
    pad, keys = attached()
    k = shm.usable_key("key")
    L = shm.as_int(keys.length)
    there = shm.SBool(present(keys, k))
    p = k01.position(keys, k)
    k01.about_position(keys, shm.SInt(L - 1))

    def remove():
        del pad[k]
    got = outcome(remove)
    if there:
        ensure("delete.succeeds", got[0] == "ok")
        last = k01.key_at(keys, shm.SInt(L - 1))
        represents(pad, keys.length - 1, lambda i: z3.If(shm.as_int(i) == p, last, k01.key_at(keys, i)),
                   lambda q: shm.SInt(z3.If(shm.sterm(q) == shm.sterm(k), z3.IntVal(-1), z3.If(shm.sterm(q) == last, p, k01.position(keys, q)))),
                   grid_elements, lambda q: metadata(pad, q))
    else:
        ensure("delete.missing_key_refused", got[0] == "raised" and isinstance(got[1], KeyError))
        unchanged(pad, keys)


def ob_reserved():
    pad, keys = attached()
    k, v = str_("reserved_key"), shm.array("value")
    assume(k.startswith("index"))

    def store():
        pad[k] = v

    def remove():
        del pad[k]
    got = outcome(store if case("store") else remove)
    ensure("reserved.refused", got[0] == "raised" and isinstance(got[1], KeyError))
    unchanged(pad, keys)


def ob_keys():
    pad, keys = attached()
    want = []
    for i in range(keys.length):
        want.append(shm.SStr(k01.key_at(keys, i)))
    ensure_same("keys.exactly_those_present", pad.keys(), want)
    ensure_same("keys.iterated", list(pad.iterkeys()), want)


def deleted(self, key):
    obj("delete")(key)


def ob_clear():
    """clearing deletes every listed key, once, in order (that none is left then follows from delete's contract, key by key)"""
    pad, keys = attached()
    contract(impl.GridPaper.__delitem__, deleted, unfold=0)
    w0 = world()
    for i in range(keys.length):
        deleted(None, shm.SStr(k01.key_at(keys, i)))
    w1 = world()
    set_world(w0)
    pad.clear()
    ensure_world("clear.deletes_every_key", world(), w1)
