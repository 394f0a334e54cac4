"""K03: a notepad behaves as a dictionary in shared memory.

Abstract state: K01's key list for the notepad's index and one encoded value per key.  A notepad in any object state is attached to an arbitrary
memory that represents some contents; each operation runs once from there (index operations included, on the same memory), and afterwards the
value at an arbitrary key and the index's blocks are looked at."""
k01 = load_spec("K01")
impl, codecs = k01.impl, load("dustgoggles.codex.codecs")
shm = load("pydv.shm")
ASSUMES = k01.ASSUMES + ["pickle.loads inverts pickle.dumps on the values stored (K06)"]


def stored(k):
    """the encoding stored for a key"""
    t = z3.Function("stored", z3.StringSort(), z3.StringSort())(shm.sterm(k))
    E.fact(t != z3.StringVal(""))
    return t


def present(keys, k):
    k01.about_key(keys, k)
    return k01.position(keys, k) >= 0


def index_of(make):
    return make().index


def attached():
    effects(raises=False)
    shm.serialisers()
    prefix = str_("prefix")
    shm.memory(lambda a: (z3.BoolVal(True), shm.int_bytes(z3.IntVal(0), 8)))
    pad = impl.Notepad(prefix, no_lockout=True)
    match = shm.template(pad.address, z3.StringSort())
    name = pad.index.name

    def values(ix, keys):
        def base(a):
            k = match(a)
            if k is None:
                return None, None
            i = shm.fn_arg(k, "keys_key")
            if i is not None:
                k01.about_position(keys, shm.SInt(i))
            return present(keys, shm.SStr(k)), stored(shm.SStr(k))
        return base
    ix, keys = k01.attached(impl.TagIndex, values, name)
    pad = impl.Notepad(prefix, no_lockout=not ix.ghost_lock)
    pad.index.ghost_held = ix.ghost_held
    pad.index.length = val("stale_length")
    pad.index.cache = lst("stale_cache")
    return pad, keys


def represents(pad, length, key_of, position_of, stored_of):
    ix = pad.index
    k01.represents(ix, ix.name, length, key_of, position_of, (pad.address, str))
    k = shm.usable_key("any_key")
    there = shm.at_least(position_of(k), 0)
    ensure("pad.each_keys_value", shm.block_is(pad.address(k), there, shm.SBytes(stored_of(k)) ))


def unchanged(pad, keys):
    represents(pad, keys.length, lambda i: k01.key_at(keys, i), lambda q: shm.SInt(k01.position(keys, q)), stored)


def ob_get():
    pad, keys = attached()
    k, default = shm.usable_key("key"), val("default")
    got = outcome(lambda: pad[k])
    if shm.SBool(present(keys, k)):
        v = val("value")
        assume(shm.SBool(stored(k) == shm.inverse(shm.picklef, shm.picklev, v)))
        ensure_same("get.object_last_stored", got, ("ok", v))
        ensure_same("get.ignores_the_default", pad.get(k, default), v)
        raw = pad.get_raw(k)
        ensure_same("get.raw_bytes", raw, shm.SBytes(stored(k)))
    else:
        ensure("get.missing_key_refused", got[0] == "raised" and isinstance(got[1], KeyError))
        ensure_same("get.missing_key_gives_the_default", pad.get(k, default), default)
        ensure_same("get.default_is_none", pad.get(k), None)
    unchanged(pad, keys)


def ob_set_item():
    setting("item", False)


def ob_set_method():
    setting("method", False)


def ob_set_forbidding():
    setting("method", True)


def setting(how, forbid):
    pad, keys = attached()
    k, v = shm.usable_key("key"), val("value")
    enc = shm.inverse(shm.picklef, shm.picklev, v)
    L = shm.as_int(keys.length)
    there = shm.SBool(present(keys, k))
    p = k01.position(keys, k)

    def store():
        if how == "item":
            pad[k] = v
        elif forbid:
            pad.set(k, v, exists_ok=False)
        else:
            pad.set(k, v)
    got = outcome(store)
    if there:
        if forbid:
            ensure("set.existing_value_kept_if_forbidden", got[0] == "raised" and isinstance(got[1], KeyError))
            unchanged(pad, keys)
        else:
            ensure("set.overwrites", got[0] == "ok")
            represents(pad, keys.length, lambda i: k01.key_at(keys, i), lambda q: shm.SInt(k01.position(keys, q)),
                       lambda q: z3.If(shm.sterm(q) == shm.sterm(k), enc, stored(q)))
    else:
        ensure("set.stores", got[0] == "ok")
        represents(pad, keys.length + 1, lambda i: z3.If(shm.as_int(i) == L, shm.sterm(k), k01.key_at(keys, i)),
                   lambda q: shm.SInt(z3.If(shm.sterm(q) == shm.sterm(k), L, k01.position(keys, q))),
                   lambda q: z3.If(shm.sterm(q) == shm.sterm(k), enc, stored(q)))


def ob_set_unencodable():
    """a value that cannot be encoded changes nothing, whether its key is new or not"""
    pad, keys = attached()
    k, v = shm.usable_key("key"), val("value")
    shm.values_may_fail_to_encode()
    method = case("method")
    forbid = case("forbid")

    def store():
        if method:
            pad.set(k, v, exists_ok=not forbid)
        else:
            pad[k] = v
    got = outcome(store)
    if shm.pickling_fails(v):
        ensure("set.unencodable_value_refused", got[0] == "raised")
        unchanged(pad, keys)


def ob_set_unnameable():
    """a key that cannot name a block, or that a block cannot hold, is refused and changes nothing"""
    pad, keys = attached()
    v = val("value")
    method, forbid = case("method"), case("forbid")
    empty = case("empty")
    k = shm.usable_key("key", empty=empty)
    assume(shm.SBool(z3.Not(present(keys, k))))
    if not empty:
        shm.refuse_name(pad.address(k))

    def store():
        if method:
            pad.set(k, v, exists_ok=not forbid)
        else:
            pad[k] = v
    got = outcome(store)
    ensure("set.unnameable_key_refused", got[0] == "raised")
    unchanged(pad, keys)


def ob_delete():
    pad, keys = attached()
    k = shm.usable_key("key")
    L = shm.as_int(keys.length)
    there = shm.SBool(present(keys, k))
    p = k01.position(keys, k)
    k01.about_position(keys, shm.SInt(L - 1))

    def remove():
        del pad[k]
    got = outcome(remove)
    if there:
        ensure("delete.succeeds", got[0] == "ok")
        last = k01.key_at(keys, shm.SInt(L - 1))
        represents(pad, keys.length - 1, lambda i: z3.If(shm.as_int(i) == p, last, k01.key_at(keys, i)),
                   lambda q: shm.SInt(z3.If(shm.sterm(q) == shm.sterm(k), z3.IntVal(-1), z3.If(shm.sterm(q) == last, p, k01.position(keys, q)))),
                   stored)
    else:
        ensure("delete.missing_key_refused", got[0] == "raised" and isinstance(got[1], KeyError))
        unchanged(pad, keys)


def ob_reserved():
    """a key that could be taken for the notepad's own blocks is refused and nothing is written"""
    pad, keys = attached()
    k, v = str_("reserved_key"), val("value")
    assume(k.startswith("index"))

    def store():
        pad[k] = v

    def remove():
        del pad[k]
    got = outcome(store if case("store") else remove)
    ensure("reserved.refused", got[0] == "raised" and isinstance(got[1], KeyError))
    unchanged(pad, keys)


def ob_keys():
    pad, keys = attached()
    want = []
    for i in range(keys.length):
        want.append(shm.SStr(k01.key_at(keys, i)))
    ensure_same("keys.exactly_those_present", pad.keys(), want)
    ensure_same("keys.iterated", list(pad.iterkeys()), want)


def ob_values():
    pad, keys = attached()
    vals, pairs = [], []
    for i in range(keys.length):
        k01.about_position(keys, i)
        vals.append(shm.back(shm.picklev, stored(shm.SStr(k01.key_at(keys, i)))))
    for i in range(keys.length):
        k01.about_position(keys, i)
        k = shm.SStr(k01.key_at(keys, i))
        pairs.append((k, shm.back(shm.picklev, stored(k))))
    ensure_same("values.iterated", list(pad.itervalues()), vals)
    ensure_same("items.iterated", list(pad.iteritems()), pairs)


def deleted(self, key):
    obj("delete")(key)


def ob_clear():
    """clearing deletes every listed key, once, in order (that none is left then follows from delete's contract, key by key)"""
    pad, keys = attached()
    contract(impl.Notepad.__delitem__, deleted, unfold=0)
    w0 = world()
    for i in range(keys.length):
        deleted(None, shm.SStr(k01.key_at(keys, i)))
    w1 = world()
    set_world(w0)
    pad.clear()
    ensure_world("clear.deletes_every_key", world(), w1)
