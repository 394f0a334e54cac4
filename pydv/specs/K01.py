"""K01: a shared index lists exactly the keys added and not removed.

The abstract state of an index is its list of distinct keys.  An index object with arbitrary object state is attached to an arbitrary memory
that represents some key list (any length, any keys); each operation is run once from there, and afterwards an arbitrary block is looked at:
the memory represents the key list the operation should leave, and no other block was written.  With the empty index of the constructor this
covers every history.  The memory may also hold anything else.  Locking is K07's subject: no_lockout here."""
impl = load("dustgoggles.codex.implements")
memutilz = load("dustgoggles.codex.memutilz")
shm = load("pydv.shm")
ASSUMES = ["sha256 has no collisions on the keys used", "fewer than 2**62 keys", "keys have an UTF-8 encoding",
           "shared memory blocks have exactly the size asked for (Linux)", "operations are not interleaved (locking is K07's subject)"]


class Keys:
    """an arbitrary list of distinct non-empty keys: length, key at a position, position of a key (-1: absent)"""
    def __init__(self, name):
        self.name = name
        self.length = int_(name + "_length")


def key_at(keys, i):
    return z3.Function(keys.name + "_key", z3.IntSort(), z3.StringSort())(shm.as_int(i))


def position(keys, k):
    return z3.Function(keys.name + "_position", z3.StringSort(), z3.IntSort())(shm.sterm(k))


def about_position(keys, i):
    """facts about the key at position i"""
    t, L = shm.as_int(i), shm.as_int(keys.length)
    k = key_at(keys, i)
    E.fact(z3.Implies(z3.And(t >= 0, t < L), z3.And(z3.Function(keys.name + "_position", z3.StringSort(), z3.IntSort())(k) == t,
                                                      k != z3.StringVal(""))))


def about_key(keys, k):
    p = position(keys, k)
    L = shm.as_int(keys.length)
    E.fact(z3.And(p >= -1, p < L))
    E.fact(z3.Implies(p >= 0, z3.Function(keys.name + "_key", z3.IntSort(), z3.StringSort())(p) == shm.sterm(k)))


class Held:
    """ghost state: is the lock held"""
    def __init__(self):
        self.now = False


def locked(held):
    """the lock as K07 takes it to be: entered only when not held, left when entered"""
    def enter(self):
        require("lock.not_taken_while_held", held.now is False)
        held.now = True
        return self

    def leave(self, exc_type, exc_value, traceback):
        held.now = False

    def make(self, name, debug=False):
        pass
    contract(impl.SlidingLock.__init__, make, unfold=0)
    contract(impl.SlidingLock.__enter__, enter, unfold=0)
    contract(impl.SlidingLock.__exit__, leave, unfold=0)


def attached(cls=None, more=None, name=None):
    """an index object in any state, attached to a memory that represents an arbitrary key list"""
    effects(raises=False)
    held, lock = Held(), case("with_lock")
    locked(held)
    n = name if name is not None else str_("index_name")
    keys = Keys("keys")
    L = shm.as_int(keys.length)
    assume(keys.length >= 0)
    assume(keys.length < 2 ** 62)
    shm.memory(lambda a: (z3.BoolVal(True), shm.int_bytes(z3.IntVal(0), 8)))
    ix = (cls or impl.TagIndex)(n, create=False, no_lockout=True)
    rest = more(ix, keys) if more is not None else lambda a: (None, None)
    at_key, at_name = shm.template(ix.key_address), shm.template(ix.hash_address, z3.StringSort())

    def base(a):
        if z3.eq(a, shm.sterm(n)):
            return z3.BoolVal(True), shm.int_bytes(L, 8)
        i = at_key(a)
        if i is not None:
            about_position(keys, shm.SInt(i))
            return z3.And(i >= 0, i < L), shm.utf8(key_at(keys, shm.SInt(i)))
        k = at_name(a)
        if k is not None:
            about_key(keys, shm.SStr(k))
            p = position(keys, shm.SStr(k))
            return p >= 0, shm.int_bytes(p, 8)
        return rest(a)
    shm.memory(base)
    ix = (cls or impl.TagIndex)(n, create=False, no_lockout=not lock)
    ix.length = val("stale_length")
    ix.cache = lst("stale_cache")
    ix.ghost_held, ix.ghost_lock = held, lock
    return ix, keys


def ob_check():
    ix, keys = attached()
    k = str_("key")
    got = ix.check(k)
    p = shm.SInt(position(keys, k))
    ensure_same("check.position_or_none", got, None if p < 0 else p)


def ob_update():
    ix, keys = attached()
    got = ix.update()
    want = []
    for i in range(keys.length):
        want.append(shm.SStr(key_at(keys, i)))
    ensure_same("update.lists_exactly_the_keys", got, want)
    ensure_same("update.again_lists_the_same", ix.update(), want)
    ensure_same("update.cache", ix.cache, want)


def represents(ix, n, length, key_of, position_of, *also):
    """the memory represents the key list with this length, key at each position and position of each key, as seen through an arbitrary block"""
    ensure("lock.left", ix.ghost_held.now is False)
    ensure("keys.count", shm.block_is(n, True, shm.SBytes(shm.int_bytes(shm.as_int(length), 8))))
    i, k = int_("any_position"), str_("any_key")
    inside = shm.between(i, 0, length)
    ensure("keys.one_key_at_every_position", shm.block_is(ix.key_address(i), inside, shm.SBytes(shm.utf8(key_of(i))) ))
    p = position_of(k)
    present = shm.at_least(p, 0)
    ensure("keys.each_key_found_at_its_position", shm.block_is(ix.hash_address(k), present, shm.SBytes(shm.int_bytes(shm.as_int(p), 8))))
    ensure("keys.no_other_block_written", shm.only_wrote(n, (ix.key_address, int), (ix.hash_address, str), *also))


def unchanged_keys(ix, n, keys):
    represents(ix, n, keys.length, lambda i: key_at(keys, i), lambda k: shm.SInt(position(keys, k)))


def ob_add():
    """a new key goes to the end, everything else stays; a present key keeps its position or is refused"""
    ix, keys = attached()
    n, k = ix.name, str_("new_key")
    assume(k != "")
    about_key(keys, k)
    p = shm.SInt(position(keys, k))
    if case("refuse_present"):
        got = outcome(lambda: ix.add(k, exists_ok=False))
    else:
        got = outcome(lambda: ix.add(k))
    if p >= 0:
        if case("refuse_present"):
            ensure("add.present_key_refused_if_asked", got[0] == "raised" and isinstance(got[1], FileExistsError))
        else:
            ensure_same("add.present_key_gives_its_position", got, ("ok", p))
        unchanged_keys(ix, n, keys)
    else:
        ensure_same("add.gives_the_new_position", got, ("ok", keys.length))
        L = shm.as_int(keys.length)

        def key_of(i):
            return z3.If(shm.as_int(i) == L, shm.sterm(k), key_at(keys, i))

        def position_of(q):
            return shm.SInt(z3.If(shm.sterm(q) == shm.sterm(k), L, position(keys, q)))
        represents(ix, n, keys.length + 1, key_of, position_of)


def ob_add_value_refused():
    ix, keys = attached()
    n = ix.name
    got = outcome(lambda: ix.add(str_("key"), obj("value")))
    ensure("add.value_refused", got[0] == "raised" and isinstance(got[1], ValueError))
    unchanged_keys(ix, n, keys)


def removal(call):
    """the key goes, the last key takes its place, everything else stays; an absent key is refused"""
    ix, keys = attached()
    n, k = ix.name, str_("removed_key")
    about_key(keys, k)
    L = shm.as_int(keys.length)
    p = position(keys, k)
    about_position(keys, shm.SInt(L - 1))
    got = outcome(lambda: call(ix, k))
    if shm.SInt(p) < 0:
        ensure("remove.absent_key_refused", got[0] == "raised" and isinstance(got[1], KeyError))
        unchanged_keys(ix, n, keys)
    else:
        ensure("remove.succeeds", got[0] == "ok")
        last = key_at(keys, shm.SInt(L - 1))

        def key_of(i):
            return z3.If(shm.as_int(i) == p, last, key_at(keys, i))

        def position_of(q):
            t = shm.sterm(q)
            return shm.SInt(z3.If(t == shm.sterm(k), z3.IntVal(-1), z3.If(t == last, p, position(keys, q))))
        represents(ix, n, keys.length - 1, key_of, position_of)


def ob_delete():
    removal(lambda ix, k: ix.__delitem__(k))


def ob_remove():
    removal(lambda ix, k: ix.remove(k))


def ob_new_index():
    """a new index is empty; attaching to no index is refused; a second creation is refused and changes nothing"""
    effects(raises=False)
    n = str_("index_name")
    shm.memory(lambda a: (z3.BoolVal(False), shm.zerosf(z3.IntVal(0))))
    got = outcome(lambda: impl.TagIndex(n, create=False, no_lockout=True))
    ensure("new.attaching_to_nothing_refused", got[0] == "raised" and isinstance(got[1], FileNotFoundError))
    ix = impl.TagIndex(n, no_lockout=True)
    ensure_same("new.empty", ix.update(), [])
    ensure_same("new.finds_nothing", ix.check(str_("key")), None)
    other = str_("any_address")
    assume(other != n)
    ensure("new.one_block", shm.untouched(other))
    again = outcome(lambda: impl.TagIndex(n, no_lockout=True))
    ensure("new.second_creation_refused", again[0] == "raised" and isinstance(again[1], FileExistsError))
    ensure_same("new.still_empty", ix.update(), [])


def ob_lock_alone():
    """with nobody else there, the lock is entered at once, and leaves nothing behind but its counter"""
    effects(raises=False)
    n, c = str_("index_name"), int_("turns_so_far")
    assume(c >= 0)
    assume(c < 2 ** 39)
    t = shm.as_int(c)

    fresh = case("first_use")

    def base(a):
        if z3.eq(z3.simplify(a), z3.simplify(shm.sterm(n + "_count"))):
            return z3.BoolVal(not fresh), shm.int_bytes(t, 5)
        return z3.BoolVal(False), shm.zerosf(z3.IntVal(0))
    shm.memory(base)
    lock = impl.SlidingLock(n, False)
    inside = []

    def use():
        with lock:
            inside.append(lock.acquired)
    got = outcome(use)
    ensure("lock.entered_and_left", got[0] == "ok")
    ensure_same("lock.body_ran_once_holding_it", inside, [True])
    ensure_same("lock.counter", shm.block(n + "_count"), shm.SBytes(shm.int_bytes(z3.IntVal(1) if fresh else t + 1, 5)))
    other = str_("any_other_address")
    assume(other != n + "_count")
    ensure_same("lock.nothing_left_behind", shm.block(other), None)
    again = outcome(use)
    ensure("lock.entered_again", again[0] == "ok")
    ensure_same("lock.still_nothing_left_behind", shm.block(other), None)
