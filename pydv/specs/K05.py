"""K05: a sticky note read by anyone is the object last stuck there.

The memory is arbitrary; sticking writes the object's encoding at the address and nothing else, reading decodes the block at the address."""
impl, codecs = load("dustgoggles.codex.implements"), load("dustgoggles.codex.codecs")
shm = load("pydv.shm")
ASSUMES = ["pickle.loads inverts pickle.dumps on the objects stuck (K06)", "shared memory blocks have exactly the size asked for (Linux)",
           "operations are not interleaved"]


def start():
    effects(raises=False)
    shm.serialisers()
    a, other = str_("address"), str_("any_other_address")
    assume(other != a)
    return a, other, shm.block(other)


def fresh_handle(a):
    return impl.Sticky(a)


def ob_stick_and_read():
    a, other, before = start()
    v, w = val("value"), val("second_value")
    note = impl.Sticky.note(v, a)
    ensure_same("note.address", note.address, a)
    reader = fresh_handle(a)
    ensure_same("read.through_another_handle", reader.read(), v)
    ensure_same("read.through_the_same_handle", note.read(), v)
    ensure_same("read.again_on_request", note.read(reread=True), v)
    if case("second_handle"):
        impl.Sticky(a).stick(w)
    else:
        note.stick(w)
        ensure_same("read.restuck_through_the_same_handle", note.read(), w)
    ensure_same("read.restuck_through_a_new_handle", fresh_handle(a).read(), w)
    ensure_same("read.restuck_on_request", reader.read(reread=True), w)
    ensure_same("read.restuck_on_request_by_the_sticker", note.read(True), w)
    if v is not None:
        note2 = fresh_handle(a)
        note2.read()
        ensure_same("read.cached", note2.read(), w)
    ensure_same("stick.other_addresses_untouched", shm.block(other), before)


def ob_nothing_there():
    a, other, before = start()
    if shm.block(a) is None:
        ensure_same("read.nothing_there", fresh_handle(a).read(), None)
        ensure_same("read.nothing_there_on_request", fresh_handle(a).read(reread=True), None)
        got = outcome(lambda: fresh_handle(a).pull())
        ensure("pull.nothing_there_refused", got[0] == "raised" and isinstance(got[1], FileNotFoundError))
    else:
        there = shm.block(a)
        fresh_handle(a).read()
        ensure_same("read.writes_nothing", shm.block(a), there)
        h = fresh_handle(a)
        if case("close"):
            h.close()
        else:
            h.pull()
        ensure_same("pull.gone", shm.block(a), None)
        ensure_same("pull.reads_as_none", fresh_handle(a).read(), None)
    ensure_same("pull.other_addresses_untouched", shm.block(other), before)


def ob_any_state():
    """a handle in any state: sticking, reading on request"""
    a, other, before = start()
    h = fresh_handle(a)
    cached = val("cached")
    h._cached_value = cached
    v = val("value")
    assume(v is not None)
    if case("stick"):
        h.stick(v)
        ensure_same("stick.any_handle", fresh_handle(a).read(), v)
        ensure_same("stick.own_reading", h.read(), v)
    else:
        there = shm.block(a)
        got = h.read(reread=True)
        ensure_same("read.on_request_ignores_the_cache", got, fresh_handle(a).read() if there is not None else None)
    ensure_same("stick.other_addresses_untouched", shm.block(other), before)
