"""K06: codecs are inverse pairs, mnemonics return what was memorised; the block primitives under them.

The memory is arbitrary: any blocks at any names.  After each operation the block at an arbitrary other name is looked at."""
codecs, memutilz = load("dustgoggles.codex.codecs"), load("dustgoggles.codex.memutilz")
shm = load("pydv.shm")
ASSUMES = ["json.loads inverts json.dumps on JSON-stable values, literal_eval inverts repr on literals, pickle.loads inverts pickle.dumps",
           "shared memory blocks have exactly the size asked for (Linux)", "encodings are not empty"]


def round_trip(factory):
    effects(raises=False)
    shm.serialisers()
    encode, decode = factory()
    v = val("value")
    blob = encode(v)
    ensure("codec.encodes_to_bytes", isinstance(blob, bytes))
    ensure_same("codec.decodes_its_encoding_to_the_value", decode(blob), v)
    encode2, decode2 = factory()
    ensure_same("codec.another_pair_decodes_it_too", decode2(blob), v)


def ob_json():
    round_trip(codecs.json_codec_factory)


def ob_ast():
    round_trip(codecs.ast_codec_factory)


def ob_pickle():
    round_trip(codecs.pickle_codec_factory)


def enc(v):
    t = z3.Function("encoded", shm.Val, z3.StringSort())(shm.embed(v))
    E.fact(t != z3.StringVal(""))
    return shm.SBytes(t)


def dec(b):
    t = z3.Function("decoded", z3.StringSort(), shm.Val)(shm.byterm(b))
    E.fact(t != shm.Val.absent)
    return shm.wrap(t)


def ob_memorize():
    effects(raises=False)
    memorize, remember = codecs.generic_mnemonic_factory()
    v, a, other = val("value"), str_("address"), str_("any_other_address")
    assume(other != a)
    before, there = shm.block(other), shm.block(a)
    if case("overwriting_forbidden"):
        got = outcome(lambda: memorize(v, a, False, enc))
        if there is not None:
            ensure("memorize.occupied_address_refused", got[0] == "raised" and isinstance(got[1], FileExistsError))
            ensure_same("memorize.refusal_leaves_it", shm.block(a), there)
        else:
            ensure_same("memorize.free_address_taken", got, ("ok", a))
            ensure_same("memorize.holds_the_encoding", shm.block(a), enc(v))
    else:
        got = outcome(lambda: memorize(v, a, True, enc))
        ensure_same("memorize.gives_the_address", got, ("ok", a))
        ensure_same("memorize.holds_the_encoding", shm.block(a), enc(v))
        ensure_same("remember.decodes_what_was_memorised_last", remember(a, True, dec), dec(enc(v)))
        ensure_same("remember.fetches_by_default", remember(a, decode=dec), dec(enc(v)))
        w = val("second_value")
        memorize(w, a, True, enc)
        ensure_same("remember.after_another_memorize", remember(a, True, dec), dec(enc(w)))
    ensure_same("memorize.other_addresses_untouched", shm.block(other), before)


def ob_remember():
    effects(raises=False)
    memorize, remember = codecs.generic_mnemonic_factory()
    a, other = str_("address"), str_("any_address")
    before, there = shm.block(other), shm.block(a)
    got = outcome(lambda: remember(a, True, dec))
    if there is None:
        ensure("remember.nothing_there", got[0] == "raised" and isinstance(got[1], FileNotFoundError))
    else:
        ensure_same("remember.decodes_the_block", got, ("ok", dec(there)))
        raw = remember(a, False)
        ensure_same("remember.unfetched_is_the_block", raw.buf.tobytes(), there)
        ensure_same("remember.unfetched_is_the_block_by_name", raw.name, a)
    ensure_same("remember.writes_nothing", shm.block(other), before)


def ob_open_block():
    effects(raises=False)
    a, n, other = str_("address"), int_("size"), str_("any_other_address")
    assume(n > 0)
    assume(other != a)
    before, there = shm.block(other), shm.block(a)
    overwrite = case("overwrite")
    create = case("create")
    got = outcome(lambda: memutilz.open_block(a, n, create, overwrite))
    if there is None and not create:
        ensure("open.nothing_to_attach_to", got[0] == "raised" and isinstance(got[1], FileNotFoundError))
    else:
        ensure("open.succeeds", got[0] == "ok")
        b = got[1]
        ensure_same("open.name", b.name, a)
        if there is not None and not (overwrite and create):
            ensure_same("open.existing_block_kept", b.buf.tobytes(), there)
            ensure_same("open.existing_block_still_there", shm.block(a), there)
        else:
            ensure_same("open.new_block_has_the_size", len(b.buf.tobytes()), n)
            ensure("open.new_block_there", shm.block(a) is not None)
    ensure_same("open.other_addresses_untouched", shm.block(other), before)


def ob_open_defaults():
    effects(raises=False)
    a, n = str_("address"), int_("size")
    assume(n > 0)
    there = shm.block(a)
    b = memutilz.open_block(a, n)
    if there is None:
        ensure_same("open.creates_by_default", len(shm.block(a)), n)
    else:
        ensure_same("open.does_not_overwrite_by_default", shm.block(a), there)


def ob_primitives():
    effects(raises=False)
    a, other = str_("address"), str_("any_other_address")
    assume(other != a)
    before, there = shm.block(other), shm.block(a)
    ensure("exists.true_exactly_if_there", memutilz.exists_block(a) is (there is not None))
    got = outcome(lambda: memutilz.fetch_block_bytes(a))
    if there is None:
        ensure("fetch.nothing_there", got[0] == "raised" and isinstance(got[1], FileNotFoundError))
    else:
        ensure_same("fetch.the_bytes", got, ("ok", there))
    ensure_same("fetch.writes_nothing", shm.block(a), there)
    if case("missing_ok"):
        got = outcome(lambda: memutilz.delete_block(a, True))
        ensure("delete.missing_tolerated", got[0] == "ok")
    else:
        got = outcome(lambda: memutilz.delete_block(a))
        if there is None:
            ensure("delete.missing_refused", got[0] == "raised" and isinstance(got[1], FileNotFoundError))
        else:
            ensure("delete.succeeds", got[0] == "ok")
    ensure_same("delete.gone", shm.block(a), None)
    ensure_same("delete.other_addresses_untouched", shm.block(other), before)
