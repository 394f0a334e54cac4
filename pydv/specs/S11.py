"""S11: pooled mapping gives the serial results, one per record, whatever the mode.

Each method is verified on a pool object in any state (any earlier results and mode), over an arbitrary list of records: normalising and
dispatching records, one call per record, collecting results.  Running a call is an arbitrary function that may raise; worker pools and
divide are outside: apply_async(f, args, kwargs).get() gives what f(*args, **kwargs) gives, divide cuts a sequence into consecutive parts."""
structures = load("dustgoggles.structures")
ASSUMES = ["a worker pool's apply_async(f, args, kwargs).get() returns or raises what f(*args, **kwargs) does",
           "more_itertools.divide(n, records) gives consecutive parts of the records", "records are separate dicts"]


class Records:
    """a list of dicts: a caller's own, changed in place by whoever iterates over it"""
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        now = []
        for item in self.items:
            rec = dict(item)
            yield rec
            now.append(rec)
        self.items = now


def applied(self, func, args=(), kwargs=None):
    return obj("apply")(func, args, kwargs)


def pool_in_any_state(threads=None):
    pool = structures.MaybePool()
    pool.results, pool.chunked = dct("earlier_results"), bool_("earlier_mode")
    if threads is not None:
        pool.threads, pool.pool = threads, obj("workers")
    return pool


def map_serial(pool, records, chunked_flag):
    effects(raises=False)
    contract(structures.MaybePool.apply, applied, unfold=0)
    func = callable_("func")
    w0 = world()

    def reference():
        out = {}
        for i, rec in enumerate(records):
            out[rec.get("key", i)] = applied(None, func, rec.get("args", ()), rec.get("kwargs", {}))
        return out
    want = outcome(reference)
    w1 = world()
    set_world(w0)
    got = outcome(lambda: pool.map(func, Records(records), **chunked_flag))
    if want[0] == "ok":
        ensure("map.succeeds", got[0] == "ok")
        ensure_same("map.one_result_per_record_under_its_key", pool.results, want[1])
        ensure("map.not_chunked", pool.chunked is False)
    else:
        ensure_outcome("map.dispatch_failure_leaves", got, want)
    ensure_world("map.one_call_per_record_in_order", world(), w1)


def ob_map_serial():
    map_serial(pool_in_any_state(), lst("records"), {})


def ob_map_serial_chunks_asked():
    map_serial(pool_in_any_state(), lst("records"), {"as_chunks": True})


def ob_map_pool():
    map_serial(pool_in_any_state(int_("threads")), lst("records"), {})


def collect(pool, chunked, raise_exc):
    effects(raises=True)
    results = dct("results")
    pool.results, pool.chunked = results, chunked
    has_attributes("get")
    before = results.copy()
    w0 = world()

    def reference():
        out = {}
        for k, r in results.items():
            try:
                if chunked:
                    out |= fetched(r)
                else:
                    out[k] = fetched(r)
            except Exception as ex:
                if raise_exc:
                    raise
                out[k] = ex
        return out
    want = outcome(reference)
    w1 = world()
    set_world(w0)
    got = outcome(lambda: pool.get(raise_exc=raise_exc) if raise_exc else pool.get())
    ensure_outcome("get.results_or_exceptions_under_their_keys", got, want)
    ensure_world("get.each_result_fetched_once_in_order", world(), w1)
    ensure_same("get.results_kept", pool.results, before)


def fetched(r):
    return r.get()


def ob_get():
    collect(pool_in_any_state(), False, False)


def ob_get_raising():
    collect(pool_in_any_state(), False, True)


def ob_get_chunks():
    collect(pool_in_any_state(), True, False)


def ob_get_chunks_raising():
    collect(pool_in_any_state(), True, True)


def ob_result():
    """a serial result: the call is made at once; getting it returns its value, or raises the exception it raised"""
    effects(raises=True)
    func, args, kwargs = callable_("func"), seq("args"), dct("kwargs")
    w0 = world()
    want = outcome(lambda: func(*args, **kwargs))
    w1 = world()
    set_world(w0)
    made = outcome(lambda: structures.MaybeResult(func, args, kwargs))
    ensure_world("result.one_call_with_these_arguments", world(), w1)
    if want[0] == "raised" and not isinstance(want[1], Exception):
        ensure_outcome("result.interrupt_leaves", made, want)
    else:
        ensure("result.made", made[0] == "ok")
        ensure_outcome("result.get_gives_the_calls_outcome", outcome(lambda: made[1].get()), want)
        ensure_outcome("result.get_again_gives_the_same", outcome(lambda: made[1].get()), want)
        ensure_world("result.get_calls_nothing", world(), w1)
        ensure("result.ready", made[1].ready() is True)


def ob_apply_serial():
    effects(raises=True)
    func, args, kwargs = callable_("func"), seq("args"), dct("kwargs")
    pool = pool_in_any_state()
    w0 = world()
    want = outcome(lambda: func(*args, **kwargs))
    w1 = world()
    assume(want[0] == "ok")
    set_world(w0)
    r = pool.apply(func, args, kwargs)
    ensure_outcome("apply.serial_result", outcome(lambda: r.get()), want)
    ensure_world("apply.serial_one_call", world(), w1)
    set_world(w0)
    want = outcome(lambda: func())
    assume(want[0] == "ok")
    set_world(w0)
    ensure_outcome("apply.no_arguments", outcome(lambda: pool.apply(func).get()), want)


def ob_apply_pool():
    effects(raises=True)
    func, args, kwargs = callable_("func"), val("args"), val("kwargs")
    assume(kwargs is not None)
    pool = pool_in_any_state(int_("threads"))
    has_attributes("apply_async")
    w0 = world()
    want = outcome(lambda: pool.pool.apply_async(func, args, kwargs))
    w1 = world()
    set_world(w0)
    ensure_outcome("apply.pool_result", outcome(lambda: pool.apply(func, args, kwargs)), want)
    ensure_world("apply.pool_one_dispatch", world(), w1)


class Normalised:
    """records that have a key, arguments and keyword arguments, as map leaves them"""
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        for key, args, kwargs in self.items:
            yield {"key": key, "args": args, "kwargs": kwargs}


def ob_chunkwrap():
    """a chunk: one call per record under the record's key, in order"""
    effects(raises=True)
    func, records = callable_("func"), uf_list("records", view=3)
    w0 = world()

    def reference():
        out = {}
        for key, args, kwargs in records:
            out[key] = func(*args, **kwargs)
        return out
    want = outcome(reference)
    w1 = world()
    set_world(w0)
    got = outcome(lambda: structures._chunkwrap(func, Normalised(records)))
    ensure_outcome("chunk.one_result_per_record_under_its_key", got, want)
    ensure_world("chunk.one_call_per_record_in_order", world(), w1)


def ob_map_chunks():
    """by chunks: each part of the records goes to one worker, which runs a chunk"""
    effects(raises=False)
    contract(structures.MaybePool.apply, applied, unfold=0)
    pool, func, parts = pool_in_any_state(int_("threads")), callable_("func"), uf_list("parts")
    w0 = world()
    want = {}
    obj("divide")(pool.threads, 0)
    for i, part in enumerate(parts):
        want[f"chunk_{i}"] = applied(None, structures._chunkwrap, (func, part))
    w1 = world()
    set_world(w0)

    def divide(n, records):
        obj("divide")(n, len(records.items))
        return parts
    contract(structures.divide, divide)
    pool.map(func, Records([]), as_chunks=True)
    ensure("map.chunked", pool.chunked is True)
    ensure_same("map.one_result_per_part", pool.results, want)
    ensure_world("map.one_call_per_part", world(), w1)


def dispatched(self, func, argrecs, as_chunks=False):
    return obj("map")(func, argrecs, as_chunks)


def closed(self):
    return obj("close")()


def joined(self):
    return obj("join")()


def collected(self, raise_exc=False):
    obj("collect")(raise_exc)
    return dct("collected")


def terminated(self):
    return obj("terminate")()


def into_pool(filter_exc, kwargs, as_chunks):
    """map, wait, collect, drop failures if asked; the pool is terminated whatever happens"""
    effects(raises=True)
    pool_class = structures.MaybePool
    contract(pool_class.map, dispatched, unfold=0)
    contract(pool_class.close, closed, unfold=0)
    contract(pool_class.join, joined, unfold=0)
    contract(pool_class.get, collected, unfold=0)
    contract(pool_class.terminate, terminated, unfold=0)
    func, records = callable_("func"), val("records")
    w0 = world()

    def reference():
        try:
            dispatched(None, func, records, as_chunks)
            closed(None)
            joined(None)
            out = collected(None)
            if filter_exc:
                out = {k: v for k, v in out.items() if not isinstance(v, Exception)}
        finally:
            terminated(None)
        return out
    want = outcome(reference)
    w1 = world()
    set_world(w0)
    ensure_outcome("pooled.results", outcome(lambda: structures.map_into_pool(func, records, **kwargs)), want)
    ensure_world("pooled.dispatched_awaited_collected_terminated", world(), w1)


def ob_map_into_pool():
    into_pool(False, {}, True)


def ob_map_into_pool_unchunked():
    into_pool(False, {"as_chunks": False}, False)


def ob_map_into_pool_filtered():
    into_pool(True, {"filter_exc": True}, True)


def ob_terminate():
    effects(raises=False)
    pool = pool_in_any_state(int_("threads"))
    has_attributes("terminate", "close", "join")
    w0 = world()
    pool.pool.close()
    pool.pool.join()
    pool.pool.terminate()
    w1 = world()
    set_world(w0)
    pool.close()
    pool.join()
    pool.terminate()
    ensure_world("terminate.closes_joins_terminates_workers", world(), w1)
    ensure_same("terminate.no_results", pool.results, {})
    serial = pool_in_any_state()
    serial.close()
    serial.join()
    serial.terminate()
    ensure_world("terminate.serial_calls_nothing", world(), w1)
    ensure_same("terminate.serial_no_results", serial.results, {})
