"""P01: downcasting keeps every value within the stated tolerances.

Arrays are of any length with arbitrary elements (arrays.py).  What is ensured of an arbitrary element is ensured of all of them.  The float
path's loop over the ladder of types is cut: each of its iterations is run from the state in which the loop was entered, knowing nothing
about earlier iterations, so what is shown does not depend on their order."""
arrays = load("pydv.arrays")
pivot = load("dustgoggles.pivot")
ASSUMES = ["numpy's casts, masks, minima, maxima and element-wise arithmetic behave as in arrays.py", "the quotient of two floats is the mathematical one",
           "the cast to an array's own width in the ladder of types is reached (bounded check)", "tolerances are finite"]
INTS = ("int8", "int16", "int32", "int64")
UINTS = ("uint8", "uint16", "uint32", "uint64")


def given_as(arr, library, named):
    return arrays.series(arr, name=val("name") if named else None) if library == "pandas" else arr


def about(src, got, library, given):
    """what holds of every result: as many elements, the asked library's container, the source untouched"""
    out = arrays.values(got["recast"])
    ensure("result.same_length", arrays.same_length(out, src))
    ensure("result.library", arrays.is_series(got["recast"]) == (library == "pandas"))
    return out


def integers(dtype, library):
    pure()
    src = arrays.source(dtype)
    before = arrays.contents(src)
    given = given_as(src, library, library == "pandas")
    got = pivot.downcast(given, arrays.tolerance("atol"), arrays.tolerance("rtol"), library)
    out = about(src, got, library, given)
    i = arrays.element("i")
    ensure("int.every_value_kept", arrays.equal(arrays.contents(out)(i), before(i)))
    ensure("int.source_untouched", arrays.equal(arrays.contents(src)(i), before(i)))
    low, high = arrays.extreme("min", src), arrays.extreme("max", src)
    ensure("int.smallest_type", arrays.smallest(out.dtype, low, high))
    ensure("int.errors_reported", arrays.within(before(i), arrays.contents(out)(i), got["aerr"]))
    ensure("int.relative_errors_reported", arrays.within_relative(before(i), arrays.contents(out)(i), got["rerr"]))


def reals(dtype, library, named=False):
    pure()
    arrays.long_loops()
    src = arrays.source(dtype)
    before = arrays.contents(src)
    atol, rtol = arrays.tolerance("atol"), arrays.tolerance("rtol")
    given = given_as(src, library, named)
    tag, got = outcome(pivot.downcast, given, atol, rtol, library)
    if arrays.ran_out():
        return
    ensure("real.no_failure", tag == "ok")
    if tag != "ok":
        return
    out = about(src, got, library, given)
    i = arrays.element("i")
    x, y = before(i), arrays.contents(out)(i)
    ensure("real.source_untouched", arrays.equal(arrays.contents(src)(i), x))
    ensure("real.finite_stays_finite", arrays.implies(x.fin, y.fin))
    ensure("real.nonfinite_stays", arrays.implies(arrays.no(x.fin), arrays.no(y.fin)))
    ensure("real.absolute_tolerance", arrays.within(x, y, atol))
    ensure("real.absolute_reported", arrays.within(x, y, got["aerr"]))
    ensure("real.relative_tolerance", arrays.within_relative(x, y, rtol))
    ensure("real.relative_reported", arrays.within_relative(x, y, got["rerr"]))


def ob_int8(): integers("int8", "numpy")
def ob_int16(): integers("int16", "numpy")
def ob_int32(): integers("int32", "numpy")
def ob_int64(): integers("int64", "numpy")
def ob_uint8(): integers("uint8", "numpy")
def ob_uint16(): integers("uint16", "numpy")
def ob_uint32(): integers("uint32", "numpy")
def ob_uint64(): integers("uint64", "numpy")
def ob_int64_series(): integers("int64", "pandas")
def ob_uint16_series(): integers("uint16", "pandas")
def ob_float16(): reals("float16", "numpy")
def ob_float32(): reals("float32", "numpy")
def ob_float64(): reals("float64", "numpy")
def ob_longdouble(): reals("longdouble", "numpy")
def ob_float64_series(): reals("float64", "pandas", True)
def ob_float32_series_unnamed(): reals("float32", "pandas")
