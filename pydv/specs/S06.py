"""S06: nested mappings become records carrying their own path and nothing else.

REC(m, levels above, remaining level names) is the uninterpreted list of records; its definition by recursion on nesting is
ref_level, which the body of to_records is shown to satisfy with its recursive calls replaced by REC.  The stream of names handed
to the recursive call is read out element by element."""
from collections.abc import Mapping
st = load("dustgoggles.structures")
ASSUMES = ["nesting is finite", "opaque mappings satisfy the Mapping interface", "itertools.accumulate/repeat/count and copy.copy of their iterators behave as in prelude.py",
           "the input is not modified: it is only read through items/values and |, which build new dictionaries"]


def stream(names):
    """the names an iterator still has to give, as a value"""
    if isinstance(names, PullIter):
        return SymList(names.remaining())
    if isinstance(names, (SymList, SymTuple)):
        return SymList(list_content(names))
    from copy import copy
    probe = copy(names)
    n = next(probe)
    require("to_records.default_names_count_up", next(probe) == n + 1)
    require("to_records.default_names_count_up", next(probe) == n + 2)
    return n


def REC(m, levels=None, names=None):
    return uf_list("REC", m, levels, stream(names))


def ref_level(m, levels, name, rest):
    out = []
    for key, sub in m.items():
        above = levels | {name: key}
        if all(isinstance(v, Mapping) for v in sub.values()):
            out += uf_list("REC", sub, above, rest)
        else:
            out.append(sub | above)
    return out


def ob_top_default():
    pure()
    contract(st.to_records, REC)
    m = mapping("m")
    got = outcome(lambda: st.to_records(m))
    want = outcome(lambda: ref_level(m, {}, 1, 2))
    ensure_outcome("to_records.default", got, want)


def ob_recursive_default():
    """an inner call, with levels above and a stream of naturals that has already given n - 1"""
    pure()
    contract(st.to_records, REC)
    m, levels, n = mapping("m"), dct("levels"), int_("n")
    assume(n >= 1)
    from itertools import count
    got = outcome(lambda: st.to_records(m, levels, count(n)))
    want = outcome(lambda: ref_level(m, levels, n, n + 1))
    ensure_outcome("to_records.inner", got, want)


def ob_given_names():
    pure()
    contract(st.to_records, REC)
    m, levels, names = mapping("m"), dct("levels"), lst("names")
    assume(len(names) > 0)
    top = case("top")
    got = outcome((lambda: st.to_records(m, level_names=names)) if top else (lambda: st.to_records(m, levels, iter(names))))
    want = outcome(lambda: ref_level(m, {} if top else levels, names[0], names[1:]))
    ensure_outcome("to_records.given_names", got, want)
