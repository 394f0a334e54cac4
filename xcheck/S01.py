from digcommon import *
from dustgoggles import structures as st
RULE = "all trees of two levels over two keys, deep chains with the match at every position, random nestings of five mapping types; every rule kind; non-trivial = distinct description"


def run_case(desc):
    tree_d, rule, mt = desc
    ref, kw = args_for(rule, mt)
    mtypes = MT[mt] if MT[mt] is not None else (dict,)
    tree = build_sharing(tree_d)
    before = snapshot(tree)
    exp = oracle(tree, effective(rule), mtypes)
    for fn, pick in ((st.dig_for_items, None), (st.dig_for_keys, 0), (st.dig_for_values, 1)):
        got = fn(tree, ref, **kw)
        same(snapshot(tree), before, "input mapping after the search")
        want = (exp if pick is None else [e[pick] for e in exp]) if exp else None
        check((got is None) == (want is None), fn.__name__, "got", got, "expected", want)
        if want is None:
            continue
        check(isinstance(got, list), fn.__name__, "returned", type(got))
        check(len(got) == len(want), fn.__name__, "got", got, "expected", want)
        for g, w in zip(got, want):
            if pick is None:
                check(isinstance(g, tuple) and len(g) == 2, "item", g)
                check(g[0] is w[0] or deep_same(g[0], w[0]), "keys differ", g, w)
                check(g[1] is w[1] or deep_same(g[1], w[1]), "values differ", g, w)
            else:
                check(g is w or deep_same(g, w), fn.__name__, "got", g, "expected", w)
