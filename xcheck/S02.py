from digcommon import *
from dustgoggles import structures as st
RULE = "as S01; the expected first entry comes from an independent exhaustive search"


def run_case(desc):
    tree_d, rule, mt = desc
    ref, kw = args_for(rule, mt)
    mtypes = MT[mt] if MT[mt] is not None else (dict,)
    tree = build_sharing(tree_d)
    before = snapshot(tree)
    exp = oracle(tree, effective(rule), mtypes)
    for fn, pick in ((st.dig_for_item, None), (st.dig_for_key, 0), (st.dig_for_value, 1)):
        got = fn(tree, ref, **kw)
        same(snapshot(tree), before, "input mapping after the search")
        if not exp:
            check(got is None, fn.__name__, "got", got, "but nothing matches")
            continue
        want = exp[0] if pick is None else exp[0][pick]
        check(got is want or deep_same(got, want), fn.__name__, "got", got, "expected", want)
