property="S03"
needs="an entry the filter selects whose new value is a mapping, with something inside to edit"
what="mappings under replaced entries are not descended into"
edits=[("dustgoggles/structures.py","    for nest in [v for v in mapping.values() if isinstance(v, mtypes)]:\n        dig_and_edit(nest",
"    touched = {key for key, _ in matches}\n    nests = [\n        v for k, v in mapping.items()\n        if isinstance(v, mtypes) and k not in touched\n    ]\n    for nest in nests:\n        dig_and_edit(nest")]
demo='''
from dustgoggles.structures import dig_and_edit
d = {"a": {"a": 1, "b": 2}}
out = dig_and_edit(d, lambda k, v: k == "a", lambda k, v: {"a": 5, "c": 6} if isinstance(v, dict) else "x")
assert out == {"a": {"a": "x", "c": 6}}, out
'''
