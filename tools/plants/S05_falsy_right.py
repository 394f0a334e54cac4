property="S05"
needs="a shared non-mapping key whose right value is falsy"
what="the right-hand value does not win when it is falsy"
edits=[("dustgoggles/structures.py","            output[kv[0]] = map2[kv[0]]\n    return output","            output[kv[0]] = map2[kv[0]] or map1[kv[0]]\n    return output")]
demo='''
from dustgoggles.structures import rmerge
assert rmerge({"a": {"n": 3}}, {"a": {"n": 0}}) == {"a": {"n": 0}}
'''
