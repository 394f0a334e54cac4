property="S11"
needs="a record whose own key is falsy and not equal to its position"
what="results of records with falsy keys land under the position instead"
edits=[("dustgoggles/structures.py","rec['key'] = rec.get('key', i)","rec['key'] = rec.get('key') or i")]
demo='''
from dustgoggles.structures import map_into_pool
out = map_into_pool(abs, [{"args": (-3,), "key": "a"}, {"args": (-4,), "key": 0}])
assert out == {"a": 3, 0: 4}, out
'''
