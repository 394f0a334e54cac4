property='F01'
needs='one of the iterables is empty'
what='empty iterables do not take part in the intersection'
edits=[('dustgoggles/func.py', 'reduce(and_, [set(iterable) for iterable in iterables])', 'reduce(\n        and_, list(filter(None, map(set, iterables))) or [set()]\n    )')]
demo='''
from dustgoggles.func import intersection, disjoint
assert intersection([1, 2], []) == set(), intersection([1, 2], [])
'''
