property='S02'
needs='a match deep in an earlier branch and another nearer the top of a later one'
what='the search goes by depth, so it finds another match than the one the all-results search lists first'
edits=[('dustgoggles/structures.py', '    dug, iternests = None, iter(nests)\n', '    for nest in nests:\n        shallow, _ = _evaluate_diglevel(nest, predicate, mtypes)\n        if shallow:\n            return shallow\n    dug, iternests = None, iter(nests)\n')]
demo='''
from dustgoggles.structures import dig_for_value, dig_for_values
m = {'a': {'b': {'k': 1}}, 'c': {'k': 2}}
assert dig_for_value(m, 'k') == dig_for_values(m, 'k')[0]
'''
