property='S01'
needs='nesting types other than dict, and a match two levels below the top'
what='below the second level only plain dicts are searched'
edits=[('dustgoggles/structures.py', 'add, [dig_for_all(nest, predicate, mtypes) for nest in nests]', 'add,\n            [\n                dig_for_all(nest, predicate, mtypes if nest is nests[0] else (dict,))\n                for nest in nests\n            ],')]
demo='''
from collections import UserDict
from dustgoggles.structures import dig_for_values
U = UserDict
m = U(a=U(k=1), b=U(c=U(k=2)))
got = dig_for_values(m, 'k', mtypes=(UserDict,))
assert got == [1, 2], got
'''
