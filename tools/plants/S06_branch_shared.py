property='S06'
needs='branches of different depths'
what='levels of a deeper branch stay in the records of a later, shallower one'
edits=[('dustgoggles/structures.py', 'branch = accumulated_levels.copy()', 'branch = accumulated_levels')]
demo='''
from dustgoggles.structures import to_records
got = to_records({'a': {'b': {'c': {'x': 1}}}, 'd': {'e': {'y': 2, 'z': 3}}, 'f': {'w': 4}})
assert got[-1] == {'w': 4, 1: 'f'}, got
'''
