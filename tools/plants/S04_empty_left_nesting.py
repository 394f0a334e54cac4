property='S04'
needs='a branch that was only looked at, hence empty'
what='empty branches stay auto-nesting dictionaries in the plain dict'
edits=[('dustgoggles/structures.py', 'lambda _, v: is_it(NestingDict)(v), lambda', 'lambda _, v: is_it(NestingDict)(v) and len(v), lambda')]
demo='''
from dustgoggles.structures import NestingDict
n = NestingDict()
n['a']['b']
d = n.todict()
assert type(d['a']['b']) is dict, d
'''
