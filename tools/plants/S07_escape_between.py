property='S07'
needs='an escape and two or more levels'
what='the escape surrounds the whole prefix only, not each level'
edits=[('dustgoggles/structures.py', 'prefix = f"{escape}_{escape}".join', 'prefix = f"{escape}_".join')]
demo='''
from dustgoggles.structures import unnest
got = unnest({'a': {'b': {'c': 1}}}, escape='`')
assert got == {'`a`_`b`_c': 1}, got
'''
