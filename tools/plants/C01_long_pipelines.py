property='C01'
needs='a composition of more than 512 steps'
what='execution stops after 512 steps'
edits=[('dustgoggles/composition.py', 'zip(count(), iterpipe)', 'zip(range(512), iterpipe)')]
demo='''
from dustgoggles.composition import Composition
c = Composition([lambda x: x + 1] * 700)
assert c.execute(0) == 700, c.execute(0)
'''
