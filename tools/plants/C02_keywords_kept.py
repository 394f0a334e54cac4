property='C02'
needs='a partially applied step whose baked-in keyword is overridden by a keyword insert, run twice'
what='overriding a baked-in keyword changes the step itself'
edits=[('dustgoggles/composition.py', '            kwargs = step.keywords | kwargs\n', '            step.keywords.update(kwargs)\n            kwargs = step.keywords\n')]
demo='''
from functools import partial
from dustgoggles.composition import Composition
f = partial(lambda x, k=0: (x, k), k=1)
c = Composition({'a': f}, inserts={'a': {'k': 2}})
assert c.execute(1) == (1, 2)
c.inserts.clear()
assert c.execute(1) == (1, 1), c.execute(1)
'''
