property='C05'
needs='captures added to all steps of a composition of two or more'
what="all captures share one list and hold the last step's output"
edits=[('dustgoggles/composition.py', '{step: [None] for step in self.steps}', 'dict.fromkeys(self.steps, [None])')]
demo='''
from dustgoggles.composition import Composition
c = Composition({'a': lambda x: x + 1, 'b': lambda x: x * 10})
c.add_captures()
c.execute(1)
assert c.captures == {'a': [2], 'b': [20]}, c.captures
'''
