property="C04"
needs="a tracked composition whose failing step is preceded by a step"
what="the failure record names the step before the one that failed"
edits=[("dustgoggles/composition.py","self.steps[tuple(self.steps.keys())[step_ix + 1]],","self.steps[tuple(self.steps.keys())[max(step_ix, 0)]],")]
demo='''
from dustgoggles.composition import Composition
class T:
    name = None
    def __init__(self): self.seen = []
    def track(self, f, **m): self.seen.append((f.__name__, "exception" in m))
def one(x): return x
def two(x): raise ValueError
t = T()
c = Composition([one, two], tracker=t, optional=True)
c.execute(1)
assert ("two", True) in t.seen, t.seen
'''
