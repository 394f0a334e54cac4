property = 'C04'
needs = 'the same exception object raised in two runs of one composition, or passed through two tracked compositions'
what = 'only the first failure leaves a failure record'
edits = [('dustgoggles/composition.py', "            if self.tracker is not None:\n                self.tracker.track(\n                    self.steps", "            if self.tracker is not None and not getattr(ex, '_tracked', False):\n                try:\n                    ex._tracked = True\n                except AttributeError:\n                    pass\n                self.tracker.track(\n                    self.steps")]
demo = '''
from dustgoggles.composition import Composition
from dustgoggles.tracker import TrivialTracker


class T(TrivialTracker):
    def __init__(self):
        self.n = 0

    def track(self, *_, **md):
        self.n += "exception" in md


ex, t = ValueError("kept"), T()


def bad(_):
    raise ex


c = Composition([bad], tracker=t, optional=True)
c(1), c(2), c(3)
assert t.n == 3, t.n
'''
