property = 'C04'
needs = 'a failure after the hundredth step of a tracked composition'
what = 'the failure record names an earlier step'
edits = [('dustgoggles/composition.py', "self.steps[tuple(self.steps.keys())[step_ix + 1]]", "self.steps[tuple(self.steps.keys())[min(step_ix + 1, 98)]]")]
demo = '''
from dustgoggles.composition import Composition
from dustgoggles.tracker import TrivialTracker


class T(TrivialTracker):
    def __init__(self):
        self.seen = []

    def track(self, f, **md):
        if "exception" in md:
            self.seen.append(f)


def ok(x):
    return x


def bad(x):
    raise ValueError


t = T()
c = Composition([ok] * 120 + [bad], tracker=t, optional=True)
c(0)
assert t.seen == [bad], t.seen
'''
