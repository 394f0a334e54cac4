property = 'C02'
needs = 'a keyword insert whose name starts with an underscore, and a second run'
what = 'running a step uses such inserts up, so the next run assembles other arguments'
edits = [('dustgoggles/composition.py', "            kwargs = keyfilter(lambda k: isinstance(k, str), insert)\n", "            private = [k for k in insert if isinstance(k, str) and k[:1] == '_']\n            kwargs = keyfilter(lambda k: isinstance(k, str), insert)\n            for k in private:\n                del insert[k]\n")]
demo = '''
from dustgoggles.composition import Composition


def f(x, _mode=None, y=0):
    return (x, _mode, y)


c = Composition({"f": f}, inserts={"f": {"_mode": 1, "y": 2}})
assert c(0) == (0, 1, 2)
assert c(0) == (0, 1, 2)
'''
