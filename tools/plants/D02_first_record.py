property = 'D02'
needs = 'a source that did not compile at first, then a failing optional call of the corrected one'
what = 'the call-failure flag is not set because the first record is a compile error'
edits = [('dustgoggles/dynamic.py', "                if self.errors[-1].get('category') == 'call':\n", "                if self.errors[0].get('category') == 'call':\n")]
demo = '''
from dustgoggles.dynamic import Dynamic

d = Dynamic("def f(:", lazy=True, optional=True)
try:
    d.load()
except TypeError:
    pass
assert d.compile_fail is True and len(d.errors) == 1
d.source = "def f():\\n    return 1 / 0\\n"
assert d() is None
assert len(d.errors) == 2 and d.call_fail is True, (d.errors, d.call_fail)
'''
