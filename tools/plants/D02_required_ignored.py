property='D02'
needs='a dynamic function that is optional by default, called as required'
what='a call made as required is run as optional'
edits=[('dustgoggles/dynamic.py', '        if _optional is None:\n            _optional = self.optional\n', '        _optional = _optional or self.optional\n')]
demo='''
from dustgoggles.dynamic import Dynamic
d = Dynamic('def f(x):\\n    return 1 / x\\n', optional=True)
try:
    d(0, _optional=False)
except ZeroDivisionError:
    assert d.errors == []
    sys.exit(0)
sys.exit(1)
'''
