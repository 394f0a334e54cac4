property='F02'
needs='an exception that is neither ordinary nor an interrupt'
what='an optional function swallows exceptions such as SystemExit'
edits=[('dustgoggles/func.py', '        except Exception as e:\n            exc_callback(e)\n', '        except BaseException as e:\n            if isinstance(e, (SystemExit, GeneratorExit)):\n                raise\n            exc_callback(e)\n')]
demo='''
from dustgoggles.func import optionalize
class Stop(BaseException):
    pass
def f():
    raise Stop
try:
    optionalize(f)()
except Stop:
    sys.exit(0)
sys.exit(1)
'''
