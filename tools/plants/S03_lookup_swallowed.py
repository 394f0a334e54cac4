property = 'S03'
needs = 'a setter that raises a KeyError for one of the selected entries'
what = 'the exception is swallowed and the entry silently keeps its old value'
edits = [('dustgoggles/structures.py', "        mapping[key] = setter_func(key, value)\n", "        try:\n            mapping[key] = setter_func(key, value)\n        except KeyError:\n            continue\n")]
demo = '''
from dustgoggles.structures import dig_and_edit

table = {1: "one"}
try:
    dig_and_edit({"a": 1, "b": 2}, lambda k, v: True, lambda k, v: table[v])
except KeyError:
    sys.exit(0)
sys.exit(1)
'''
