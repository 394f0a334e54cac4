property='S08'
needs="a path through a value that is None to one of None's attributes"
what='a level that is None gives the default even when the rest of the path is there'
edits=[('dustgoggles/structures.py', '    for key in keys:\n        try:\n            level = getitemattr', '    for key in keys:\n        if level is None:\n            return default\n        try:\n            level = getitemattr')]
demo='''
from dustgoggles.structures import get_from
assert get_from({'a': None}, ['a', '__class__'], 0) is type(None)
'''
