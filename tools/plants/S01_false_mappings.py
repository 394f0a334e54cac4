property = 'S01'
needs = 'a nested mapping that has items and is nevertheless false'
what = 'the searches do not enter it'
edits = [('dustgoggles/structures.py', "    nests = [v for v in mapping.values() if isinstance(v, mtypes)]\n    level_items", "    nests = [v for v in mapping.values() if v and isinstance(v, mtypes)]\n    level_items")]
demo = '''
from dustgoggles.structures import dig_for_values


class Lazy(dict):
    def __bool__(self):
        return False


assert dig_for_values({"n": Lazy(a=1), "a": 2}, "a") == [2, 1]
'''
