property='S09'
needs='a prior key equal to, but not the same object as, the one in the mapping'
what='the new entry is not inserted'
edits=[('dustgoggles/structures.py', '        if key == prior_key:', '        if key is prior_key:')]
demo='''
from dustgoggles.structures import insert_after
got = insert_after('n', 1, tuple([1, 2]), {tuple([1, 2]): 0, 'z': 2})
assert list(got) == [(1, 2), 'n', 'z'], got
'''
