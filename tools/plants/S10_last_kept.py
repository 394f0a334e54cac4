property='S10'
needs='two equivalent values stored, then both keys read'
what='the object kept for an equivalence class is the last stored, not the first'
edits=[('dustgoggles/structures.py', '        if itemhash not in self.reverse.keys():\n            self.reverse[itemhash] = item\n', '        if self.reverse.get(itemhash) is not item:\n            self.reverse[itemhash] = item\n')]
demo='''
from dustgoggles.structures import HashDict
h = HashDict(equivalence=len)
a, b = [1], [2]
h['x'] = a
h['y'] = b
assert h['x'] is a and h['y'] is a
'''
