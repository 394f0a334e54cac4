property = 'F02'
needs = 'an endless iterable, or one whose items are made while the function runs'
what = 'the greedy map wrapper gathers its iterables before it maps, so it hands other arguments to the mapper and never returns'
edits = [('dustgoggles/func.py', "    return evaluator(mapper(func, *iterables))", "    return evaluator(mapper(func, *map(tuple, iterables)))")]
demo = '''
from dustgoggles.func import gmap

seen = []


def feed():
    for i in range(3):
        seen.append(i)
        yield i


got = gmap(lambda x: len(seen), feed())
assert got == (1, 2, 3), got
'''
