property='P01'
needs='an integer array holding the largest value of a type'
what="arrays holding a type's largest value get the next larger type"
edits=[('dustgoggles/pivot.py', 'amin >= info.min and amax <= info.max', 'amin >= info.min and amax < info.max')]
demo='''
import numpy as np
from dustgoggles.pivot import downcast
r = downcast(np.array([0, 255]))['recast']
assert r.dtype == np.uint8, r.dtype
'''
