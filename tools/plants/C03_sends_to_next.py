property="C03"
needs="a send whose pipe returns None and has a target"
what="a piped send whose pipe returns None is not delivered"
edits=[("dustgoggles/composition.py","                self.place_into(pipe(state), target, index)","                piped = pipe(state)\n                if piped is not None:\n                    self.place_into(piped, target, index)")]
demo='''
from dustgoggles.composition import Composition
out = []
c = Composition([abs])
c.add_send(0, pipe=lambda x: None, target=out)
c(1)
assert out == [None], out
'''
