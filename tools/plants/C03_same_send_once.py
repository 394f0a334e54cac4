property='C03'
needs='the same send added twice to a step'
what='it fires once'
edits=[('dustgoggles/composition.py', '        for pipe, target, index in buses:\n', '        buses = [bus for i, bus in enumerate(buses) if bus not in buses[:i]]\n        for pipe, target, index in buses:\n')]
demo='\nfrom dustgoggles.composition import Composition\ngot = []\nc = Composition({"a": lambda x: x})\nc.add_send("a", pipe=got.append); c.add_send("a", pipe=got.append)\nc(5)\nassert got == [5, 5], got\n'
