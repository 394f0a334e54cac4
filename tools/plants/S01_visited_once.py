property='S01'
needs='one nested mapping that sits at two places'
what='its matches are listed once'
edits=[('dustgoggles/structures.py', '    if nests:\n        level_items += reduce(\n            add, [dig_for_all(nest, predicate, mtypes) for nest in nests]\n        )\n', '    nests = {id(nest): nest for nest in nests}.values()\n    if nests:\n        level_items += reduce(\n            add, [dig_for_all(nest, predicate, mtypes) for nest in nests]\n        )\n')]
demo='\nfrom dustgoggles.structures import dig_for_values\ns = {"a": 1}\nassert dig_for_values({"x": s, "y": s}, "a") == [1, 1], dig_for_values({"x": s, "y": s}, "a")\n'
