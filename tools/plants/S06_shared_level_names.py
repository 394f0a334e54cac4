property='S06'
needs='default level names in a mapping of uneven depth'
what='see demo'
edits=[('dustgoggles/structures.py', '            records += to_records(mapping, branch, copy(level_names))\n', '            records += to_records(\n                mapping, branch, islice(copy(level_names), 60)\n            )\n'), ('dustgoggles/structures.py', 'from copy import copy\n', 'from copy import copy\nfrom itertools import islice\n')]
demo='\nfrom dustgoggles.structures import to_records\nd = {"p": 1}\nfor i in range(80): d = {f"k{i}": d}\nassert len(to_records(d)) == 1\n'
