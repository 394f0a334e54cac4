property='P01'
needs='more than 65536 values, with the one that does not fit after those'
what='the errors are judged on the first 65536 values'
edits=[('dustgoggles/pivot.py', '            recast = arr_nzero.astype(dtype)\n        offsets = np.abs(arr_nzero - recast)\n', '            recast = arr_nzero[:65536].astype(dtype)\n        arr_nzero = arr_nzero[:65536]\n        offsets = np.abs(arr_nzero - recast)\n')]
demo='\nimport numpy as np\nfrom dustgoggles.pivot import downcast\na = np.ones(70000); a[-1] = 1.5\nr = downcast(a)["recast"]\nassert r[-1] == 1.5, r[-1]\n'
