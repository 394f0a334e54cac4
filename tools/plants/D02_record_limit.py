property='D02'
needs='more than 100 failing optional calls without unloading'
what='later failures leave no record'
edits=[('dustgoggles/dynamic.py', "        target.append(exc_report(exc) | {'func': func, 'category': 'call'})\n", "        if len(target) < 100:\n            target.append(exc_report(exc) | {'func': func, 'category': 'call'})\n")]
demo='\nfrom dustgoggles.dynamic import Dynamic\nd = Dynamic("def f(x):\\n    raise ValueError(x)\\n", optional=True)\nfor i in range(150): d(i)\nassert len(d.errors) == 150, len(d.errors)\n'
