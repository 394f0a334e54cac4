property='D01'
needs='an exception raised more than 128 frames deep'
what='the report stops there'
edits=[('dustgoggles/dynamic.py', '    while tb is not None:\n', '    while tb is not None and len(report["lineno"]) < 128:\n')]
demo='\nfrom dustgoggles.dynamic import exc_report\ndef f(n):\n    if n == 0: raise ValueError\n    f(n - 1)\ntry:\n    f(200)\nexcept ValueError as e:\n    assert len(exc_report(e)["lineno"]) == 202, len(exc_report(e)["lineno"])\n'
