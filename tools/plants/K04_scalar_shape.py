property='K04'
needs='an array without dimensions'
what='it is read back with one dimension'
edits=[('dustgoggles/codex/codecs.py', "            metadata['shape'], dtype", "            metadata['shape'] or (1,), dtype")]
demo='\nimport os\nfrom multiprocessing import resource_tracker\nresource_tracker.register = lambda *a, **k: None\nresource_tracker.unregister = lambda *a, **k: None\nn = f"demo{os.getpid()}"\ntry:\n    import numpy as np\n    from dustgoggles.codex.implements import GridPaper\n    g = GridPaper(n, create=True)\n    g[\'a\'] = np.array(5.5)\n    assert g[\'a\'].shape == (), g[\'a\'].shape\nfinally:\n    for f in os.listdir("/dev/shm"):\n        if f.startswith(n): os.unlink("/dev/shm/" + f)\n'
