property='K03'
needs='two keys that differ only in letter case'
what='they share one value'
edits=[('dustgoggles/codex/implements.py', '        return f"{self.prefix}_{key}"\n', '        return f"{self.prefix}_{key}".casefold()\n')]
demo='\nimport os\nfrom multiprocessing import resource_tracker\nresource_tracker.register = lambda *a, **k: None\nresource_tracker.unregister = lambda *a, **k: None\nn = f"demo{os.getpid()}"\ntry:\n    from dustgoggles.codex.implements import Notepad\n    p = Notepad(n, create=True)\n    p[\'a\'] = 1; p[\'A\'] = 2\n    assert p[\'a\'] == 1, p[\'a\']\nfinally:\n    for f in os.listdir("/dev/shm"):\n        if f.startswith(n): os.unlink("/dev/shm/" + f)\n'
