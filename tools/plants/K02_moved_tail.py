property='K02'
needs='removing a key with longer metadata than the last key has, which moves into its place'
what='the moved metadata is followed by the end of the removed one'
edits=[('dustgoggles/codex/implements.py', '                    self.val_address(found_at), size=len(valbytes), overwrite=True\n                )\n                moved_block.buf[:] = valbytes\n', '                    self.val_address(found_at), size=len(valbytes)\n                )\n                moved_block.buf[:len(valbytes)] = valbytes\n')]
demo='\nimport os\nfrom multiprocessing import resource_tracker\nresource_tracker.register = lambda *a, **k: None\nresource_tracker.unregister = lambda *a, **k: None\nn = f"demo{os.getpid()}"\ntry:\n    from dustgoggles.codex.implements import MetaTagIndex\n    t = MetaTagIndex(n, create=True)\n    t.add(\'a\', {\'long\': \'x\' * 50}); t.add(\'b\', {\'s\': 1})\n    t.remove(\'a\')\n    assert t[\'b\'] == b\'{"s": 1}\', t[\'b\']\nfinally:\n    for f in os.listdir("/dev/shm"):\n        if f.startswith(n): os.unlink("/dev/shm/" + f)\n'
