property='T01'
needs='two tracked calls, the first with its own metadata'
what='it is on the second too'
edits=[('dustgoggles/tracker.py', '        self.history.append(rec)\n', '        self.metadata |= {k: v for k, v in metadata.items() if v}\n        self.history.append(rec)\n')]
demo='\nimport tempfile\nfrom pathlib import Path\nfrom dustgoggles.tracker import Tracker\nwith tempfile.TemporaryDirectory() as d:\n    t = Tracker("x", outdir=Path(d))\n    t.track(print, a=1); t.track(print)\n    assert "a" not in t.history[1], t.history\n'
