property='T02'
needs='a dump before anything was tracked, then a clear'
what='clearing leaves the file if nothing has been tracked'
edits=[('dustgoggles/tracker.py', '        self.outpath.unlink(missing_ok=True)\n', '        if len(self.history) > 0:\n            self.outpath.unlink(missing_ok=True)\n')]
demo='''
import tempfile, pathlib, json
from dustgoggles.tracker import Tracker
with tempfile.TemporaryDirectory() as d:
    t = Tracker('n', outdir=pathlib.Path(d))
    t.dump()
    t.clear()
    assert not t.outpath.exists()
'''
