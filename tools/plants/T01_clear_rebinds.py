property="T01"
needs="a clear followed by tracking and a look at the log (or a dump)"
what="after clear, the log keeps showing the old history"
edits=[("dustgoggles/tracker.py","        self.history[:] = []","        self.history = []")]
demo='''
import tempfile, pathlib
from dustgoggles.tracker import Tracker
with tempfile.TemporaryDirectory() as d:
    t = Tracker("x", outdir=pathlib.Path(d))
    t.track(abs); t.clear(); t.track(len)
    assert [r["target"] for r in t.log["history"]] == ["len"], t.log
'''
