property="D01"
needs="a report made while the catching frame has already moved past the raising line"
what="line numbers are those the frames are at now, not those the exception passed through"
edits=[("dustgoggles/dynamic.py","report['lineno'].append(tb.tb_lineno)","report['lineno'].append(fr.f_lineno)")]
demo='''
from dustgoggles.dynamic import exc_report
def f():
    try:
        raise ValueError("x")
    except ValueError as e:
        ex = e
    pass
    return exc_report(ex), ex
r, ex = f()
assert r["lineno"] == [ex.__traceback__.tb_lineno], r
'''
