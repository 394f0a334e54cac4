"""D01: exception reports describe every traceback frame, aligned and in order."""
dynamic = load("dustgoggles.dynamic")
ASSUMES = ["a traceback is finite", "inspect.getmodule is a function of the frame", "reading a frame has no side effect",
           "the names of code objects and modules are strings"]
import inspect


def where(frame):
    """the name of the code a frame runs, after its module's if that is known"""
    module = inspect.getmodule(frame)
    if module is None:
        return frame.f_code.co_name
    return f"{module.__name__}.{qualified(frame.f_code)}"


def qualified(code):
    try:
        return code.co_qualname
    except AttributeError:
        return code.co_name


def expected(exc, shown):
    lines, names, files = [], [], []
    tb = exc.__traceback__
    while tb is not None:
        lines.append(tb.tb_lineno)
        names.append(where(tb.tb_frame))
        files.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    return {"exception": shown, "lineno": lines, "name": names, "filename": files}


def drive(text):
    pure()
    exc = obj("exc")
    has_attributes("__traceback__", "tb_frame", "tb_next", "tb_lineno", "f_code", "co_name", "co_filename", "__name__")
    text_attributes("co_name", "co_qualname", "co_filename", "__name__")
    want = outcome(lambda: expected(exc, f"{type(exc)}: {exc}" if text else exc))
    if text:
        got = outcome(lambda: dynamic.exc_report(exc))
    else:
        got = outcome(lambda: dynamic.exc_report(exc, stringify_exception=False))
    ensure_outcome("exc_report.every_frame_aligned", got, want)


def ob_text():
    drive(True)


def ob_exception_itself():
    drive(False)


def ob_no_exception():
    ensure_same("exc_report.none", dynamic.exc_report(None), {})
    ensure_same("exc_report.none_unstringified", dynamic.exc_report(None, stringify_exception=False), {})
