"""Loads the repository's modules through the instrumenter, from the directory given on the command line, on every run."""
import importlib.abc, importlib.machinery, os, sys, types
from . import core, models, rewrite


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        run_module(module, self.path)


def run_module(module, path):
    with open(path) as f:
        src = f.read()
    module.__dict__.update({k + "__": v for k, v in models.HOOKS.items()})
    module.__dict__["__dv_mod__"] = True
    module.__dict__["__file__"] = path
    exec(rewrite.instrument(src, path), module.__dict__)
    for v in list(module.__dict__.values()):
        mark(v, module.__name__)


def mark(v, name):
    if isinstance(v, type) and v.__module__ == name and not v.__dict__.get("__dvclass__"):
        try:
            v.__dvclass__ = True
        except TypeError:
            return
        for w in list(v.__dict__.values()):
            mark(w, name)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, repo, stubs):
        self.repo, self.stubs = repo, stubs

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] == "dustgoggles":
            p = os.path.join(self.repo, *name.split("."))
            if os.path.isdir(p):
                f = os.path.join(p, "__init__.py")
                s = importlib.machinery.ModuleSpec(name, Loader(f if os.path.exists(f) else os.devnull), origin=f, is_package=True)
                s.submodule_search_locations = [p]
                return s
            if os.path.exists(p + ".py"):
                return importlib.machinery.ModuleSpec(name, Loader(p + ".py"), origin=p + ".py")
            return None
        return None


def setup(repo, stubs):
    sys.dont_write_bytecode = True
    for name, ns in stubs.items():
        m = sys.modules.get(name)
        if m is None or name in ("cytoolz", "more_itertools", "pandas", "pyarrow") or name.startswith(("pandas", "pyarrow")):
            m = types.ModuleType(name)
            m.__path__ = []
            sys.modules[name] = m
        m.__dict__.update(ns)
        if "." in name:
            setattr(sys.modules[name.rpartition(".")[0]], name.rpartition(".")[2], m)
    sys.meta_path.insert(0, Finder(repo, stubs))
    here = os.path.dirname(os.path.abspath(__file__))
    pre = types.ModuleType("dv_prelude")
    run_module(pre, os.path.join(here, "prelude.py"))
    models.PRELUDE.update(pre.__dict__)
    from . import framehooks
    fr = types.ModuleType("dv_frames")
    fr.__dict__.update(**framehooks.HOOKS, picks=framehooks.picks, unsupported=__import__("pydv.standins", fromlist=["x"]).unsupported)
    run_module(fr, os.path.join(here, "frames.py"))
    models.PRELUDE.update({k: v for k, v in fr.__dict__.items() if getattr(v, "__module__", None) == "dv_frames"})
    return pre
