"""Imports the repository's Python, with the compiled module or with a stand-in for checks that do not call it."""
import importlib.machinery
import importlib.util
import os
import sys
import types
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = os.environ.get("PCTSP_REPO", "/repo")


def _path():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def stub():
    """pctsp.libpypctsp whose functions must not be called."""
    _path()
    import pctsp

    class Stub(types.ModuleType):
        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)

            def f(*a, **k):
                raise RuntimeError(f"{name} is not available in this check")
            f.__name__ = name
            return f
    if "pctsp.libpypctsp" not in sys.modules:
        m = Stub("pctsp.libpypctsp")
        sys.modules["pctsp.libpypctsp"] = m
        pctsp.libpypctsp = m
    return sys.modules["pctsp.libpypctsp"]


FLAVOUR = None  # set by a check that runs the parts of other checks with another build


def load_ext(name, so):
    if getattr(sys.modules.get(name), "__file__", None) == str(so):
        return sys.modules[name]
    loader = importlib.machinery.ExtensionFileLoader(name, str(so))
    spec = importlib.util.spec_from_loader(name, loader)
    m = importlib.util.module_from_spec(spec)
    loader.exec_module(m)
    sys.modules[name] = m
    return m


def native(flavour="rel"):
    flavour = FLAVOUR or flavour
    _path()
    import pyscipopt  # noqa: F401  loads libscip
    import pctsp
    m = load_ext("pctsp.libpypctsp", VERIF / "build" / flavour / "libpypctsp.so")
    pctsp.libpypctsp = m
    return m


def hx(name, flavour="rel"):
    from harness import Unavailable
    m = load_ext("hx_" + name, VERIF / "build" / (FLAVOUR or flavour) / f"hx_{name}.so")

    def missing(attr):
        if attr.startswith("__"):
            raise AttributeError(attr)
        raise Unavailable(f"{name}.{attr}")
    m.__getattr__ = missing
    return m
