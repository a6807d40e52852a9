"""Builds the repository in the current directory out of tree (its own build leaves the solver out) and imports it."""
import atexit
import concurrent.futures as cf
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
import types
from pathlib import Path

HERE = Path(__file__).resolve().parent
REPO = Path.cwd()
VENV = Path("/opt/vp/venv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
sys.path.insert(0, str(REPO))
TMP = Path(tempfile.mkdtemp(prefix="demo-"))
atexit.register(shutil.rmtree, TMP, True)


def stub():
    """The Python of the repository without its compiled module."""
    import pctsp

    class Stub(types.ModuleType):
        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)
            return lambda *a, **k: (_ for _ in ()).throw(RuntimeError(name + " is not available"))
    sys.modules["pctsp.libpypctsp"] = pctsp.libpypctsp = Stub("pctsp.libpypctsp")


def _load(name, so):
    loader = importlib.machinery.ExtensionFileLoader(name, str(so))
    m = importlib.util.module_from_spec(importlib.util.spec_from_loader(name, loader))
    loader.exec_module(m)
    sys.modules[name] = m
    return m


def native(extra=None):
    """pctsp.libpypctsp built from the working tree; extra: a further C++ file with a PYBIND11_MODULE of the name of the file."""
    scip = sorted((VENV / "pyscipopt.libs").glob("libscip*.so*"))[0]
    srcs = [s for s in sorted((REPO / "src").glob("*.cpp")) if s.name != "pygraph.cpp"]
    srcs += [REPO / "pctsp/pypctsp.cpp", HERE / "objscip.cpp", HERE / "nospy.cpp"] + ([HERE / extra] if extra else [])
    srcs.sort(key=lambda s: -s.stat().st_size)
    flags = ["-std=gnu++17", "-fPIC", "-O0", "-w", "-pipe", "-DBOOST_ALL_DYN_LINK", f"-I{HERE}/include", f"-I{REPO}/include", "-I/usr/include/python3.12"]

    def cc(s):
        o = TMP / (s.stem + ".o")
        subprocess.run(["g++", *flags, "-c", str(s), "-o", str(o)], check=True)
        return str(o)
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(cc, srcs))
    libs = [str(scip), f"-Wl,-rpath,{scip.parent}", "-lboost_log", "-lboost_log_setup", "-lboost_thread", "-lboost_filesystem",
            "-lboost_system", "-lyaml-cpp", "-lpthread", "-ldl"]
    subprocess.run(["g++", "-shared", *objs, *libs, "-o", str(TMP / "libpypctsp.so")], check=True)
    import pyscipopt  # noqa: F401
    import pctsp
    m = pctsp.libpypctsp = _load("pctsp.libpypctsp", TMP / "libpypctsp.so")
    if extra:
        return m, _load(Path(extra).stem, TMP / "libpypctsp.so")
    return m


def graph(edges, prizes):
    import networkx as nx
    g = nx.Graph()
    for v, p in prizes.items():
        g.add_node(v, prize=p)
    for u, v, c in edges:
        g.add_edge(u, v, cost=c)
    return g


def expect(ok, text):
    if not ok:
        print("BROKEN:", text)
        sys.exit(1)
    print("ok:", text)
