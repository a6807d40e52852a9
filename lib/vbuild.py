"""Builds PatrickOHara/pctsp's C++ from /repo's current working tree, out of tree, into /verif/build.

libpypctsp.so  = every /repo/src/*.cpp + /repo/pctsp/pypctsp.cpp + shim/src/*.cpp, against libscip from
                 the PySCIPOpt wheel (shim/include has hand-written declarations of its C API).
hx_<name>.so   = /verif/hx/<name>.cpp, harness bindings to functions of the repository that its own
                 Python module does not export; linked against libpypctsp.so.

Objects are cached by the hash of everything they can depend on, so a change in /repo is always rebuilt.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import os
import re
import subprocess
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("PCTSP_REPO", "/repo"))
VENV = Path("/opt/vp/venv")
LIBS = VENV / "lib/python3.12/site-packages/pyscipopt.libs"
SKIP = {"pygraph.cpp"}  # boost.python sandbox code of the repository, not in its own build either
# calls of the repository's objects that shim/src/spy.cpp sees
WRAP = ["SCIPaddVarToRow", "SCIPaddVarsToRow", "SCIPaddRow", "SCIPaddPoolCut", "SCIPcreateConsLinear", "SCIPcreateConsBasicLinear",
        "SCIPaddCoefLinear", "SCIPaddCons", "SCIPaddConsLocal", "SCIPaddConsNode", "SCIPsolve", "SCIPcreateEmptyRowConshdlr",
        "SCIPcreateEmptyRowUnspec", "SCIPcreateEmptyRowCons", "SCIPaddVarsToRowSameCoef"]
FLAVOURS = {
    "rel": ["-O1", "-g0"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
             "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"],
}


class BuildError(Exception):
    pass


def _sha(parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()


def _read_all(*dirs):
    out = []
    for d in dirs:
        for f in sorted(Path(d).rglob("*")):
            if f.is_file():
                out.append(str(f))
                out.append(f.read_bytes())
    return out


def scip_lib():
    cands = sorted(LIBS.glob("libscip*.so*"))
    if not cands:
        raise BuildError("libscip not found in " + str(LIBS))
    return cands[0]


def _run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        e = BuildError("failed: " + " ".join(map(str, cmd)) + "\n" + (r.stderr or r.stdout)[-6000:])
        e.log = r.stderr or r.stdout
        raise e


def _regions(lines):
    """(first, last) line of every definition of a harness file, namespaces left out."""
    out, depth, first = [], 0, None
    for i, l in enumerate(lines):
        t = re.sub(r'"(?:\\.|[^"\\])*"|//.*|/\*.*?\*/', "", l).strip()
        if first is None:
            if not t or t[0] == "#" or t == "}" or re.match(r"namespace\b.*\{$|using |typedef ", t):
                continue
            first = i
        depth += t.count("{") - t.count("}")
        if depth == 0 and t[-1:] in ("}", ";"):
            out.append((first, i))
            first = None
    return out


def _without(src, errors, name):
    """The harness file without the definitions that do not compile; None if there is nothing to leave out."""
    lines = src.split("\n")
    bad = {int(n) - 1 for n in re.findall(name + r":(\d+):", errors)}
    gone = []
    for a, b in _regions(lines):
        if lines[a].startswith("PYBIND11_MODULE") or not any(a <= n <= b for n in bad):
            continue
        body = re.sub(r"/\*.*?\*/", "", "\n".join(lines[a:b + 1]), flags=re.S).strip()
        m = None if body.startswith(("struct", "class")) else re.search(r"([A-Za-z_]\w*)\s*\(", body)
        gone.append(m.group(1) if m else "-")
        lines[a:b + 1] = [""] * (b - a + 1)
    if not gone:
        return None
    src = "\n".join(lines)
    for g in gone:
        src = re.sub(rf'\bD\({g}\);|^\s*m\.def\([^;\n]*&(?:\w+::)?{g}\b[^;\n]*;', "", src, flags=re.M)
    return src


def build(hx=(), flavour="rel", verbose=True):
    """Build libpypctsp.so and the named harness modules; returns {name: path}."""
    bdir = VERIF / "build" / flavour
    (bdir / "o").mkdir(parents=True, exist_ok=True)
    with open(bdir / ".lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return _build(bdir, tuple(hx), flavour, verbose)


def _build(bdir, hx, flavour, verbose):
    flags = ["-std=gnu++17", "-fPIC", "-DBOOST_ALL_DYN_LINK", "-w", "-pipe",
             "-I" + str(VERIF / "shim/include"), "-I" + str(REPO / "include"), "-I" + str(VERIF / "hx"),
             "-I/usr/include/python3.12"] + FLAVOURS[flavour]
    hdr = _sha(_read_all(VERIF / "shim/include", REPO / "include") + flags)
    hxh = _sha([f.read_bytes() for f in sorted((VERIF / "hx").glob("*.h*"))])
    jobs = []

    def obj(src, extra=""):
        key = _sha([hdr, extra, src.name, src.read_bytes()])[:24]
        o = bdir / "o" / f"{src.stem}-{key}.o"
        if not o.exists():
            jobs.append((src, o))
        return o

    srcs = [s for s in sorted((REPO / "src").glob("*.cpp")) if s.name not in SKIP]
    srcs.append(REPO / "pctsp/pypctsp.cpp")
    # biggest translation units first
    main_objs = [obj(s) for s in sorted(srcs, key=lambda s: -s.stat().st_size)]
    main_objs += [obj(s) for s in sorted((VERIF / "shim/src").glob("*.cpp"))]
    hx_objs = {n: obj(VERIF / "hx" / f"{n}.cpp", hxh) for n in hx}

    def compile_one(job):
        src, o = job
        tmp = o.with_suffix(f".{os.getpid()}.tmp")
        try:
            _run(["g++", *flags, "-c", str(src), "-o", str(tmp)])
        except BuildError as e:
            if src.parent != VERIF / "hx":
                raise
            # functions of the repository that have gone or changed their parameters cannot be called: the rest can
            text, copy = src.read_text(), o.with_suffix(f".{os.getpid()}.cpp")
            for _ in range(8):
                text = _without(text, e.log, "(?:" + src.name + "|" + copy.name + ")")
                if text is None:
                    raise
                copy.write_text(text)
                try:
                    _run(["g++", *flags, "-c", str(copy), "-o", str(tmp)])
                    break
                except BuildError as e2:
                    e.log = e2.log
            else:
                raise
            copy.unlink()
        os.replace(tmp, o)

    heavy = {"pypctsp.cpp": 0, "algorithms.cpp": 1, "subtour_elimination.cpp": 2}
    jobs.sort(key=lambda j: heavy.get(j[0].name, 5 if "hx" not in str(j[0].parent) else 0))
    if jobs and verbose:
        print(f"[build:{flavour}] compiling {len(jobs)} files", flush=True)
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(compile_one, jobs))
    scip = scip_lib()
    common = ["-fuse-ld=lld", str(scip), f"-Wl,-rpath,{LIBS}", "-lboost_log", "-lboost_log_setup", "-lboost_thread",
              "-lboost_filesystem", "-lboost_system", "-lyaml-cpp", "-lpthread", "-ldl",
              *["-Wl,--wrap=" + w for w in WRAP]]
    san = [f for f in FLAVOURS[flavour] if f.startswith("-fsanitize")]
    out = {}

    def link(name, objs, extra):
        key = _sha([name, *map(str, objs), *extra, *common])[:16]
        so = bdir / f"{name}.so"
        stamp = bdir / f"{name}.key"
        if not so.exists() or not stamp.exists() or stamp.read_text() != key:
            tmp = bdir / f"{name}.{os.getpid()}.tmp"
            _run(["g++", "-shared", *san, *map(str, objs), *extra, *common, "-Wl,-soname," + f"{name}.so", "-o", str(tmp)])
            os.replace(tmp, so)
            stamp.write_text(key)
        out[name] = str(so)

    link("libpypctsp", main_objs, [])
    for n, o in hx_objs.items():
        link("hx_" + n, [o], [f"{bdir}/libpypctsp.so", f"-Wl,-rpath,{bdir}", "-Wl,-z,lazy"])
        # relink is keyed on the object path only; libpypctsp is bound at load time
    # drop stale objects
    keep = {o.name for o in main_objs + list(hx_objs.values())}
    objs = sorted((p for p in (bdir / "o").glob("*.o") if p.name not in keep), key=lambda p: p.stat().st_mtime)
    for p in objs[:-60] if len(objs) > 60 else []:
        p.unlink()
    return out


if __name__ == "__main__":
    import time
    t = time.time()
    try:
        print(build(sys.argv[2:], sys.argv[1] if len(sys.argv) > 1 else "rel"))
    except BuildError as e:
        print(e)
        sys.exit(2)
    print(f"{time.time() - t:.1f}s")
