"""Runs the parts of a check over 8 worker processes and reports.

A check is a module checks/<id>.py with
    PROPERTY, LEVEL_RULE (how cases are made, what is non-trivial), HX (harness modules to build, or None for a
    check that needs no C++), FLAVOUR, and PARTS, a list of Part.
A Part has a Hypothesis strategy producing a JSON-serialisable case and a function run(case) that
    returns None/False (trivial), True or a list of tags (non-trivial), and
    raises Violation when the property is broken by the case.
Every random choice is made by Hypothesis, seeded from VERIF_SEED, the part and the shard.
"""
import collections
import hashlib
import importlib
import json
import mmap
import os
import pickle
import random
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback
import uuid
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("PCTSP_REPO", "/repo"))
SHARDS = 8
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


CRASH = {-int(s) for s in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)}


class Unavailable(BaseException):
    """A harness function that does not compile any more with the functions of the repository it calls."""


class Violation(AssertionError):
    """The property is broken by the case."""


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Part:
    def __init__(self, name, strategy, run, quick, thorough, case_cpu=60, budget=None, weight=None):
        self.name, self.strategy, self.run = name, strategy, run
        self.n = {"quick": quick, "thorough": thorough}
        self.case_cpu = case_cpu  # CPU seconds after which a single case counts as not terminating
        self.budget = budget or {}


def sut(fn, *args, allowed=(), **kw):
    """Call the code under test; an exception it may not raise on this input is a violation."""
    try:
        return fn(*args, **kw)
    except allowed:
        raise
    except Violation:
        raise
    except MemoryError:
        raise
    except Exception as e:  # noqa
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-4:]))
        raise Violation(f"{getattr(fn, '__name__', fn)} raised {type(e).__name__}: {e} at {where}") from e


def load_check(cid):
    sys.dont_write_bytecode = True
    for p in (str(VERIF / "lib"), str(VERIF)):
        if p not in sys.path:
            sys.path.insert(0, p)
    if HYP not in sys.path:
        sys.path.append(HYP)
    return importlib.import_module("checks." + cid.lower())


def tier():
    return "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"), default=str)


def reseed(case):
    """What the code under test draws at random (UUIDs, seeds) is a function of the case."""
    h = hashlib.blake2b(canon(case).encode(), digest_size=8).digest()
    random.seed(h)
    rng = random.Random(h)
    _uuid4.rng = rng


def _uuid4():
    return uuid.UUID(int=_uuid4.rng.getrandbits(128), version=4)


_uuid4.rng = random.Random(0)
uuid.uuid4 = _uuid4


# ---------------------------------------------------------------- one case in a forked child
def run_forked(part, case, cpu):
    """-> (kind, payload); kind: ok | fail | error | crash | hang"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (int(time.process_time()) + cpu, int(time.process_time()) + cpu + 5))
            try:
                reseed(case)
                out = ("ok", part.run(case))
            except Violation as e:
                out = ("fail", str(e))
            except Unavailable:
                out = ("ok", None)
            except BaseException:
                out = ("error", traceback.format_exc())
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if data:
        return pickle.loads(data)
    if os.WIFSIGNALED(status):
        s = os.WTERMSIG(status)
        if s in (signal.SIGXCPU, signal.SIGKILL):
            return "hang", f"no result after {cpu} s of CPU time"
        return "crash", f"killed by signal {s} ({signal.Signals(s).name})"
    return "crash", f"process ended without a result, exit status {os.WEXITSTATUS(status)}"


# ---------------------------------------------------------------- worker
class Slot:
    """Shared file with the case being run, so that the parent can see it after a crash."""
    SIZE = 1 << 20

    def __init__(self, path, create=False):
        if create:
            with open(path, "wb") as f:
                f.truncate(self.SIZE)
        self.f = open(path, "r+b")
        self.m = mmap.mmap(self.f.fileno(), self.SIZE)

    def put(self, part, text):
        b = json.dumps([part, text]).encode()
        if len(b) > self.SIZE - 64:
            b = b""
        self.m[0:16] = struct.pack("<dQ", time.monotonic(), len(b))
        self.m[16:16 + len(b)] = b

    def idle(self):
        self.m[0:8] = struct.pack("<d", 0.0)

    def get(self):
        t, n = struct.unpack("<dQ", self.m[0:16])
        if n == 0 or n > self.SIZE:
            return t, None, None
        part, text = json.loads(self.m[16:16 + n].decode())
        return t, part, text


def worker(cid, shard, out, slot_path, only=None, isolate=False, budget=None):
    import ctypes
    ctypes.CDLL(None).prctl(1, int(signal.SIGKILL), 0, 0, 0)  # ends with the parent
    mod = load_check(cid)
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    if hasattr(mod, "setup"):
        mod.setup()
    if getattr(mod, "FLAVOUR", "rel") != "asan":
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    slot = Slot(slot_path)
    t_tier = tier()
    res = {"parts": {}, "failure": None, "error": None}
    for part in mod.PARTS:
        if only and part.name != only:
            continue
        n = part.n[t_tier]
        per = max(1, -(-n // SHARDS))
        limit = budget or part.budget.get(t_tier) or (45 if t_tier == "quick" else 1200)
        st = {"evaluations": 0, "nontrivial": set(), "tags": collections.Counter(), "samples": [], "skipped": 0,
              "cpu": 0.0}
        last = {}
        t_end = time.monotonic() + limit
        digest = hashlib.sha256(f"{cid}/{part.name}/{seed()}/{shard}".encode()).digest()
        hseed = int.from_bytes(digest[:8], "big")

        def body(case):
            if time.monotonic() > t_end and not last:
                st["skipped"] += 1
                return
            text = canon(case)
            slot.put(part.name, text)
            st["evaluations"] += 1
            if isolate:
                kind, val = run_forked(part, case, part.case_cpu)
                if kind == "error":
                    raise RuntimeError(val)
                if kind != "ok":
                    last["case"], last["msg"] = case, val if kind == "fail" else f"{kind}: {val}"
                    raise Violation(last["msg"])
                tags = val
            else:
                try:
                    reseed(case)
                    tags = part.run(case)
                except Violation as e:
                    last["case"], last["msg"] = case, str(e)
                    raise
                except Unavailable as e:
                    st["unavailable"] = str(e)
                    slot.idle()
                    return
            slot.idle()
            if tags:
                h = hashlib.blake2b(text.encode(), digest_size=8).digest()
                if h not in st["nontrivial"]:
                    st["nontrivial"].add(h)
                    k = len(st["nontrivial"])
                    if len(text) < 1500 and (k & (k - 1)) == 0 and k <= 4096:
                        st["samples"].append(case)
                if tags is not True:
                    st["tags"].update(tags)

        test = settings(max_examples=per, database=None, deadline=None, derandomize=False,
                        phases=[Phase.generate, Phase.shrink], print_blob=False, report_multiple_bugs=False,
                        suppress_health_check=list(HealthCheck))(hypothesis.seed(hseed)(given(part.strategy)(body)))
        c0 = time.process_time()
        try:
            test()
        except BaseException as e:  # noqa
            slot.idle()
            if last:
                res["failure"] = {"part": part.name, "case": last["case"], "message": last["msg"]}
            elif isinstance(e, KeyboardInterrupt):
                raise
            else:
                res["error"] = "".join(traceback.format_exception(e))[-6000:]
        slot.idle()
        st["cpu"] = round(time.process_time() - c0, 2)
        st["nontrivial"] = [h.hex() for h in st["nontrivial"]]
        st["samples"] = st["samples"][-3:]
        st["tags"] = dict(st["tags"])
        res["parts"][part.name] = st
        if res["failure"] or res["error"]:
            break
    if hasattr(mod, "teardown"):
        mod.teardown()
    tmp = str(out) + ".tmp"
    with open(tmp, "w") as f:
        json.dump(res, f, default=str)
    os.replace(tmp, out)
    sys.stdout.flush()
    os._exit(0)


def replay_worker(cid, path):
    """Runs one saved case; prints the outcome; exit 0 held, 1 broken, 2 error."""
    d = json.loads(Path(path).read_text())
    mod = load_check(cid)
    if hasattr(mod, "setup"):
        mod.setup()
    part = next(p for p in mod.PARTS if p.name == d["part"])
    kind, val = run_forked(part, d["case"], part.case_cpu)
    print(f"replay: {kind}: {val}")
    os._exit({"ok": 0, "error": 2}.get(kind, 1))


# ---------------------------------------------------------------- parent
def _env(tmp):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", TMPDIR=str(tmp), HYPOTHESIS_STORAGE_DIRECTORY=str(tmp / "hyp"),
               HOME=str(tmp), MPLCONFIGDIR=str(tmp), VERIF_SCRATCH=str(tmp), COLUMNS="300", PYTHONWARNINGS="ignore")
    return env


def preload_env(mod, env):
    if getattr(mod, "FLAVOUR", "rel") == "asan":
        lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
        ub = subprocess.run(["gcc", "-print-file-name=libubsan.so"], capture_output=True, text=True).stdout.strip()
        env["LD_PRELOAD"] = f"{lib} {ub}"
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0:verify_asan_link_order=0"
        env["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:print_stacktrace=1"
        env["PYTHONMALLOC"] = "malloc"
    return env


def main(cid, replay=None):
    t0 = time.time()
    mod = load_check(cid)
    prop = mod.PROPERTY
    hx = getattr(mod, "HX", None)
    if hx is not None:
        import vbuild
        try:
            vbuild.build(hx, getattr(mod, "FLAVOUR", "rel"))
        except vbuild.BuildError as e:
            print(e)
            print(f"[{prop}] the C++ of the repository or the harness did not build")
            return 2
    t_build = time.time() - t0
    tmp = Path(tempfile.mkdtemp(prefix=f"vp-{prop}-"))
    env = preload_env(mod, _env(tmp))
    me = [sys.executable, str(VERIF / "run.py"), cid]
    try:
        if replay:
            r = subprocess.run(me + ["--replay-worker", str(replay)], env=env, cwd=tmp)
            if r.returncode == 1:
                print(f"VIOLATION property={prop} replay={replay}")
            return r.returncode
        return _campaign(mod, prop, me, env, tmp, t0, t_build)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _spawn(me, env, tmp, shard, extra=()):
    out = tmp / f"out{shard}{'-'.join(extra[1:2])}.json"
    slot = tmp / f"slot{shard}{'-'.join(extra[1:2])}"
    Slot(slot, create=True)
    log = open(tmp / f"log{shard}.txt", "ab")
    wd = tmp / f"wd{shard}"
    wd.mkdir(exist_ok=True)
    e = dict(env, TMPDIR=str(wd), VERIF_SCRATCH=str(wd))
    p = subprocess.Popen(me + ["--worker", str(shard), "--out", str(out), "--slot", str(slot), *extra], env=e,
                         cwd=wd, stdout=log, stderr=log, stdin=subprocess.DEVNULL, start_new_session=True)
    return {"p": p, "out": out, "slot": slot, "shard": shard, "t0": time.monotonic()}


def _kill(w):
    try:
        os.killpg(w["p"].pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    w["p"].wait()


def _log_tail(tmp, shard, n=3000):
    try:
        return (tmp / f"log{shard}.txt").read_bytes()[-n:].decode(errors="replace")
    except OSError:
        return ""


def _wait(workers, mod, tmp, wall):
    """Waits; returns list of (worker, kind, payload) for problems; stops early on the first."""
    stall = max(p.case_cpu for p in mod.PARTS) * 1.5 + 15
    problems, live, results = [], list(workers), {}
    t_end = time.monotonic() + wall
    while live:
        time.sleep(0.05)
        for w in list(live):
            rc = w["p"].poll()
            if rc is not None:
                live.remove(w)
                if w["out"].exists():
                    res = json.loads(w["out"].read_text())
                    results[w["shard"]] = res
                    if res["failure"] or res["error"]:
                        problems.append((w, "fail" if res["failure"] else "error", res))
                else:
                    problems.append((w, "crash", rc))
                continue
            t, part, text = Slot(w["slot"]).get() if False else _peek(w)
            if t and time.monotonic() - t > stall:
                _kill(w)
                live.remove(w)
                problems.append((w, "stall", None))
        if problems and any(k != "error" for _, k, _ in problems):
            for w in live:
                _kill(w)
            break
        if time.monotonic() > t_end:
            for w in live:
                _kill(w)
                problems.append((w, "timeout", None))
            break
    return problems, results


def _peek(w):
    if "s" not in w:
        w["s"] = Slot(w["slot"])
    try:
        return w["s"].get()
    except Exception:  # being written
        return 0.0, None, None


def _save_replay(prop, d):
    rd = VERIF / "build" / "replay"
    rd.mkdir(parents=True, exist_ok=True)
    h = hashlib.sha256(canon(d).encode()).hexdigest()[:10]
    path = rd / f"{prop}-{h}.json"
    path.write_text(json.dumps(d, indent=1, default=str))
    return path


def _replays(me, env, tmp, path, times=3):
    bad, texts = 0, []
    for i in range(times):
        wd = tmp / f"rp{i}"
        wd.mkdir(exist_ok=True)
        r = subprocess.run(me + ["--replay-worker", str(path)], env=dict(env, TMPDIR=str(wd), VERIF_SCRATCH=str(wd)),
                           cwd=wd, capture_output=True, text=True, errors="replace")
        bad += r.returncode not in (0, 2)
        texts.append(r.stdout.strip()[-1500:])
    return bad, texts


def _campaign(mod, prop, me, env, tmp, t0, t_build):
    wall = 840 - t_build if tier() == "quick" else 24 * 3600
    workers = [_spawn(me, env, tmp, s) for s in range(SHARDS)]
    problems, results = _wait(workers, mod, tmp, min(wall, 420) if tier() == "quick" else wall)
    violation = None
    unexplained = None
    for w, kind, payload in sorted(problems, key=lambda x: {"fail": 0, "crash": 1, "stall": 2}.get(x[1], 3)):
        if kind == "error":
            unexplained = unexplained or f"harness error in shard {w['shard']}:\n{payload['error']}"
            continue
        if kind == "timeout":
            unexplained = unexplained or f"shard {w['shard']} did not finish"
            continue
        if kind == "fail":
            f = payload["failure"]
            cand = {"property": prop, "part": f["part"], "case": f["case"], "message": f["message"], "seed": seed()}
        else:
            _, part, text = _peek(w)
            if text is None:
                unexplained = f"shard {w['shard']} ended ({kind}, {payload}) before a case\n{_log_tail(tmp, w['shard'])}"
                continue
            cand = {"property": prop, "part": part, "case": json.loads(text), "seed": seed(),
                    "message": f"the process running the case ended: {kind} {payload}\n" + _log_tail(tmp, w["shard"], 1500)}
        path = _save_replay(prop, cand)
        bad, texts = _replays(me, env, tmp, path)
        died = kind == "crash" and payload in CRASH  # what a crash depends on need not be the same in every process
        if bad == 3 or (died and bad):
            if kind != "fail":  # shrink, every case in its own process
                w2 = _spawn(me, env, tmp, w["shard"], ("--only", cand["part"], "--isolate"))
                pr, rs = _wait([w2], mod, tmp, 150)
                f = (rs.get(w["shard"]) or {}).get("failure")
                if f:
                    c2 = {**cand, "case": f["case"], "message": f["message"]}
                    p2 = _save_replay(prop, c2)
                    b2, t2 = _replays(me, env, tmp, p2)
                    if b2 == 3:
                        cand, path, texts = c2, p2, t2
            violation = (cand, path, texts)
            break
        # not reproduced alone: does the whole sequence of the shard reproduce it?
        again = 0
        for _ in range(2):
            w2 = _spawn(me, env, tmp, w["shard"], ("--only", cand["part"]))
            pr, rs = _wait([w2], mod, tmp, 200)
            again += any(k in ("fail", "crash", "stall") for _, k, _ in pr)
        if again == 2 or (died and again):
            cand["shard"] = w["shard"]
            cand["note"] = ("the case fails after the cases before it in the same process: replay with "
                            f"VERIF_SEED={seed()} run.py --worker {w['shard']} --only {cand['part']}")
            path = _save_replay(prop, cand)
            violation = (cand, path, texts)
            break
        unexplained = (f"a failure of shard {w['shard']} was not reproduced ({bad}/3 alone, {again}/2 as a sequence): "
                       f"{cand['message']} {canon(cand['case'])[:2000]}\n{texts}")
    _evidence(mod, prop, results, t0, 1 if violation else 0)
    ev = sum(sum(p["evaluations"] for p in r["parts"].values()) for r in results.values())
    for pn in [p.name for p in mod.PARTS]:
        ps = [r["parts"][pn] for r in results.values() if pn in r["parts"]]
        tg = collections.Counter()
        for p in ps:
            tg.update(p["tags"])
        print(f"[{prop}] {pn}: {sum(p['evaluations'] for p in ps)} cases, "
              f"{len(set(h for p in ps for h in p['nontrivial']))} distinct non-trivial, "
              f"{sum(p['skipped'] for p in ps)} not run for time, max cpu {max([p['cpu'] for p in ps] or [0])} s {dict(tg)}")
    if violation:
        cand, path, texts = violation
        print(f"[{prop}] part {cand['part']}: {cand['message']}")
        print(f"[{prop}] case: {canon(cand['case'])[:3000]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if unexplained:
        print(f"[{prop}] no answer: {unexplained}")
        return 2
    low, gone = [], {}
    for p in mod.PARTS:
        ps = [r["parts"][p.name] for r in results.values() if p.name in r["parts"]]
        un = sorted({q["unavailable"] for q in ps if "unavailable" in q})
        if un:
            gone[p.name] = un
        if not any(q["nontrivial"] for q in ps) and not un:
            low.append(p.name)
    if gone:
        print(f"[{prop}] functions that the harness could not call: {gone}")
        low += list(gone) if len(gone) == len(mod.PARTS) and not any(q["nontrivial"] for r in results.values() for q in r["parts"].values()) else []
    if low:
        print(f"[{prop}] no answer: parts without a non-trivial case: {low}")
        return 2
    print(f"[{prop}] held on {ev} cases, {time.time() - t0:.1f} s")
    return 0


def _evidence(mod, prop, results, t0, nviol):
    parts = {}
    samples, allnt = [], set()
    for p in mod.PARTS:
        ps = [r["parts"][p.name] for r in results.values() if p.name in r["parts"]]
        nt = {(p.name, h) for q in ps for h in q["nontrivial"]}
        allnt |= nt
        tg = collections.Counter()
        for q in ps:
            tg.update(q["tags"])
        parts[p.name] = {"cases": sum(q["evaluations"] for q in ps), "distinct_nontrivial_cases": len(nt),
                         "not_run_for_time": sum(q["skipped"] for q in ps), "classes": dict(tg)}
        un = sorted({q["unavailable"] for q in ps if "unavailable" in q})
        if un:
            parts[p.name]["functions_not_available"] = un
        sm = [s for q in ps for s in q["samples"]]
        samples += [{"part": p.name, "case": s} for s in sm[-2:]]
    d = {"property": prop, "tier": tier(), "seed": seed(), "level": "exploration",
         "coverage": {"evaluations": sum(q["cases"] for q in parts.values()), "distinct_nontrivial": len(allnt),
                      "rule": mod.RULE, "samples": samples or [None], "parts": parts},
         "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2), "violations": nviol}
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(d, indent=1, default=str))
