"""Histories of running, losing and re-running the vials of an experiment; batches; cluster scripts."""
import contextlib
import io
import json
import os
import subprocess
import tempfile
from pathlib import Path
from uuid import UUID

from hypothesis import strategies as st

import gen
import inst
import repo
from harness import Part, check, sut

PROPERTY = "C16"
HX = None
RULE = ("history: experiments of 1-7 vials over drawn instance files of both data sets, some of which fail, and up to 10 steps out of "
        "running a batch, all or the missing vials (by function and by command), deleting and truncating result files, with every query "
        "compared with a model after each step. Non-trivial: some result was lost or could not be made, and something was run afterwards. "
        "many: 3-400 vials whose results are written without running them, lost here and there, almost everywhere or in a stretch, then asked for "
        "what is missing, infeasible and in a batch; non-trivial: something is missing. batches: numbers of vials and batch sizes; non-trivial: more than one batch. script: a generated cluster script is executed for "
        "each of its tasks with a stand-in for srun; non-trivial: more than one task.")


def setup():
    global V, LAB, MAIN, T
    repo.stub()
    import importlib
    import logging
    import pctsp.vial as V
    import tspwplib as T
    LAB = importlib.import_module("pctsp.lab.lab")
    MAIN = importlib.import_module("pctsp.apps.main_app")
    logging.disable(logging.CRITICAL)


@st.composite
def london(draw):
    """A connected graph with a cycle through the root."""
    g = draw(gen.toured(3, 7, costs=("small",), prizes=("small", "zero")))
    return {k: g[k] for k in ("v", "e", "root")}


# ways for a vial to fail, after its instance has been read
BAD = ["cutoff", "relaxation", "root"]


@st.composite
def one(draw):
    return {"dataset": draw(st.sampled_from(["londonaq", "londonaq", "tspwplib"])), "quota": draw(st.sampled_from([0, 1, 3, 10, 10**6])),
            "bad": draw(st.sampled_from([None, None, None] + BAD))}


@st.composite
def setting(draw):
    few = draw(st.integers(0, 5)) > 0
    return {"op": draw(inst.oplib(3, 5)), "lo": draw(london()), "vials": draw(st.lists(one(), min_size=1, max_size=7) if few else st.lists(one(), min_size=11, max_size=22)),
            "name": draw(st.sampled_from(["dryrun", "baseline", "onerun"])), "dataset": draw(st.sampled_from(["londonaq", "tspwplib"]))}


@st.composite
def history_case(draw):
    c = draw(setting())
    ops = []
    for _ in range(draw(st.integers(1, 10))):
        k = draw(st.sampled_from(["batch", "batch", "all", "delete", "delete", "cut", "cut", "missing", "cli_missing", "cli_batch", "vial"]))
        if k in ("batch", "cli_batch", "missing"):
            ops.append([k, draw(st.integers(0, 7)), draw(st.one_of(st.integers(1, 8), st.integers(1, 20)))])
        elif k in ("delete", "vial"):
            ops.append([k, draw(st.integers(0, 6))])
        elif k == "cut":
            ops.append([k, draw(st.integers(0, 6)), draw(st.integers(0, 1000))])
        else:
            ops.append([k])
    return {**c, "ops": ops}


class World:
    def __init__(self, case, tmp):
        self.case, self.tmp = case, tmp
        self.op, self.lo, self.labs = tmp / "op", tmp / "lo", tmp / "lab"
        for p in (self.op, self.lo, self.labs):
            p.mkdir()
        inst.write_oplib(self.op, "gen1", "st70", case["op"])
        inst.write_londonaq(self.lo, "laqtinyA", case["lo"])
        self.vials = []
        for k, d in enumerate(case["vials"]):
            lon = d["dataset"] == "londonaq"
            root = case["lo"]["root"] if lon else case["op"]["root"]
            data = dict(dataset=d["dataset"], cost_function="EXPLICIT" if lon else "EUC_2D", graph_name="laqtinyA" if lon else "st70",
                        quota=d["quota"], root=10**5 if d["bad"] == "root" else root)
            if not lon:
                data.update(alpha=50, generation="gen1", triangle=0)
            rel = d["bad"] == "relaxation"
            self.vials.append(V.Vial(uuid=UUID(int=(k + 1) * 7919), data_config=data,
                                     model_params=dict(algorithm="disjoint_tours_relaxation" if rel else "suurballes_heuristic", is_exact=False,
                                                       is_heuristic=not rel, is_relaxation=rel),
                                     preprocessing=dict(disjoint_path_cutoff=False, remove_leaves=False, remove_disconnected_components=False,
                                                        remove_one_connected_components=False, shortest_path_cutoff=d["bad"] == "cutoff")))
        self.name = V.ExperimentName(case["name"])
        from datetime import datetime
        self.exp = V.Experiment(name=self.name, vials=self.vials, timestamp=datetime(2024, 2, 3))
        self.dir = self.labs / case["dataset"] / case["name"]
        self.lab = LAB.Lab(self.labs / case["dataset"], londonaq_root=self.lo, oplib_root=self.op)
        self.lab.write_experiment_to_file(self.exp)
        self.has = {}     # vial -> bytes of its readable result
        self.broken = set()  # vials whose result file is unreadable

    def bad(self, v):
        return self.case["vials"][v.uuid.int // 7919 - 1]["bad"] is not None

    def file(self, v):
        return self.dir / str(v.uuid) / f"{v.uuid}.json"

    def cli(self, *args, ok=True):
        from typer.testing import CliRunner
        args = [args[0], self.case["dataset"], self.case["name"], *map(str, args[1:]), "--lab-dir", str(self.labs)]
        if args[0] in ("batch", "nbatches", "slurm", "vial"):
            args += ["--londonaq-root", str(self.lo), "--oplib-root", str(self.op)]
        with contextlib.redirect_stderr(io.StringIO()):
            r = CliRunner().invoke(MAIN.app, args)
        check(not ok or r.exit_code == 0, "pctsp %s failed: %r", args[0], r.exception)
        return r

    def ran(self, vs, results, step):
        """vs have just been run in this order."""
        want = [v.uuid for v in vs if not self.bad(v)]
        if results is not None:
            check([r.vial_uuid for r in results] == want, "%s: results of %s instead of %s", step, [r.vial_uuid for r in results], want)
        for v in vs:
            if self.bad(v):
                continue
            check(self.file(v).is_file(), "%s: vial %s was run and has no result file", step, v.uuid)
            self.broken.discard(v.uuid)
            self.has[v.uuid] = self.file(v).read_bytes()
            d = json.loads(self.has[v.uuid])
            check(d["vial_uuid"] == str(v.uuid), "%s: the result of vial %s is stored as that of %s", step, d["vial_uuid"], v.uuid)

    def missing(self):
        return [v for v in self.vials if v.uuid not in self.has]

    def verify(self, step):
        for v in self.vials:
            f = self.file(v)
            if v.uuid in self.has:
                check(f.is_file() and f.read_bytes() == self.has[v.uuid], "%s: the result of vial %s, which was not run, changed", step, v.uuid)
            else:
                check(f.is_file() == (v.uuid in self.broken), "%s: vial %s has a result file", step, v.uuid)
        m = sut(self.lab.missing_vials, self.exp, self.vials)
        check([v.uuid for v in m] == [v.uuid for v in self.missing()], "%s: missing %s instead of %s", step, [str(v.uuid) for v in m], [str(v.uuid) for v in self.missing()])
        inf = sut(self.lab.infeasible_vials, self.exp, self.vials)
        want = [v.uuid for v in self.vials if v.uuid in self.has and json.loads(self.has[v.uuid])["prize"] < v.data_config.quota]
        check([v.uuid for v in inf] == want, "%s: infeasible %s instead of %s", step, [str(v.uuid) for v in inf], want)
        rs = sut(self.lab.read_results_from_file, self.exp)
        check([r.vial_uuid for r in rs] == [v.uuid for v in self.vials if v.uuid in self.has], "%s: read the results of %s", step, [str(r.vial_uuid) for r in rs])
        for r in rs:
            check(json.loads(r.model_dump_json()) == json.loads(self.has[r.vial_uuid]), "%s: the result of %s was read as %s", step, r.vial_uuid, r)
        return want


def quiet(fn, *a, **k):
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        return sut(fn, *a, **k)


def run_history(case):
    with tempfile.TemporaryDirectory(dir=os.environ["VERIF_SCRATCH"]) as tmp:
        w = World(case, Path(tmp))
        tags, lost = set(), any(d["bad"] for d in case["vials"])
        w.verify("before the first step")
        after = False
        for k, op in enumerate(case["ops"]):
            step = f"step {k} {op}"
            n = len(w.vials)
            if op[0] == "all":
                w.ran(w.vials, quiet(w.lab.run_experiment, w.exp), step)
                after |= lost
            elif op[0] == "batch":
                part = w.vials[op[1]:op[1] + op[2]]
                w.ran(part, quiet(w.lab.run_batch, w.exp, op[1], op[2]), step)
                after |= lost
            elif op[0] == "cli_batch":
                w.cli("batch", op[1], op[2])
                w.ran(w.vials[op[1]:op[1] + op[2]], None, step)
                after |= lost
            elif op[0] == "missing":
                part = w.missing()[op[1]:min(op[1] + op[2], n)]
                w.ran(part, quiet(w.lab.run_batch, w.exp, op[1], op[2], only_missing_results=True), step)
                after |= lost
            elif op[0] == "cli_missing":
                want = [str(v.uuid) for v in w.missing()]
                out = w.cli("missing").stdout
                check([x.split()[0] for x in out.splitlines() if x.strip()] == want, "%s: the command lists %s instead of %s", step, out, want)
                out = w.cli("nmissing").stdout.split()
                check(out[0] == str(len(want)) and str(n) in out[1:], "%s: %s missing of %d: %s", step, len(want), n, out)
                m = sut(w.lab.read_experiment_from_file, w.name, only_missing_results=True)
                check([str(v.uuid) for v in m.vials] == want and m.name == w.name, "%s: the experiment of missing vials has %s instead of %s", step, m.vials, want)
                before = w.missing()
                w.cli("batch", 0, max(1, len(want)), "--only-missing-results")
                w.ran(before, None, step)
                out = w.cli("infeasible").stdout.split()
                check(out == [str(u) for u in w.verify(step)], "%s: the command lists %s as infeasible", step, out)
                after |= lost
            elif op[0] == "vial":
                v = w.vials[op[1] % n]
                w.cli("vial", v.uuid, ok=not w.bad(v))
                w.ran([v], None, step)
            else:
                there = [v for v in w.vials if w.file(v).is_file()]
                if not there:
                    continue
                v = there[op[1] % len(there)]
                if op[0] == "delete":
                    w.file(v).unlink()
                    w.broken.discard(v.uuid)
                else:
                    b = w.file(v).read_bytes()
                    w.file(v).write_bytes(b[:len(b.rstrip()) * op[2] // 1001])
                    w.broken.add(v.uuid)
                w.has.pop(v.uuid, None)
                lost = True
            tags.add(op[0])
            if w.verify(step):
                tags.add("infeasible")
        e = sut(w.lab.read_experiment_from_file, w.name)
        check(e == w.exp, "the experiment changed")
        return sorted(tags) if lost and after else None


@st.composite
def many_case(draw):
    n = draw(st.sampled_from([3, 40, 64, 65, 99, 100, 101, 128, 180, 257, 400]))
    # lost results: a few of them, most of them, or those of a stretch of the list
    kind = draw(st.sampled_from(["few", "most", "stretch"]))
    lost = draw(st.sets(st.integers(0, n - 1), max_size=6))
    a, b = sorted(draw(st.tuples(st.integers(0, n), st.integers(0, n))))
    return {"n": n, "kind": kind, "lost": sorted(lost), "stretch": [a, b], "seed": draw(st.integers(0, 2**16)), "size": draw(st.integers(1, n)),
            "start": draw(st.integers(0, n)), "name": draw(st.sampled_from(["dryrun", "baseline", "onerun"])), "dataset": draw(st.sampled_from(["londonaq", "tspwplib"])),
            "cut": draw(st.booleans()), "op": None, "lo": None, "vials": []}


def run_many(case):
    """The lab's answers about an experiment of many vials, whose results were written without running them."""
    import random
    from datetime import datetime, timedelta
    from uuid import UUID
    n, rng = case["n"], random.Random(case["seed"])
    gone = set(case["lost"]) if case["kind"] == "few" else set(range(*case["stretch"])) if case["kind"] == "stretch" else set(range(n)) - set(case["lost"])
    with tempfile.TemporaryDirectory(dir=os.environ["VERIF_SCRATCH"]) as tmp:
        tmp = Path(tmp)
        w = World.__new__(World)
        w.case, w.tmp, w.labs, w.lo, w.op, w.has, w.broken = case, tmp, tmp / "lab", tmp, tmp, {}, set()
        w.labs.mkdir()
        w.vials = [V.Vial(uuid=UUID(int=rng.getrandbits(128)), data_config=dict(dataset="londonaq", cost_function="EXPLICIT", graph_name="laqtinyA", quota=rng.randint(0, 9), root=1),
                          model_params=dict(algorithm="suurballes_heuristic", is_exact=False, is_heuristic=True, is_relaxation=False),
                          preprocessing=dict(disjoint_path_cutoff=False, remove_leaves=False, remove_disconnected_components=False,
                                             remove_one_connected_components=False, shortest_path_cutoff=False)) for _ in range(n)]
        w.name = V.ExperimentName(case["name"])
        w.exp = V.Experiment(name=w.name, vials=w.vials, timestamp=datetime(2024, 2, 3))
        w.dir = w.labs / case["dataset"] / case["name"]
        w.lab = LAB.Lab(w.labs / case["dataset"])
        w.lab.write_experiment_to_file(w.exp)
        t = datetime(2024, 1, 1)
        for k, v in enumerate(w.vials):
            if k in gone and not (case["cut"] and k % 2):
                continue
            d = w.lab.get_vial_dir(w.name, v.uuid)
            d.mkdir(exist_ok=True, parents=True)
            r = V.Result(vial_uuid=v.uuid, objective=rng.randint(0, 99), prize=rng.randint(0, 9), edge_list=[(1, 2), (2, 1)], start_time=t, end_time=t + timedelta(seconds=k))
            r.write_to_json_file(d)
            check(w.file(v).is_file(), "the result of %s was not written", v.uuid)
            if k in gone:
                b = w.file(v).read_bytes()
                w.file(v).write_bytes(b[:rng.randint(0, len(b.rstrip()) - 1)])
                w.broken.add(v.uuid)
            else:
                w.has[v.uuid] = w.file(v).read_bytes()
        want = w.verify("many")
        lost = [str(v.uuid) for v in w.missing()]
        out = w.cli("missing").stdout
        check([x.split()[0] for x in out.splitlines() if x.strip()] == lost, "the command lists %s instead of %s", out, lost)
        out = w.cli("nmissing").stdout.split()
        check(out[0] == str(len(lost)) and str(n) in out[1:], "%s missing of %d: %s", len(lost), n, out)
        m = sut(w.lab.read_experiment_from_file, w.name, only_missing_results=True)
        check([str(v.uuid) for v in m.vials] == lost, "the experiment of missing vials has %s instead of %s", m.vials, lost)
        out = w.cli("infeasible").stdout.split()
        check(out == [str(u) for u in want], "the command lists %s as infeasible instead of %s", out, want)
        # what a batch would run
        lab = Probe(w.labs / case["dataset"])
        for only, vs in ((False, [str(v.uuid) for v in w.vials]), (True, lost)):
            for start in (case["start"], 0, max(0, len(vs) - 1)):
                lab.asked.clear()
                try:
                    sut(lab.run_batch, w.exp, start, case["size"], only_missing_results=only, allowed=(FileNotFoundError,))
                except FileNotFoundError:
                    continue
                if not lab.asked:  # the vials were run some other way: the part "history" decides
                    continue
                got = [str(v.uuid) for v in lab.asked[0]]
                check(got == vs[start:start + case["size"]], "batch %d+%d of %s vials (missing only: %s) runs %s", start, case["size"], len(vs), only, got)
        for miss in [False] + [True] * bool(lost):
            script = w.dir / f"{case['name']}.slurm"
            script.unlink(missing_ok=True)
            w.cli("slurm", case["size"], *(["--only-missing-results"] if miss else []))
            check(script.is_file(), "no script was written")
            text = script.read_text()
            arr = [x.split("=", 1)[1] for x in text.splitlines() if x.startswith("#SBATCH --array=")]
            todo = len(lost) if miss else n
            check(arr == [f"0-{-(-todo // case['size']) - 1}"], "array %s for %d vials in batches of %d", arr, todo, case["size"])
        out = w.cli("nbatches", case["size"]).stdout.split()
        check(out and out[-1] == str(-(-n // case["size"])), "%s batches of %d for %d vials", out, case["size"], n)
    return [case["kind"], "broken" if w.broken else "gone"] if lost else None


@st.composite
def batches_case(draw):
    n = draw(st.one_of(st.integers(0, 60), st.integers(0, 10**6)))
    return [n, draw(st.one_of(st.integers(1, 20), st.integers(1, 10**6), st.just(max(1, n))))]


class Probe:
    """A lab that records which vials it is asked to run."""

    def __new__(cls, tmp):
        class L(LAB.Lab):
            def run_experiment_from_vial_list(self, experiment, vial_list):
                self.asked.append(list(vial_list))
                return []
        lab = L(tmp)
        lab.asked = []
        return lab


def run_batches(case):
    n, size = case
    got = sut(LAB.get_nbatches, n, size)
    check(got == -(-n // size) and isinstance(got, int), "%s batches of %d for %d vials", got, size, n)
    if n <= 60:
        with tempfile.TemporaryDirectory(dir=os.environ["VERIF_SCRATCH"]) as tmp:
            lab = Probe(Path(tmp))

            class E:
                vials = list(range(n))
                name = V.ExperimentName.dryrun
            for b in range(got):
                try:
                    lab.run_batch(E, b * size, size)
                except Exception:  # these are no vials, only numbers: the parts "history" and "many" decide
                    return None
            flat = [v for a in lab.asked for v in a]
            check(not flat or sorted(flat) == list(range(n)), "the batches of %d run %s of %d vials", size, flat, n)
    return ["batches", "small" if n <= 60 else "large"] if got > 1 else None


@st.composite
def script_case(draw):
    return {**draw(setting()), "size": draw(st.sampled_from([1, 1, 2, 3, 4, 8])), "missing": draw(st.booleans()), "done": draw(st.integers(0, 6)),
            "time": draw(st.sampled_from([None, 60.0, 3600.0, 14400.0, 9999.5])),
            "ask": draw(st.sampled_from([[], [], ["--mem-per-cpu", "4000", "--partition", "long"], ["--mem-per-cpu", "640"]]))}


def slurm_seconds(t):
    """The formats of sbatch --time."""
    days, _, rest = t.rpartition("-")
    p = [int(x) for x in rest.split(":")]
    if days:
        p = (p + [0, 0])[:3]
    else:
        p = {1: [0, p[0], 0], 2: [0, *p], 3: p}[len(p)]
    return (int(days or 0) * 24 + p[0]) * 3600 + p[1] * 60 + p[2]


def run_script(case):
    with tempfile.TemporaryDirectory(dir=os.environ["VERIF_SCRATCH"]) as tmp:
        tmp = Path(tmp)
        w = World(case, tmp)
        todo = w.vials
        if case["missing"]:
            w.ran(w.vials[:case["done"]], quiet(w.lab.run_batch, w.exp, 0, case["done"]), "before")
            todo = w.missing()
            w.cli("missing")
            if not todo:
                return None
        out = w.cli("nbatches", case["size"]).stdout.split()
        check(out and out[-1] == str(-(-len(w.vials) // case["size"])), "%s batches of %d for %d vials", out, case["size"], len(w.vials))
        args = ["slurm", case["size"]] + (["--only-missing-results"] if case["missing"] else []) + (["--time-limit", case["time"]] if case["time"] else []) + case.get("ask", [])
        w.cli(*args)
        script = w.dir / f"{case['name']}.slurm"
        check(script.is_file(), "no script was written")
        text = script.read_text()
        again = w.cli(*args, ok=False)
        check(again.exit_code != 0 and script.read_text() == text, "an existing script is replaced")
        arr = [x.split("=", 1)[1] for x in text.splitlines() if x.startswith("#SBATCH --array=")]
        check(len(arr) == 1, "array %s", arr)
        opts = dict(x[len("#SBATCH --"):].split("=", 1) for x in text.splitlines() if x.startswith("#SBATCH --") and "=" in x)
        asked = iter(case.get("ask", []))
        for k, v in zip(asked, asked):
            check(opts.get(k[2:]) == v, "%s %s was asked for, the script has %s", k, v, opts)
        need = min(case["size"] * (case["time"] or 14400.0), 48 * 3600)
        check("time" not in opts or slurm_seconds(opts["time"]) >= need, "a batch may take %s seconds, the script allows %s", need, opts.get("time"))
        lo, hi = map(int, arr[0].split("-"))
        b = tmp / "bin"
        b.mkdir()
        (b / "srun").write_text('#!/bin/bash\nprintf "%s\\n" "$@" > "$OUT"\n')
        (b / "srun").chmod(0o755)
        seen = []
        for task in range(lo, hi + 1):
            o = tmp / f"out{task}"
            r = subprocess.run(["bash", str(script)], env={"PATH": f"{b}:/usr/bin:/bin", "SLURM_ARRAY_TASK_ID": str(task), "OUT": str(o)},
                               cwd=tmp, capture_output=True, timeout=60)
            check(r.returncode == 0 and o.exists(), "the script fails: %s", r.stderr[-200:])
            a = o.read_text().splitlines()
            check("pctsp" in a, "the script does not run pctsp: %s", a)
            a = a[a.index("pctsp") + 1:]
            check(a[:3] == ["batch", case["dataset"], case["name"]], "the script runs %s", a)
            for v in todo:
                w.file(v).unlink(missing_ok=True)
            from typer.testing import CliRunner
            with contextlib.redirect_stderr(io.StringIO()):
                r = CliRunner().invoke(MAIN.app, a)
            check(r.exit_code == 0, "the command of the script fails: %r", r.exception)
            seen += [v for v in todo if w.file(v).exists()]
        good = [v for v in todo if not w.bad(v)]
        check(sorted(str(v.uuid) for v in seen) == sorted(str(v.uuid) for v in good), "the tasks of the script run %s of %s",
              [str(v.uuid) for v in seen], [str(v.uuid) for v in good])
        need = -(-len(todo) // case["size"])
        check(lo == 0 and hi == need - 1, "%d tasks for %d batches", hi - lo + 1, need)
        return ["script", "missing" if case["missing"] else "all"] if hi > lo else None


PARTS = [
    Part("history", history_case(), run_history, 900, 12000, budget={"quick": 25}),
    Part("batches", batches_case(), run_batches, 600, 8000),
    Part("many", many_case(), run_many, 64, 1500, budget={"quick": 25}),
    Part("script", script_case(), run_script, 120, 2000, budget={"quick": 30}),
]
