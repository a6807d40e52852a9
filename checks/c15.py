"""Experiments, vials and results written to file and read back; flattened vials."""
import enum
import math
import os
import tempfile
from pathlib import Path

from hypothesis import strategies as st

import repo
import vials
from harness import Part, check, sut

PROPERTY = "C15"
HX = None
RULE = ("store: histories of up to 12 writes of drawn experiments and results (every field drawn, absent settings included) to one lab, "
        "with everything read back at the end; non-trivial: at least one experiment with a vial and one result, or an overwritten file. "
        "flat: lists of 1-4 drawn vials; non-trivial: at least one absent and one present optional setting.")


def setup():
    global V, LAB
    repo.stub()
    import importlib
    import logging
    import pctsp.vial as V
    LAB = importlib.import_module("pctsp.lab.lab")
    logging.disable(logging.CRITICAL)


@st.composite
def store_case(draw):
    names = draw(st.lists(st.sampled_from(vials.EXPERIMENTS), unique=True, min_size=1, max_size=3))
    vs = draw(st.lists(vials.vial(), max_size=4, unique_by=lambda v: v["uuid"]))
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        k = draw(st.sampled_from(["exp", "exp", "res", "res", "res", "all", "nodir"]))
        n = draw(st.sampled_from(names))
        if k == "exp":
            ops.append([k, n, draw(st.lists(st.integers(0, 3), max_size=4, unique=True)), draw(vials.time()), draw(st.booleans())])
        elif k == "all":
            ops.append([k, n, [[draw(st.integers(0, 3)), draw(vials.result())] for _ in range(draw(st.integers(0, 2)))]])
        else:
            ops.append([k, n, draw(st.integers(0, 3)), draw(vials.result())])
    return {"vials": vs, "ops": ops}


def run_store(case):
    with tempfile.TemporaryDirectory(dir=os.environ["VERIF_SCRATCH"]) as tmp:
        return store(case, Path(tmp))


def store(case, tmp):
    root = tmp / "lab"
    lab = sut(LAB.Lab, root)
    check(root.is_dir(), "the directory of the lab was not made")
    vs = [vials.make_vial(V, d) for d in case["vials"]]
    exps, ress, whole = {}, {}, {}
    over = False
    for op in case["ops"]:
        name = V.ExperimentName(op[1])
        if op[0] == "exp":
            e = vials.make_experiment(V, name, [vs[i % len(vs)] for i in op[2]] if vs else [], op[3])
            over |= (op[1], op[4]) in exps
            sut(lab.write_experiment_to_file, e, only_missing_results=op[4])
            exps[op[1], op[4]] = e
            check(e == vials.make_experiment(V, name, [vs[i % len(vs)] for i in op[2]] if vs else [], op[3]), "writing changed the experiment")
        elif op[0] == "all":
            rs = [vials.make_result(V, vs[i % len(vs)].uuid, d) for i, d in op[2]] if vs else []
            sut(lab.write_results_to_file, name, rs)
            whole[op[1]] = rs
        elif vs:
            v = vs[op[2] % len(vs)]
            r = vials.make_result(V, v.uuid, op[3])
            if op[0] == "nodir":
                d = tmp / "missing" / str(v.uuid)
                for f in (lambda: r.write_to_json_file(d), lambda: V.Result.read_from_json_file(d, v.uuid)):
                    try:
                        sut(f, allowed=FileNotFoundError)
                        check(False, "a directory that does not exist was accepted")
                    except FileNotFoundError:
                        pass
                check(not (tmp / "missing").exists(), "a directory was made")
                continue
            d = sut(lab.get_vial_dir, name, v.uuid)
            check(Path(d).is_dir() and Path(d) == root / op[1] / str(v.uuid), "the directory of vial %s of %s is %s", v.uuid, op[1], d)
            over |= (op[1], v.uuid) in ress
            p = sut(r.write_to_json_file, d)
            check(Path(p).parent == d and Path(p).is_file() and Path(p).name == f"{v.uuid}.json", "written to %s", p)
            ress[op[1], v.uuid] = r
    # a new lab reads what the first one wrote
    lab = sut(LAB.Lab, root)
    for n in dict.fromkeys(op[1] for op in case["ops"]):
        name = V.ExperimentName(n)
        for missing in (False, True):
            try:
                e = sut(lab.read_experiment_from_file, name, only_missing_results=missing, allowed=FileNotFoundError)
            except FileNotFoundError:
                check((n, missing) not in exps, "the file of experiment %s is not found", n)
                continue
            check((n, missing) in exps, "an experiment %s was read that was not written", n)
            same(exps[n, missing], e)
        for v in vs:
            d = sut(lab.get_vial_dir, name, v.uuid)
            try:
                r = sut(V.Result.read_from_json_file, d, v.uuid, allowed=FileNotFoundError)
            except FileNotFoundError:
                check((n, v.uuid) not in ress, "the result of %s is not found", v.uuid)
                continue
            check((n, v.uuid) in ress, "a result was read that was not written")
            same(ress[n, v.uuid], r)
        for missing in (False, True):
            if (n, missing) in exps:
                e = exps[n, missing]
                rs = sut(lab.read_results_from_file, e)
                want = [ress[n, v.uuid] for v in e.vials if (n, v.uuid) in ress]
                check([r.vial_uuid for r in rs] == [r.vial_uuid for r in want], "results of %s instead of %s", [r.vial_uuid for r in rs], [r.vial_uuid for r in want])
                for a, b in zip(want, rs):
                    same(a, b)
        if n in whole:
            import json
            rows = json.loads((root / n / LAB.RESULT_FILENAME).read_text())
            check(len(rows) == len(whole[n]), "%d results for %d", len(rows), len(whole[n]))
            for a, d in zip(whole[n], rows):
                same(a, V.Result(**d))
    if over or (any(e.vials for e in exps.values()) and ress):
        return [t for t, c in (("overwritten", over), ("results", ress), ("experiments", exps), ("missing", any(m for _, m in exps))) if c]
    return None


def same(a, b):
    for f in type(a).model_fields:
        x, y = getattr(a, f), getattr(b, f)
        check(x == y and type(x) is type(y), "%s: wrote %s, read %s", f, x, y)
    check(a == b, "wrote %s, read %s", a, b)


@st.composite
def flat_case(draw):
    return draw(st.lists(vials.vial(), min_size=1, max_size=4))


def plain(x):
    return x.value if isinstance(x, enum.Enum) else x


def equal(a, b):
    """A value of a table against the value of a vial: blank stands for an absent setting."""
    a, b = plain(a), plain(b)
    if b is None:
        return a is None or (isinstance(a, float) and math.isnan(a))
    if isinstance(b, (int, float)) and not isinstance(b, bool) and not isinstance(a, str):
        return a is not None and not isinstance(a, bool) and (a == b or (isinstance(a, float) and float(b) == a))
    if isinstance(b, bool):
        return a is not None and not isinstance(a, str) and a == b
    return a == b


def run_flat(case):
    vs = [vials.make_vial(V, d) for d in case]
    want = []
    for d in case:
        w = {"uuid": d["uuid"]}
        for part in ("data_config", "model_params", "preprocessing"):
            w.update(d[part])
        want.append(w)
    for v, w in zip(vs, want):
        f = sut(V.flat_dict_from_vial, v)
        check(set(f) == set(w), "settings %s", sorted(set(f) ^ set(w)))
        for k in w:
            check(equal(str(f[k]) if k == "uuid" else f[k], w[k]) and not isinstance(f[k], dict), "%s is %s instead of %s", k, f[k], w[k])
    df = sut(V.dataframe_from_vial_list, vs)
    check(len(df) == len(vs) and set(df.columns) == set(want[0]), "%d rows for %d vials, columns %s", len(df), len(vs), list(df.columns))
    for i, w in enumerate(want):
        row = df.iloc[i]
        for k in w:
            check(equal(str(row[k]) if k == "uuid" else row[k], w[k]), "row %d: %s is %s instead of %s", i, k, row[k], w[k])
    opts = [x for d in case for part in ("data_config", "model_params") for x in d[part].values()]
    return ["flat", f"{len(vs)} vials"] if None in opts and any(x is not None for d in case for x in list(d["model_params"].values())[4:]) else None


PARTS = [
    Part("store", store_case(), run_store, 500, 10000, budget={"quick": 25}),
    Part("flat", flat_case(), run_flat, 300, 6000, budget={"quick": 20}),
]
