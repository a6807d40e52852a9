"""Tables made from result files."""
import contextlib
import io
import json
import math
import os
import random
import re
import tempfile
from datetime import datetime, timedelta
from pathlib import Path
from uuid import UUID

from hypothesis import strategies as st

import repo
import vials
from checks.c15 import equal, plain
from harness import Part, check, sut

PROPERTY = "C18"
HX = None
RULE = ("summary: experiments of 1-6 drawn vials with drawn results and statistics for some of them, as data frames and through the csv "
        "commands. Non-trivial: at least one feasible and one infeasible or missing result. heuristics: labs with a cost cover and a "
        "heuristics experiment over 1-4 instances that differ in one setting, some results and statistics missing; non-trivial: two "
        "instances and a missing bound. tables: the tables of groups of results against means and counts over the same rows; non-trivial: "
        "at least two groups. pretty: drawn data frames; non-trivial: a renamed value next to a column that must stay. zip: drawn trees of "
        "files; non-trivial: at least two files.")


def setup():
    global V, LAB, CSV, TAB, UTIL, MAIN, ALG
    repo.stub()
    import importlib
    import logging
    import pctsp.vial as V
    LAB = importlib.import_module("pctsp.lab.lab")
    CSV = importlib.import_module("pctsp.apps.csv_app")
    TAB = importlib.import_module("pctsp.apps.tables_app")
    MAIN = importlib.import_module("pctsp.apps.main_app")
    ALG = importlib.import_module("pctsp.algorithms")
    logging.disable(logging.CRITICAL)


def tmpdir():
    return tempfile.TemporaryDirectory(dir=os.environ["VERIF_SCRATCH"])


def cli(*args, ok=True):
    from typer.testing import CliRunner
    with contextlib.redirect_stderr(io.StringIO()):
        r = CliRunner().invoke(MAIN.app, list(map(str, args)))
    check(not ok or r.exit_code == 0, "pctsp %s failed: %r", " ".join(map(str, args[:2])), r.exception)
    return r


STATS = ["status", "lower_bound", "upper_bound", "num_cost_cover_disjoint_paths", "num_cost_cover_shortest_paths", "nconss_presolve_disjoint_paths",
         "nconss_presolve_shortest_paths", "num_cycle_cover", "num_nodes", "num_sec_disjoint_tour", "num_sec_maxflow_mincut"]
small = st.integers(0, 1000)


@st.composite
def stats(draw):
    d = {k: draw(small) for k in STATS}
    d["status"] = draw(st.sampled_from([11, 11, 3, 12]))
    d["lower_bound"] = draw(st.one_of(st.integers(1, 500).map(float), st.floats(0.5, 500)))
    d["upper_bound"] = draw(st.one_of(st.just(1e20), st.just(d["lower_bound"]), st.floats(1, 1000)))
    d["num_nodes"] = draw(st.integers(1, 50))
    return d


@st.composite
def outcome(draw, quota):
    start = draw(st.integers(0, 10**15))
    return {"objective": draw(st.integers(0, 10**6)), "prize": draw(st.one_of(st.integers(0, 200), st.just(quota), st.just(max(0, quota - 1)))),
            "edge_list": [[1, 2], [2, 5], [5, 1]][:draw(st.integers(0, 3))], "start": start,
            "end": start + draw(st.one_of(st.integers(0, 10**7), st.integers(0, 10**12)))}


def make_result(uuid, d):
    t0 = datetime(2000, 1, 1)
    return V.Result(vial_uuid=uuid, objective=d["objective"], prize=d["prize"], edge_list=[tuple(e) for e in d["edge_list"]],
                    start_time=t0 + timedelta(microseconds=d["start"]), end_time=t0 + timedelta(microseconds=d["end"]))


@st.composite
def vial(draw):
    v = draw(vials.vial())
    f = lambda x: x % 1000 if isinstance(x, int) and not isinstance(x, bool) else x
    v["data_config"] = {k: f(x) for k, x in v["data_config"].items()}
    v["data_config"]["quota"] = draw(st.integers(0, 200))
    v["model_params"] = {k: f(x) if k != "branching_strategy" else x for k, x in v["model_params"].items()}
    for k in ("time_limit", "sec_lp_gap_improvement_threshold"):
        if v["model_params"][k] is not None:
            v["model_params"][k] = float(draw(st.integers(0, 10**5))) / 8
    return v


@st.composite
def summary_case(draw):
    vs = draw(st.lists(vial(), min_size=1, max_size=6, unique_by=lambda v: v["uuid"]))
    return [{"vial": v, "result": draw(st.one_of(st.none(), outcome(v["data_config"]["quota"]), outcome(v["data_config"]["quota"]))),
             "stats": draw(st.one_of(st.none(), stats()))} for v in vs], draw(st.integers(0, 5)), draw(st.booleans())


def write_stats(path, d):
    path.write_text("".join(f"{k}: {d[k]!r}\n" if d[k] != 1e20 else f"{k}: 100000000000000000000.0\n" for k in d))


def rows_of(case):
    """What each row of the summary has to contain, by vial."""
    want = {}
    for c in case:
        r = c["result"]
        if r is None:
            continue
        w = {"uuid": c["vial"]["uuid"], "vial_uuid": c["vial"]["uuid"]}
        for part in ("data_config", "model_params", "preprocessing"):
            w.update(c["vial"][part])
        ok = r["prize"] >= w["quota"]
        w.update(prize=r["prize"], feasible=ok, objective=r["objective"] if ok else None, overshoot=r["prize"] - w["quota"] if ok else None,
                 duration=(r["end"] - r["start"]) / 1e6)
        want[w["uuid"]] = w
    return want


def compare(df, want, cols, tag):
    got = [str(u) for u in df["uuid"]]
    check(sorted(got) == sorted(want), "%s: rows for %s instead of %s", tag, got, sorted(want))
    for i in range(len(df)):
        row, w = df.iloc[i], want[got[i]]
        for k in cols:
            check(k in df.columns, "%s: no column %s", tag, k)
            x = str(row[k]) if k in ("uuid", "vial_uuid") else plain(row[k])
            if k in ("graph_name", "algorithm", "dataset", "cost_function", "heuristic", "generation") and isinstance(w[k], str):
                x = str(x).split(".")[-1]
            y = w[k]
            if k in ("duration", "lower_bound", "upper_bound"):
                check(abs(float(x) - y) <= 1e-6 + 1e-9 * abs(y), "%s: %s of vial %s is %s instead of %s", tag, k, got[i], x, y)
            else:
                check(equal(x, y), "%s: %s of vial %s is %s instead of %s", tag, k, got[i], x, y)


def run_summary(case):
    import pandas as pd
    case, rot, bc = case
    with tmpdir() as tmp:
        tmp = Path(tmp)
        vs = [vials.make_vial(V, c["vial"]) for c in case]
        name = V.ExperimentName.cost_cover if bc else V.ExperimentName.compare_heuristics
        e = V.Experiment(name=name, vials=vs, timestamp=datetime(2024, 1, 1))
        rs = [make_result(v.uuid, c["result"]) for v, c in zip(vs, case) if c["result"]]
        want = rows_of(case)
        rs = rs[rot % len(rs):] + rs[:rot % len(rs)] if rs else rs
        df = sut(CSV.experiment_summary_df, e, rs)
        cols = ["uuid", "vial_uuid", "prize", "feasible", "objective", "overshoot", "duration"] + [k for p in ("data_config", "model_params", "preprocessing") for k in case[0]["vial"][p]]
        compare(df, want, cols, "summary")
        for i in range(len(df)):
            c = next(c for c in case if c["vial"]["uuid"] == str(df.iloc[i]["uuid"]))
            check([list(t) for t in df.iloc[i]["edge_list"]] == c["result"]["edge_list"], "edges %s", df.iloc[i]["edge_list"])
        lab = LAB.Lab(tmp / "londonaq")
        lab.write_experiment_to_file(e)
        for v, c in zip(vs, case):
            d = lab.get_vial_dir(name, v.uuid)
            if c["result"]:
                make_result(v.uuid, c["result"]).write_to_json_file(d)
            if c["stats"]:
                write_stats(d / "pctsp_summary_stats.yaml", c["stats"])
        sdf = sut(CSV.summary_stats_df, lab.get_experiment_dir(name), [v.uuid for v in vs])
        with_stats = {c["vial"]["uuid"]: c["stats"] for c in case if c["stats"]}
        check([str(u) for u in (sdf["vial_uuid"] if len(sdf) else [])] == list(with_stats), "statistics of %d vials, written for %s", len(sdf), list(with_stats))
        for i in range(len(sdf)):
            for k in STATS:
                check(float(sdf.iloc[i][k]) == with_stats[str(sdf.iloc[i]["vial_uuid"])][k], "%s is %s", k, sdf.iloc[i][k])
        f = tmp / "londonaq" / name.value / f"londonaq_{name.value}.csv"
        if bc:
            cli("csv", "branch-cut", "londonaq", name.value, "--lab-dir", tmp)
            want = {u: {**w, **with_stats[u]} for u, w in want.items() if u in with_stats}
            cols = cols + STATS
        else:
            cli("csv", "heuristics", "londonaq", name.value, "--lab-dir", tmp)
        check(f.is_file(), "no csv file")
        out = pd.read_csv(f, index_col=0)
        if want:
            compare(out, want, [c for c in cols], "csv")
        else:
            check(len(out) == 0, "%d rows", len(out))
        first = f.read_bytes()
        f.unlink()
        cli("csv", "all", "--lab-dir", tmp)
        check(f.is_file() and f.read_bytes() == first, "writing all csv files writes a different one")
        n = len(rows_of(case))
        kinds = {w["feasible"] for w in rows_of(case).values()}
        return ["branch-cut" if bc else "heuristics"] if True in kinds and (False in kinds or n < len(case)) else None


HEURS = [("bfs_extension_collapse", False, 2, 1), ("bfs_path_extension_collapse", True, None, 10), ("suurballes_heuristic", None, None, None),
         ("suurballes_extension_collapse", False, 2, 1), ("bfs_path_extension_collapse", True, 4, 10), ("bfs_path_extension_collapse", True, None, 3),
         ("suurballes_extension_collapse", True, 2, 1)]
SHORT = {"bfs_extension_collapse": "BFS-EC", "bfs_path_extension_collapse": "BFS-PEC", "suurballes_heuristic": "SBL", "suurballes_extension_collapse": "SBL-EC"}


@st.composite
def lab_case(draw):
    ds = draw(st.sampled_from(["londonaq", "tspwplib"]))
    n = draw(st.integers(1, 4))
    insts = []
    base = {"graph_name": "laqbbA" if ds == "londonaq" else "st70", "quota": 30, "root": 1, "alpha": 50, "generation": "gen1", "kappa": 10, "cost_function": "EUC_2D"}
    other = {"graph_name": "laqidA" if ds == "londonaq" else "a280", "quota": 60, "root": 2, "alpha": 75, "generation": "gen2", "kappa": 20, "cost_function": "MST"}
    for _ in range(n):
        keys = ["graph_name", "quota", "root"] + (["generation", "kappa", "cost_function"] if ds == "tspwplib" else [])
        ch = draw(st.lists(st.sampled_from(keys), max_size=2, unique=True))
        d = {**base, **{k: other[k] for k in ch}}
        if draw(st.integers(0, 4)) == 0:
            d.update({"graph_name": "laqtinyA"} if ds == "londonaq" else {"cost_function": "SEMI_MST"})
        if ds == "londonaq":
            d.update(generation=None, kappa=None, cost_function="EXPLICIT", alpha=draw(st.sampled_from([None, 50])))
        if d not in insts:
            insts.append(d)
    if ds == "londonaq" and len({(d["graph_name"], d["quota"], d["root"]) for d in insts}) < len(insts):
        insts = insts[:1]
    exact, heur = [], []
    for i, d in enumerate(insts):
        for cc in draw(st.permutations([(False, False), (True, False), (False, True)])):
            exact.append([i, list(cc), draw(st.one_of(st.just(None), outcome(30), outcome(30), outcome(30))),
                          draw(st.one_of(st.just(None), stats(), stats(), stats(), stats()))])
        for h in draw(st.lists(st.sampled_from(range(len(HEURS))), unique=True, min_size=1)):
            heur.append([i, h, draw(st.one_of(st.just(None), outcome(30), outcome(30)))])
    for x in heur:  # some heuristics reach the bound
        if x[2] and draw(st.booleans()):
            ms = [e[3]["lower_bound"] for e in exact if e[0] == x[0] and e[3] and e[1] == [True, False]]
            if ms and ms[0] == int(ms[0]):
                x[2]["objective"] = int(ms[0])
    exact += [list(e) for e in exact if e[1] == [True, False] and draw(st.integers(0, 3)) == 0]  # the same instance solved twice
    exact = draw(st.permutations(exact))
    heur = draw(st.permutations(heur))
    case = {"dataset": ds, "insts": insts, "exact": exact, "heur": heur}
    if ds == "londonaq" and draw(st.booleans()):
        case["hname"] = "londonaq_alpha"
    return case


PRE = dict(disjoint_path_cutoff=False, remove_leaves=False, remove_disconnected_components=False, remove_one_connected_components=True, shortest_path_cutoff=False)


def build_lab(case, tmp, heur=True):
    lab = LAB.Lab(tmp / case["dataset"])
    k = [0]

    def data(i):
        return dict(dataset=case["dataset"], triangle=None if case["dataset"] == "londonaq" else 0, **case["insts"][i])

    def uid():
        k[0] += 1
        return UUID(int=random.Random(k[0]).getrandbits(128))
    ev, hv = [], []
    for i, cc, r, s in case["exact"]:
        ev.append(V.Vial(uuid=uid(), data_config=data(i), preprocessing=PRE, model_params=dict(
            algorithm="solve_pctsp", is_exact=True, is_heuristic=False, is_relaxation=False, branching_strategy=case.get("strategy", {}).get(str(len(ev)), 2), branching_max_depth=1,
            cost_cover_disjoint_paths=cc[0], cost_cover_shortest_path=cc[1], heuristic="suurballes_path_extension_collapse", collapse_paths=True,
            step_size=10, sec_disjoint_tour=True, sec_maxflow_mincut=True, sec_lp_gap_improvement_threshold=0.001,
            sec_max_tailing_off_iterations=case.get("tail", {}).get(str(len(ev)), 5), sec_sepafreq=1, time_limit=14400)))
    for i, h, r in case.get("heur", []):
        a, c, d, s = HEURS[h]
        hv.append(V.Vial(uuid=uid(), data_config=data(i), preprocessing=PRE, model_params=dict(
            algorithm=a, is_exact=False, is_heuristic=True, is_relaxation=False, collapse_paths=c, path_depth_limit=d, step_size=s)))
    for name, vs, outs in ((case.get("name", "cost_cover"), ev, case["exact"]), (case.get("hname", "compare_heuristics"), hv, case.get("heur", []))):
        if not vs:
            continue
        n = V.ExperimentName(name)
        lab.write_experiment_to_file(V.Experiment(name=n, vials=vs, timestamp=datetime(2024, 1, 1)))
        for v, o in zip(vs, outs):
            d = lab.get_vial_dir(n, v.uuid)
            if o[2]:
                make_result(v.uuid, o[2]).write_to_json_file(d)
            if len(o) > 3 and o[3]:
                write_stats(d / "pctsp_summary_stats.yaml", o[3])
    return ev, hv


def run_heuristics(case):
    with tmpdir() as tmp:
        tmp = Path(tmp)
        ev, hv = build_lab(case, tmp)
        cli("csv", "branch-cut", case["dataset"], "cost_cover", "--lab-dir", tmp)
        hname = case.get("hname", "compare_heuristics")
        cli("csv", "heuristics", case["dataset"], hname, "--lab-dir", tmp)
        df = sut(TAB.get_heuristics_df, V.DatasetName(case["dataset"]), tmp, heuristic_experiment_name=V.ExperimentName(hname)).reset_index()
        bound = {o[0]: o[3] for o in case["exact"] if o[1] == [True, False] and o[2] and o[3]}
        want = {str(v.uuid): o for v, o in zip(hv, case["heur"]) if o[2]}
        got = [str(u) for u in df["uuid"]]
        check(sorted(got) == sorted(want), "rows for %s instead of %s", got, sorted(want))
        for i in range(len(df)):
            row, o = df.iloc[i], want[got[i]]
            b = bound.get(o[0])
            lb = b["lower_bound"] if b else None
            check(equal(row["lower_bound"], lb) or (lb and abs(row["lower_bound"] - lb) < 1e-9 * lb), "instance %s, %s: lower bound %s instead of %s",
                  case["insts"][o[0]], HEURS[o[1]][0], row["lower_bound"], lb)
            ok = o[2]["prize"] >= case["insts"][o[0]]["quota"]
            if lb is None or not ok:
                check(math.isnan(row["gap"]) and not row["is_optimal"], "gap %s without a bound or feasible tour", row["gap"])
            else:
                g = (o[2]["objective"] - lb) / lb
                check(abs(row["gap"] - g) <= 1e-9 * max(1, abs(g)), "gap %s instead of %s", row["gap"], g)
                check(bool(row["is_optimal"]) == (o[2]["objective"] == lb), "objective %s with bound %s is optimal: %s", o[2]["objective"], lb, row["is_optimal"])
        heuristics_table(case, tmp, hv, bound)
        return [case["dataset"]] if len(case["insts"]) > 1 and len(bound) < len(case["insts"]) else None


def heuristics_table(case, tmp, hv, bound):
    """The table of heuristics: one row per group of instances, four numbers per heuristic."""
    ds = case["dataset"]
    for only in (False, True):
        rows = [(case["insts"][i], HEURS[h][0], r, bound.get(i)) for i, h, r in case["heur"] if r and (HEURS[h][0] == "suurballes_extension_collapse") == only]
        rows = [x for x in rows if x[0]["graph_name"] != "laqtinyA" and x[0]["cost_function"] != "SEMI_MST"]  # left out of the table
        by = "alpha" if case.get("hname") == "londonaq_alpha" else "quota"
        if by == "alpha":  # instances without it are in no group
            rows = [x for x in rows if x[0]["alpha"] is not None]
        if not rows:
            continue
        with latex() as frames:
            cli("tables", "heuristics", ds, case.get("hname", "compare_heuristics"), tmp, "--lab-dir", tmp, *(["--sbl-ec-only"] if only else []))
        check(len(frames) == 1, "%d tables", len(frames))
        df = frames[0]
        columns_fit(df)
        groups = {}
        for d, a, r, b in rows:
            key = (d["cost_function"], d["kappa"]) if ds == "tspwplib" else (d[by],)
            groups.setdefault((key, a), []).append((d, r, b["lower_bound"] if b else None))
        fun = {"EUC_2D": ("EUC_2D", "EUC"), "MST": ("MST",)}
        check(len(df) == len({k for k, _ in groups}), "%d rows for %s", len(df), sorted({k for k, _ in groups}))
        used = 0
        for (key, a), xs in groups.items():
            at = [n for n, i in enumerate(df.index) if (str(plain(i[0])) in fun[key[0]] and i[1] == key[1] if ds == "tspwplib" else i == key[0])]
            check(len(at) == 1, "rows %s for %s in %s", at, key, list(df.index))
            ok = [r["prize"] >= d["quota"] for d, r, _ in xs]
            gaps = [(r["objective"] - b) / b if b and o else None for (d, r, b), o in zip(xs, ok)]
            want = {"OPT": sum(g == 0 for g in gaps), "FEAS": sum(ok), "GAP": mean(gaps), "TIME": mean([(r["end"] - r["start"]) / 1e6 for _, r, _ in xs])}
            for t, b in want.items():
                js = [n for n, c in enumerate(df.columns) if str(plain(c[0])) in (a, SHORT[a]) and t in c[1]]
                check(len(js) == 1, "columns %s", list(df.columns))
                x = number(df.iloc[at[0], js[0]])
                check(close(x, b), "%s of %s for %s is %s instead of %s", t, a, key, x, b)
                used += 1
        check(int(df.notna().sum().sum()) <= used, "numbers for heuristics without results")


DATA = ["num_nodes", "num_edges", "preprocessed_num_nodes", "preprocessed_num_edges", "preprocessed_prize_ratio", "metricness", "disjoint_prize_ratio"]


@st.composite
def dataset_case(draw):
    ds = draw(st.sampled_from(["londonaq", "tspwplib"]))
    keys = ([(n,) for n in ("laqbbA", "laqidA", "laqkxA")] if ds == "londonaq" else
            [(n, g, c, k) for n in ("st70", "a280") for g in ("gen1", "gen2") for c in ("EUC_2D", "MST") for k in (5, 10)])
    return {"dataset": ds, "rows": [[list(k), [draw(st.integers(0, 800)) / 8 for _ in DATA]] for k in draw(st.lists(st.sampled_from(keys), unique=True, min_size=1, max_size=8))]}


def run_dataset(case):
    import pandas as pd
    ds = case["dataset"]
    with tmpdir() as tmp:
        tmp = Path(tmp)
        names = ["graph_name"] if ds == "londonaq" else ["graph_name", "generation", "cost_function", "kappa"]
        pd.DataFrame([dict(zip(names + DATA, k + v)) for k, v in case["rows"]]).to_csv(tmp / ("londonaq_dataset.csv" if ds == "londonaq" else "tsplib_dataset.csv"), index=False)
        with latex() as frames:
            cli("tables", "dataset", ds, tmp, "--londonaq-root", tmp, "--oplib-root", tmp)
        check(len(frames) == 1, "%d tables", len(frames))
        df = frames[0]
        if ds == "londonaq":
            check(list(df.index) == [k[0] for k, _ in case["rows"]], "rows %s", list(df.index))
            for k, v in case["rows"]:
                for n, x in zip(DATA, v):
                    check(df.loc[k[0], n] == x, "%s of %s is %s instead of %s", n, k, df.loc[k[0], n], x)
        else:
            check(sorted(df.index) == sorted({k[3] for k, _ in case["rows"]}), "rows %s", list(df.index))
            for kappa in df.index:
                for c in ("EUC_2D", "MST"):
                    xs = [v for k, v in case["rows"] if k[2:] == [c, kappa]]
                    for n in ("disjoint_prize_ratio", "preprocessed_prize_ratio"):
                        want = mean([v[DATA.index(n)] for v in xs])
                        js = [x for x in df.columns if c in x and any(n in str(y) for y in x)]
                        check(len(js) == 1 or not any(k[2] == c for k, _ in case["rows"]), "columns %s", list(df.columns))
                        if js:
                            check(close(number(df.loc[kappa, js[0]]), want), "mean of %s, %s and kappa %s is %s instead of %s", n, c, kappa, df.loc[kappa, js[0]], want)
        return [ds] if len(case["rows"]) > 2 else None


@st.composite
def table_case(draw):
    ds = draw(st.sampled_from(["londonaq", "tspwplib"]))
    which = draw(st.sampled_from(["tailing_off", "cost_cover"] + ["cc_londonaq_alpha"] * (ds == "londonaq")))
    insts = []
    for _ in range(draw(st.integers(1, 3))):
        d = {"graph_name": draw(st.sampled_from(["laqbbA", "laqidA", "laqbbA", "laqtinyA"][:4 if which != "tailing_off" else 2] if ds == "londonaq" else ["st70", "a280"])), "quota": draw(st.sampled_from([20, 40])), "root": 1,
             "alpha": None if ds == "londonaq" and which != "cc_londonaq_alpha" else draw(st.sampled_from([25, 75])), "generation": None if ds == "londonaq" else draw(st.sampled_from(["gen1", "gen2"])),
             "kappa": None if ds == "londonaq" else 10, "cost_function": "EXPLICIT" if ds == "londonaq" else draw(st.sampled_from(["EUC_2D", "MST", "SEMI_MST"][:3 if which != "tailing_off" else 2]))}
        insts.append(d)
    exact, strategy, tail = [], {}, {}
    out = lambda: draw(outcome(30))
    for i in range(len(insts)):
        if which != "tailing_off":
            for cc in ([False, False], [True, False], [False, True]):
                q = draw(stats())
                if draw(st.integers(0, 3)) == 0:
                    q["lower_bound"] = 1e20
                    q["status"] = draw(st.sampled_from([12, 3]))
                exact.append([i, cc, out(), q])
        else:
            for s in (2, 4):
                for t in (-1, 5):
                    strategy[str(len(exact))], tail[str(len(exact))] = s, t
                    q = draw(stats())
                    q["upper_bound"] = min(q["upper_bound"], 1000.0)
                    exact.append([i, [True, False], out(), q])
    return {"dataset": ds, "name": which, "insts": insts, "exact": exact, "strategy": strategy, "tail": tail}


def mean(xs):
    xs = [x for x in xs if x is not None]
    return sum(xs) / len(xs) if xs else None


class Style:
    """Stands in for pandas' styler, which needs a package that is not installed: keeps the frame that is turned into LaTeX."""

    def __init__(self, df, out):
        self.df, self.out = df, out

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: self

    def to_latex(self, buf=None, **k):
        self.out.append(self.df.copy())
        self.out[-1].attrs["spec"] = k.get("column_format")
        if buf is not None:
            Path(buf).write_text("table")
            return None
        return "table"


def columns_fit(df):
    """LaTeX stops at a row with more cells than the tabular has columns."""
    if df.attrs["spec"]:
        spec = re.sub(r"\[[^]]*\]|\{[^}]*\}", "", df.attrs["spec"].replace("{,}", ""))
        check(len(spec) >= df.index.nlevels + len(df.columns), "%d column types for %d columns", len(spec), df.index.nlevels + len(df.columns))


@contextlib.contextmanager
def latex():
    import pandas as pd
    from unittest import mock
    out = []
    with mock.patch.object(pd.DataFrame, "style", property(lambda df: Style(df, out))), \
            mock.patch.object(pd.DataFrame, "to_latex", lambda df, buf=None, **k: Style(df, out).to_latex(buf, **k)):
        yield out


def number(x):
    return None if x is None or math.isnan(float(x)) else float(x)


def close(a, b):
    return (a is None and b is None) or (a is not None and b is not None and abs(a - b) <= 1e-6 + 1e-9 * abs(b))


def run_tables(case):
    with tmpdir() as tmp:
        tmp = Path(tmp)
        build_lab(case, tmp)
        name, ds = case["name"], case["dataset"]
        cli("csv", "branch-cut", ds, name, "--lab-dir", tmp)
        left = [d for d in case["insts"] if name == "tailing_off" or d["graph_name"] != "laqtinyA" and d["cost_function"] != "SEMI_MST"]
        if not left:  # every instance is one the table leaves out
            return None
        with latex() as frames:
            cli("tables", "tailing-off" if name == "tailing_off" else "cost-cover", ds, tmp / "tables", "--lab-dir", tmp,
                *([] if name == "tailing_off" else ["--experiment-name", name]))
        f = tmp / "tables" / f"{ds}_{name}.tex"
        check(f.is_file() and len(frames) == 1, "no table was written")
        df = frames[0]
        columns_fit(df)
        groups = {}
        for k, (i, cc, r, s) in enumerate(case["exact"]):
            d = case["insts"][i]
            if d not in left:
                continue
            if name == "tailing_off":
                key = (case["strategy"][str(k)], case["tail"][str(k)])
            else:
                key = ((d["cost_function"], d["alpha"] / 100) if ds == "tspwplib" else (d["alpha" if name == "cc_londonaq_alpha" else "quota"],), "Cost cover disjoint paths" if cc[0] else "Cost cover shortest paths" if cc[1] else "No cost cover")
            groups.setdefault(key, []).append((d, r, s))
        if name == "tailing_off":
            label = {2: "Strong at tree top", 4: "Default"}
            rows = {tuple(map(str, i)): i for i in df.index}
            for (s, t), xs in groups.items():
                at = [i for k, i in rows.items() if label[s] in k and str(t) in k]
                check(len(at) == 1, "rows %s for %s and %s iterations", at, label[s], t)
                gaps = [(q["upper_bound"] - q["lower_bound"]) / q["lower_bound"] for _, _, q in xs]
                want = {"TIME": mean([(r["end"] - r["start"]) / 1e6 for _, r, _ in xs]), "GAP": mean(gaps), "OPT": sum(g == 0 for g in gaps),
                        "FEAS": sum(r["prize"] >= d["quota"] for d, r, _ in xs), "NODES": mean([q["num_nodes"] for _, _, q in xs]),
                        "SEC)": mean([(q["num_sec_disjoint_tour"] + q["num_sec_maxflow_mincut"]) / q["num_nodes"] for _, _, q in xs])}
                for n, b in want.items():
                    js = [c for c in df.columns if n in c]
                    check(len(js) == 1, "columns %s", list(df.columns))
                    check(close(number(df.loc[at[0], js[0]]), b), "%s of %s, %s iterations is %s instead of %s", n, label[s], t, df.loc[at[0], js[0]], b)
            check(len(df) == len(groups), "%d rows for %d groups", len(df), len(groups))
        else:
            fun = {"EUC_2D": ("EUC_2D", "EUC"), "MST": ("MST",)}
            check(len(df) == len({g[0] for g in groups}), "%d rows for %d groups", len(df), len({g[0] for g in groups}))
            check(sorted(set(df.columns.get_level_values(0))) == ["Cost cover disjoint paths", "Cost cover shortest paths", "No cost cover"], "columns %s", list(df.columns))
            for (key, cc), xs in groups.items():
                at = [n for n, i in enumerate(df.index) if (str(plain(i[0])) in fun[key[0]] and abs(float(i[1]) - key[1]) < 1e-9 if ds == "tspwplib" else float(i) == key[0])]
                check(len(at) == 1, "rows %s for %s in %s", at, key, list(df.index))
                no = lambda x: None if x == 1e20 else x
                gaps = [None if q["status"] == 12 or no(q["upper_bound"]) is None or no(q["lower_bound"]) is None else
                        (q["upper_bound"] - q["lower_bound"]) / q["lower_bound"] for _, _, q in xs]
                want = {"GAP": mean(gaps)}
                if name == "cost_cover":
                    want.update({"TIME": mean([(r["end"] - r["start"]) / 1e6 for _, r, _ in xs]),
                                 "OPT": sum(g == 0 and q["status"] == 11 for g, (_, _, q) in zip(gaps, xs)),
                                 "CUTS": mean([q["nconss_presolve_disjoint_paths"] + q["nconss_presolve_shortest_paths"] for _, _, q in xs])})
                else:
                    want.update({"FEAS": sum(r["prize"] >= d["quota"] for d, r, _ in xs), "LB": mean([no(q["lower_bound"]) for _, _, q in xs]),
                                 "UB": mean([no(q["upper_bound"]) for _, _, q in xs])})
                for t, b in want.items():
                    js = [n for n, c in enumerate(df.columns) if c[0] == cc and t in c[1]]
                    check(len(js) == 1, "columns %s", list(df.columns))
                    x = number(df.iloc[at[0], js[0]])
                    check(close(x, b), "%s of %s with %s is %s instead of %s", t, key, cc, x, b)
        return [name, ds] if len(groups) > 3 else None


@st.composite
def pretty_case(draw):
    n = draw(st.integers(1, 4))
    cols = {"algorithm": draw(st.lists(st.sampled_from(vials.ALGS), min_size=n, max_size=n))}
    for k, xs in (("cost_function", ["EUC_2D", "MST", "GEO"]), ("branching_strategy", [0, 1, 2, 4]), ("kappa", [0, 1, 2, 3, 4, 10]),
                  ("num_nodes", [0, 1, 2, 4, 7]), ("duration", [0.0, 1.0, 2.5]), ("note", ["solve_pctsp", "MST", "x"])):
        if draw(st.booleans()):
            cols[k] = draw(st.lists(st.sampled_from(xs), min_size=n, max_size=n))
    if draw(st.booleans()):
        del cols["algorithm"]
    if not cols:
        cols = {"kappa": [1] * n}
    return {"cols": cols, "index": draw(st.lists(st.sampled_from(["algorithm", "cost_function", "branching_strategy", "kappa"]), unique=True, max_size=2)), "long": draw(st.booleans())}


def run_pretty(case):
    import pandas as pd
    idx = [k for k in case["index"] if k in case["cols"]]
    if len(idx) == len(case["cols"]):
        idx = idx[:-1]
    df = pd.DataFrame(case["cols"])
    if idx:
        df = df.set_index(idx)
    p = sut(TAB.pretty_dataframe, df.copy(), long=case["long"])
    name = dict(TAB.PRETTY_COLUMN_NAMES)
    flat = p.reset_index() if idx else p
    lookup = V.LongAlgorithmName if case["long"] else V.ShortAlgorithmName
    strat = {0: "Relative branching", 1: "Strong branching", 2: "Strong at tree top", 4: "Default"}
    tr = {"algorithm": lambda x: lookup[x].value, "cost_function": lambda x: {"EUC_2D": "EUC"}.get(x, x), "branching_strategy": lambda x: strat[x]}
    check(len(flat) == len(df) and set(map(str, flat.columns)) == {name.get(k, k) for k in case["cols"]}, "columns %s", list(flat.columns))
    for k, xs in case["cols"].items():
        got = [plain(x) for x in flat[name.get(k, k)]]
        want = [tr.get(k, lambda x: x)(x) for x in xs]
        check(all(equal(a, b) for a, b in zip(got, want)), "column %s is %s instead of %s", k, got, want)
    return ["pretty", f"index {len(idx)}"] if set(tr) & set(case["cols"]) and set(case["cols"]) - set(tr) else None


@st.composite
def zip_case(draw):
    names = draw(st.lists(st.sampled_from(["baseline", "dryrun", "onerun"]), unique=True, min_size=1))
    seg = st.sampled_from(["a", "b.json", "c d", ".h", "x.yaml"])
    files = draw(st.lists(st.tuples(st.sampled_from(names), st.lists(seg, min_size=1, max_size=3).map("/".join), st.binary(max_size=60).map(lambda b: b.hex())).map(list), max_size=6))
    return {"names": names, "files": files, "change": draw(st.booleans())}


def tree(p):
    return {str(f.relative_to(p)): f.read_bytes() for f in sorted(p.rglob("*")) if f.is_file()}


def run_zip(case):
    with tmpdir() as tmp:
        tmp = Path(tmp)
        root = tmp / "tspwplib"
        for n in case["names"]:
            (root / n).mkdir(parents=True)
            (root / n / "experiment.json").write_text(n)
        for n, rel, b in case["files"]:
            f = root / n / rel
            try:
                f.parent.mkdir(parents=True, exist_ok=True)
                if not f.is_dir():
                    f.write_bytes(bytes.fromhex(b))
            except (FileExistsError, NotADirectoryError):
                pass
        before = {n: tree(root / n) for n in case["names"]}
        cwd = os.getcwd()
        cli("utils", "zip", "tspwplib", *case["names"], "--lab-dir", tmp)
        check(os.getcwd() == cwd and {n: tree(root / n) for n in case["names"]} == before, "zipping changed the files")
        for n in case["names"]:
            check((root / f"{n}.zip").is_file(), "no archive of %s", n)
            if case["change"]:
                (root / n / "experiment.json").write_text("changed")
            else:
                import shutil
                shutil.rmtree(root / n)
        cli("utils", "unzip", "tspwplib", *case["names"], "--lab-dir", tmp)
        after = {n: tree(root / n) for n in case["names"]}
        check(after == before, "the files are %s instead of %s", {n: sorted(x) for n, x in after.items()}, {n: sorted(x) for n, x in before.items()})
        return ["zip"] if sum(map(len, before.values())) > 1 else None


PARTS = [
    Part("summary", summary_case(), run_summary, 320, 5000, budget={"quick": 25}),
    Part("heuristics", lab_case(), run_heuristics, 240, 4000, budget={"quick": 20}),
    Part("tables", table_case(), run_tables, 200, 3000, budget={"quick": 20}),
    Part("dataset", dataset_case(), run_dataset, 80, 1500, budget={"quick": 10}),
    Part("pretty", pretty_case(), run_pretty, 400, 6000, budget={"quick": 15}),
    Part("zip", zip_case(), run_zip, 100, 2000, budget={"quick": 10}),
]
