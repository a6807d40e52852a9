"""Products of parameters and the predefined experiments."""
import collections
import hashlib
import logging
import os
import random
from pathlib import Path

from hypothesis import strategies as st

import gen
import inst
import repo
from harness import Part, check, sut

PROPERTY = "C17"
HX = None
RULE = ("data: lists of 0-3 alphas, kappas, generations, graphs and cost functions over drawn instance files; non-trivial: at least two "
        "lists have two values. models: lists of algorithms with drawn settings; non-trivial: an exact algorithm or the extension and "
        "collapse heuristic is among them. vials: lists of 0-3 drawn settings; non-trivial: two lists have two values. experiments: every "
        "predefined experiment and data set over instance files with drawn contents; non-trivial: it is supported for that data set.")

GENS = ["gen1", "gen2", "gen3"]
EXPERIMENTS = ["baseline", "compare_heuristics", "cost_cover", "disjoint_tours_vs_heuristics", "dryrun", "simple_branch_cut",
               "tailing_off", "cc_londonaq_alpha", "londonaq_alpha"]


def setup():
    global P, V, T, MAIN, LAB, CMP, PARAMS
    repo.stub()
    import pctsp.vial as V
    import tspwplib as T
    import importlib
    P = importlib.import_module("pctsp.compare.product_of_params")
    PARAMS = importlib.import_module("pctsp.compare.params")
    LAB = importlib.import_module("pctsp.lab.lab")
    MAIN = importlib.import_module("pctsp.apps.main_app")


def scratch(*a):
    p = Path(os.environ["VERIF_SCRATCH"], *map(str, a))
    p.mkdir(parents=True, exist_ok=True)
    return p


def drawn_oplib(key):
    r = random.Random(hashlib.sha256(repr(key).encode()).digest())
    n = r.randint(3, 5)
    return {"xy": [[r.randint(0, 20), r.randint(0, 20)] for _ in range(n)], "prize": [r.randint(0, 97) for _ in range(n)],
            "root": r.randint(1, n), "type": "EUC_2D"}


def drawn_graph(key):
    r = random.Random(hashlib.sha256(repr(key).encode()).digest())
    vs = r.sample(range(1, 90), r.randint(3, 6))
    return {"v": [[v, r.randint(0, 997)] for v in vs], "root": vs[r.randrange(len(vs))],
            "e": [[vs[i], vs[(i + 1) % len(vs)], r.randint(1, 50)] for i in range(len(vs))]}


LONDON = ["laqbbA", "laqidA", "laqkxA", "laqtinyA", "laqwsA"]
_files = {}


def files(variant):
    """Every instance file of both data sets, with contents that depend on the variant."""
    if variant not in _files:
        op, lo = scratch("op", variant), scratch("lo", variant)
        ops = {}
        for g in GENS:
            for n in T.GraphName:
                d = drawn_oplib((variant, g, n.value))
                inst.write_oplib(op, g, n.value, d)
                ops[g, n.value] = d
        los = {}
        for n in T.LondonaqGraphName:
            los[n.value] = drawn_graph((variant, n.value))
            inst.write_londonaq(lo, n.value, los[n.value])
        _files[variant] = (op, lo, ops, los)
    return _files[variant]


NAMES = ["st70", "a280", "eil51", "pr1002"]


def some(xs, m=3):
    return st.lists(st.sampled_from(xs), unique=True, max_size=m)


@st.composite
def data_case(draw):
    return {"variant": draw(st.integers(0, 2)), "which": draw(st.sampled_from(["tspwplib", "tspwplib", "londonaq", "alpha"])),
            "alpha": draw(st.lists(st.integers(0, 100), unique=True, max_size=3)),
            "kappa": draw(st.lists(st.one_of(st.none(), st.integers(1, 30)), unique=True, max_size=3)),
            "gens": draw(some(GENS)), "names": draw(some(NAMES)), "london": draw(some(LONDON)),
            "quota": draw(st.lists(st.integers(0, 9999), unique=True, max_size=3)),
            "cost": draw(some(["EUC_2D", "MST", "SEMI_MST", "UNIFORM_RANDOM"]))}


def dc(d):
    """The fields of a data configuration, as plain values."""
    f = {k: getattr(getattr(d, k), "value", getattr(d, k)) for k in
         ("dataset", "cost_function", "graph_name", "quota", "root", "alpha", "generation", "kappa", "triangle")}
    return tuple(sorted(f.items(), key=lambda t: t[0]))


def expect(**kw):
    base = dict(dataset=None, cost_function=None, graph_name=None, quota=None, root=None, alpha=None, generation=None, kappa=None, triangle=None)
    base.update(kw)
    return tuple(sorted(base.items()))


def tsp_item(ops, a, k, g, n, c):
    d = ops[g, n]
    return expect(dataset="tspwplib", cost_function=c, graph_name=n, quota=a * sum(d["prize"]) // 100, root=d["root"], alpha=a,
                  generation=g, kappa=k, triangle=0)


def run_data(case):
    op, lo, ops, los = files(case["variant"])
    lists = []
    if case["which"] == "tspwplib":
        lists = [case["alpha"], case["kappa"], case["gens"], case["names"], case["cost"]]
        got = sut(P.product_of_tspwplib_data_config, op, case["alpha"], case["kappa"], [T.Generation(g) for g in case["gens"]],
                  [T.GraphName(n) for n in case["names"]], [T.EdgeWeightType(c) for c in case["cost"]])
        want = [tsp_item(ops, a, k, g, n, c) for a in case["alpha"] for k in case["kappa"] for g in case["gens"]
                for n in case["names"] for c in case["cost"]]
    else:
        names = [T.LondonaqGraphName(n) for n in case["london"]]
        if case["which"] == "londonaq":
            lists = [case["quota"], case["london"]]
            got = sut(P.product_of_londonaq_data_config, lo, case["quota"], names)
            want = [expect(dataset="londonaq", cost_function="EXPLICIT", graph_name=n, quota=q, root=los[n]["root"])
                    for q in case["quota"] for n in case["london"]]
        else:
            lists = [case["alpha"], case["london"]]
            got = sut(P.product_of_londonaq_data_config_from_alpha, lo, case["alpha"], names)
            want = [expect(dataset="londonaq", cost_function="EXPLICIT", graph_name=n, alpha=a, root=los[n]["root"],
                           quota=a * sum(p for _, p in los[n]["v"]) // 100) for a in case["alpha"] for n in case["london"]]
    same([dc(d) for d in got], want)
    return [case["which"]] if sum(len(x) > 1 for x in lists) >= 2 else None


def same(got, want):
    g, w = collections.Counter(got), collections.Counter(want)
    check(g == w, "%d items, expected %d; not expected: %s; missing: %s", len(got), len(want), list((g - w).items())[:2], list((w - g).items())[:2])


ALGS = ["disjoint_tours_relaxation", "extension", "bfs_extension_collapse", "bfs_path_extension_collapse", "solve_pctsp",
        "suurballes_extension_collapse", "suurballes_heuristic", "suurballes_path_extension_collapse"]


def kind(a):
    return "exact" if a == "solve_pctsp" else "relaxation" if a == "disjoint_tours_relaxation" else "heuristic"


def flags(m):
    a = m.algorithm.value
    check((m.is_exact, m.is_heuristic, m.is_relaxation) == tuple(kind(a) == k for k in ("exact", "heuristic", "relaxation")),
          "%s is marked exact %s, heuristic %s, relaxation %s", a, m.is_exact, m.is_heuristic, m.is_relaxation)


@st.composite
def model_case(draw):
    return {"algs": draw(some(ALGS, 8)), "collapse": draw(st.sampled_from([None, True, False])),
            "depth": draw(st.one_of(st.none(), st.integers(1, 50))), "step": draw(st.one_of(st.none(), st.integers(1, 50))),
            "time": draw(st.one_of(st.none(), st.integers(1, 99999), st.floats(0.5, 1e6)))}


def run_models(case):
    kw = {k: case[n] for k, n in (("collapse_paths", "collapse"), ("path_depth_limit", "depth"), ("step_size", "step"), ("time_limit", "time"))
          if case[n] is not None}
    got = sut(P.product_of_model_params, [V.AlgorithmName(a) for a in case["algs"]], **kw)
    check(sorted(m.algorithm.value for m in got) == sorted(case["algs"]), "algorithms %s for %s", [m.algorithm.value for m in got], case["algs"])
    for m in got:
        flags(m)
        a = m.algorithm.value
        exact = ("branching_max_depth", "branching_strategy", "cost_cover_disjoint_paths", "cost_cover_shortest_path", "sec_disjoint_tour",
                 "sec_lp_gap_improvement_threshold", "sec_maxflow_mincut", "sec_max_tailing_off_iterations", "sec_sepafreq", "time_limit")
        search = ("collapse_paths", "path_depth_limit", "step_size")
        for f in exact:
            check((getattr(m, f) is not None) == (a == "solve_pctsp"), "%s of %s is %s", f, a, getattr(m, f))
        for f in search:
            check((getattr(m, f) is not None) == (a == "bfs_extension_collapse"), "%s of %s is %s", f, a, getattr(m, f))
        if a == "solve_pctsp":
            check(m.time_limit == kw.get("time_limit", 4 * 3600), "time limit %s", m.time_limit)
            check(m.sec_disjoint_tour and m.sec_maxflow_mincut and m.sec_sepafreq == 1 and not m.cost_cover_disjoint_paths
                  and not m.cost_cover_shortest_path and m.heuristic is None and m.branching_max_depth == -1 and m.branching_strategy == 0
                  and m.sec_max_tailing_off_iterations == -1 and m.sec_lp_gap_improvement_threshold == 0.001, "defaults %s", m)
        if a == "bfs_extension_collapse":
            check((m.collapse_paths, m.path_depth_limit, m.step_size)
                  == (kw.get("collapse_paths", False), kw.get("path_depth_limit", 2), kw.get("step_size", 1)), "settings %s", m)
        check(m.heuristic is None, "a warm start %s", m.heuristic)
    pre = sut(P.product_of_preprocessing, [True, False], [False], [True, False])
    same([tuple(sorted(p.model_dump().items())) for p in pre],
         [tuple(sorted({"disjoint_path_cutoff": False, "remove_leaves": False, "remove_disconnected_components": a,
                        "remove_one_connected_components": b, "shortest_path_cutoff": False}.items())) for a in (True, False) for b in (True, False)])
    return sorted({kind(a) for a in case["algs"]}) if {"solve_pctsp", "bfs_extension_collapse"} & set(case["algs"]) else None


@st.composite
def vial_case(draw):
    bools = st.lists(st.booleans(), unique=True, max_size=2)
    return {"pre": [draw(bools), draw(bools), draw(bools)],
            "quota": draw(st.lists(st.integers(0, 99), unique=True, max_size=4)), "algs": draw(some(ALGS))}


def run_vials(case):
    ds = [V.DataConfig(dataset="londonaq", cost_function="EXPLICIT", graph_name="laqtinyA", quota=q, root=1) for q in case["quota"]]
    ms = [V.ModelParams(algorithm=a, is_exact=kind(a) == "exact", is_heuristic=kind(a) == "heuristic", is_relaxation=False) for a in case["algs"]]
    dis, lea, one = case["pre"]
    ps = sut(P.product_of_preprocessing, dis, lea, one)
    same([(p.remove_disconnected_components, p.remove_leaves, p.remove_one_connected_components, p.disjoint_path_cutoff, p.shortest_path_cutoff)
          for p in ps], [(a, b, c, False, False) for a in dis for b in lea for c in one])
    vs = sut(P.product_of_vials, ds, ms, ps)
    pick = lambda v: (v.data_config.quota, v.model_params.algorithm.value, v.preprocessing.model_dump_json())
    same([pick(v) for v in vs], [(d.quota, m.algorithm.value, p.model_dump_json()) for d in ds for m in ms for p in ps])
    check(len({v.uuid for v in vs}) == len(vs), "two vials have the same identifier")
    for v in vs:
        check(v.data_config in ds and v.model_params in ms and v.preprocessing in ps, "settings of no list: %s", v)
    return ["vials"] if sum(len(x) > 1 for x in (ds, ms, ps)) >= 2 else None


@st.composite
def experiment_case(draw):
    return {"variant": draw(st.integers(0, 2)), "experiment": draw(st.sampled_from(EXPERIMENTS)), "dataset": draw(st.sampled_from(["tspwplib", "londonaq"]))}


TSP_ONLY = {"disjoint_tours_vs_heuristics", "simple_branch_cut"}
LONDON_ONLY = {"cc_londonaq_alpha", "londonaq_alpha"}


def product_of(items):
    """The items are every combination of the values that occur in them, each once."""
    n = 1
    for col in zip(*items):
        n *= len(set(col))
    check(len(set(items)) == len(items), "a combination occurs twice")
    check(len(items) == n, "%d of the %d combinations", len(items), n)


def only_vary(ms, fields):
    for m in ms:
        a, b = ms[0].model_dump(exclude=fields), m.model_dump(exclude=fields)
        check(a == b, "settings that are compared differ in more than %s: %s and %s", sorted(fields), a, b)


def run_experiment(case):
    op, lo, ops, los = files(case["variant"])
    e, name = V.ExperimentName(case["experiment"]), V.DatasetName(case["dataset"])
    x = case["experiment"]
    if x in (TSP_ONLY if case["dataset"] == "londonaq" else LONDON_ONLY):
        try:
            MAIN.select_root_and_lookup(name, e, op, lo)
        except ValueError:
            return None
        check(False, "%s is accepted for %s", x, name)
    root, lookup = sut(MAIN.select_root_and_lookup, name, e, op, lo)
    check(Path(root) == (lo if case["dataset"] == "londonaq" else op), "instances are read from %s", root)
    vs = sut(lookup[e], name, root)
    check(vs and len({v.uuid for v in vs}) == len(vs), "two of the %d vials have the same identifier", len(vs))
    labs = scratch("labs", case["variant"])
    logging.disable(logging.CRITICAL)
    sut(MAIN.setup, name, e, lab_dir=labs, logging_level=50, londonaq_root=lo, oplib_root=op)
    stored = sut(LAB.Lab(labs / case["dataset"]).read_experiment_from_file, e)
    what = lambda v: v.model_dump_json(exclude={"uuid"})
    check(stored.name == e and [what(v) for v in stored.vials] == [what(v) for v in vs], "the experiment that was set up has %d vials, not the %d of %s, or others",
          len(stored.vials), len(vs), x)
    check(len({v.uuid for v in stored.vials}) == len(vs), "two vials that were set up have the same identifier")
    for v in vs:
        d = v.data_config
        check(d.dataset.value == case["dataset"], "data set %s", d.dataset)
        flags(v.model_params)
        if case["dataset"] == "tspwplib":
            check(dc(d) == tsp_item(ops, d.alpha, d.kappa, d.generation.value, d.graph_name.value, d.cost_function.value), "wrong quota, root or default: %s", d)
        else:
            g = los[d.graph_name.value]
            q = d.quota if d.alpha is None else d.alpha * sum(p for _, p in g["v"]) // 100
            check(dc(d) == expect(dataset="londonaq", cost_function="EXPLICIT", graph_name=d.graph_name.value, quota=q, root=g["root"], alpha=d.alpha),
                  "wrong quota, root or default: %s", d)
    data = list(dict.fromkeys((d.alpha, d.kappa, d.generation, d.graph_name, d.cost_function, d.quota if d.alpha is None else 0) for d in (v.data_config for v in vs)))
    product_of(data)
    models = {v.model_params.model_dump_json(): v.model_params for v in vs}
    pres = {v.preprocessing.model_dump_json() for v in vs}
    product_of([(x_, v.model_params.model_dump_json(), v.preprocessing.model_dump_json()) for v in vs
                for d in [v.data_config] for x_ in [(d.alpha, d.kappa, d.generation, d.graph_name, d.cost_function, d.quota)]])
    check(len(pres) == 1, "preprocessing differs")
    ms = list(models.values())
    cols = [set(c) for c in zip(*data)]
    val = lambda s: {getattr(y, "value", y) for y in s}
    full = {"baseline", "compare_heuristics", "cost_cover"}
    if case["dataset"] == "tspwplib" and x in full | {"tailing_off"}:
        if x in full:
            check(cols[0] == set(PARAMS.TSPLIB_ALPHA_LIST) and cols[1] == set(PARAMS.TSPLIB_KAPPA_LIST), "alphas %s, kappas %s", cols[0], cols[1])
        check(val(cols[2]) == set(GENS) and cols[3] == set(PARAMS.TSPLIB_GRAPH_NAME_LIST) and cols[4] == set(PARAMS.TSPLIB_COST_FUNCTIONS),
              "generations %s, graphs %s, cost functions %s", cols[2], cols[3], cols[4])
    if case["dataset"] == "londonaq" and x != "dryrun":
        check(cols[3] == set(PARAMS.LONDONAQ_GRAPH_NAME_LIST), "graphs %s", cols[3])
        if x in LONDON_ONLY:
            check(cols[0] == set(PARAMS.TSPLIB_ALPHA_LIST), "alphas %s", cols[0])
        else:
            check(cols[5] == set(PARAMS.LONDONAQ_QUOTA_LIST), "quotas %s", cols[5])
    cc = sorted((m.cost_cover_disjoint_paths, m.cost_cover_shortest_path) for m in ms if m.is_exact)
    if x in ("cost_cover", "cc_londonaq_alpha"):
        check(cc == [(False, False), (False, True), (True, False)] and len(ms) == 3, "cost cover settings %s", cc)
        only_vary(ms, {"cost_cover_disjoint_paths", "cost_cover_shortest_path"})
    elif x == "tailing_off":
        only_vary(ms, {"branching_strategy", "sec_max_tailing_off_iterations"})
        product_of([(m.branching_strategy, m.sec_max_tailing_off_iterations) for m in ms])
        check(len({m.branching_strategy for m in ms}) > 1 and len({m.sec_max_tailing_off_iterations for m in ms}) > 1, "nothing is compared")
    elif x == "baseline":
        check(cc == [(False, False)] and len(ms) == 1, "cost cover settings %s", cc)
    elif x in ("compare_heuristics", "londonaq_alpha"):
        check(all(m.is_heuristic for m in ms) and len({m.algorithm for m in ms}) == len(ms) == 5, "heuristics %s", [m.algorithm for m in ms])
    elif x == "disjoint_tours_vs_heuristics":
        check(sorted(kind(m.algorithm.value) for m in ms) == ["heuristic", "heuristic", "relaxation"], "algorithms %s", [m.algorithm for m in ms])
    else:
        check(sorted(kind(m.algorithm.value) for m in ms) == ["exact", "heuristic", "heuristic"], "algorithms %s", [m.algorithm for m in ms])
    for m in ms:
        if m.is_exact:
            check(None not in (m.branching_strategy, m.branching_max_depth, m.time_limit, m.sec_sepafreq, m.sec_disjoint_tour, m.sec_maxflow_mincut,
                               m.sec_max_tailing_off_iterations, m.sec_lp_gap_improvement_threshold), "an unset setting of the solver: %s", m)
        algs = {m.algorithm, m.heuristic}
        if algs & {V.AlgorithmName.bfs_extension_collapse, V.AlgorithmName.bfs_path_extension_collapse,
                   V.AlgorithmName.suurballes_extension_collapse, V.AlgorithmName.suurballes_path_extension_collapse}:
            check(m.collapse_paths is not None and m.step_size is not None, "unset settings of the heuristic: %s", m)
            check(m.collapse_paths == bool({"bfs_path_extension_collapse", "suurballes_path_extension_collapse"} & {a.value for a in algs if a}),
                  "paths are collapsed by %s: %s", algs, m.collapse_paths)
    return [x, case["dataset"]]


PARTS = [
    Part("data", data_case(), run_data, 400, 6000, budget={"quick": 25}),
    Part("models", model_case(), run_models, 600, 6000),
    Part("vials", vial_case(), run_vials, 600, 6000),
    Part("experiments", experiment_case(), run_experiment, 160, 800, budget={"quick": 40}),
]
