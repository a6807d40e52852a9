"""Running vials: preprocessing, algorithm and result; vials loaded from instance files; the commands that run one vial."""
import contextlib
import importlib
import inspect
import io
import json
import logging
import math
import os
import shutil
import sys
import tempfile
from datetime import datetime, timedelta
from pathlib import Path
from uuid import UUID

import networkx as nx
from hypothesis import strategies as st

import gen
import inst
import oracle
import repo
from harness import Part, check, sut

PROPERTY = "C19"
HX = ()
FLAVOUR = "rel"
RULE = ("run: a drawn graph and vial (every algorithm, warm start heuristic and preprocessing); the preprocessed graph against its definition, the "
        "settings that reach the compiled solver, the result against the graph, the optimum and the heuristic called directly. lab: vials of both data "
        "sets with drawn instance files, cost functions and sparsity, against costs computed here. cli: the commands that run one vial, their vial and "
        "its result. Non-trivial: the result has a tour and (run) preprocessing removed something or some setting is not the default, (lab) the costs "
        "are not those of the file or edges were removed, (cli) an option was given.")
HEUR = ["bfs_extension_collapse", "bfs_path_extension_collapse", "suurballes_extension_collapse", "suurballes_heuristic",
        "suurballes_path_extension_collapse"]
ARGS = ("model edge_list heuristic_edges cost_dict prize_dict quota root_vertex branching_max_depth branching_strategy cost_cover_disjoint_paths "
        "cost_cover_shortest_path cycle_cover disjoint_paths_cost logging_level name sec_disjoint_tour sec_lp_gap_improvement_threshold "
        "sec_maxflow_mincut sec_max_tailing_off_iterations sec_sepafreq simple_rules_only solver_dir time_limit").split()
calls, extends = [], []


def setup():
    global A, V, LAB, MAIN, R, P, S, T
    m = repo.native(FLAVOUR)
    import pctsp.vial as V
    import pctsp.preprocessing as P
    import pctsp.suurballe as S
    import pctsp.algorithms as A
    import tspwplib as T
    LAB = importlib.import_module("pctsp.lab.lab")
    R = importlib.import_module("pctsp.lab.run_algorithm")
    MAIN = importlib.import_module("pctsp.apps.main_app")
    real = m.solve_pctsp_bind

    def recorded(*a, **k):
        calls.append({**dict(zip(ARGS, a)), **k, "from": datetime.utcnow()})
        try:
            return real(*a, **k)
        finally:
            calls[-1]["to"] = datetime.utcnow()
    for mod in [x for n, x in list(sys.modules.items()) if n.startswith("pctsp")]:
        for k, v in list(vars(mod).items()):
            if v is real:
                setattr(mod, k, recorded)
    pec = A.path_extension_collapse
    sig = inspect.signature(pec)

    def extended(*a, **k):
        got = sig.bind(*a, **k)
        got.apply_defaults()
        extends.append({x: got.arguments.get(x) for x in ("collapse_shortest_paths", "path_depth_limit", "step_size", "quota", "root_vertex")})
        return pec(*a, **k)
    for mod in [x for n, x in list(sys.modules.items()) if n.startswith("pctsp")]:
        for k, v in list(vars(mod).items()):
            if v is pec:
                setattr(mod, k, extended)
    logging.disable(logging.CRITICAL)


def quiet():
    log = logging.getLogger("c19")
    log.setLevel(50)
    return log


# ---------------------------------------------------------------- vials
def b(draw):
    return draw(st.booleans())


@st.composite
def params(draw, exact=None):
    alg = "solve_pctsp" if (b(draw) if exact is None else exact) else draw(st.sampled_from(HEUR))
    p = dict(algorithm=alg, is_exact=alg == "solve_pctsp", is_heuristic=alg != "solve_pctsp", is_relaxation=False)
    if b(draw):
        p.update(collapse_paths=draw(st.sampled_from([None, True, False])), path_depth_limit=draw(st.sampled_from([None, 1, 2, 3, 5])),
                 step_size=draw(st.sampled_from([None, 1, 2, 3])))
    if p["is_exact"]:
        k = draw(st.integers(0, 2))
        p.update(branching_strategy=draw(st.sampled_from([0, 1, 2, 4])), branching_max_depth=draw(st.sampled_from([-1, 1, 2, 5])),
                 cost_cover_disjoint_paths=b(draw), cost_cover_shortest_path=b(draw), heuristic=draw(st.sampled_from([None] + HEUR)),
                 sec_disjoint_tour=k in (0, 1), sec_maxflow_mincut=k in (0, 2), sec_lp_gap_improvement_threshold=draw(st.sampled_from([0.001, 0.01, 0.25])),
                 sec_max_tailing_off_iterations=draw(st.sampled_from([-1, 1, 5])), sec_sepafreq=draw(st.sampled_from([1, 1, 2, 3])),
                 time_limit=draw(st.sampled_from([14400.0, 3600.0, 86400.0])))
    return p


@st.composite
def prep(draw):
    return dict(disjoint_path_cutoff=False, shortest_path_cutoff=False, remove_leaves=b(draw), remove_disconnected_components=b(draw),
                remove_one_connected_components=b(draw))


# ---------------------------------------------------------------- one vial on a graph
@st.composite
def run_case(draw):
    kind = draw(st.integers(0, 3))
    g = draw(gen.toured(3, 8) if kind else gen.graphs(3, 8, loops=True))
    g["e"] = [[u, v, 0 if u == v else c] for u, v, c in g["e"]]
    if kind == 2:  # something to remove: a path and a separate edge
        top = max(v for v, _ in g["v"])
        extra = [top + 1 + i for i in range(draw(st.integers(1, 4)))]
        at = draw(st.sampled_from([g["root"], g["v"][0][0], extra[0]]))
        for x in extra:
            g["v"].append([x, draw(st.integers(0, 5))])
            if x != at:
                g["e"].append([at, x, draw(st.integers(0, 9))])
                if len(extra) > 2 and x == extra[-1] and extra[0] != at:
                    g["e"].append([extra[0], x, 1])
            at = x
    return {"g": g, "params": draw(params()), "prep": draw(prep()), "id": draw(st.uuids()).int}


def preprocessed(G, root, p):
    """What the settings leave of the graph."""
    keep = set(G)
    if p["remove_disconnected_components"]:
        keep = nx.node_connected_component(G, root)
    if p["remove_leaves"]:
        H = G.subgraph(keep)
        while True:
            out = {v for v in H if len(set(H[v]) - {v}) < 2}
            if not out:
                break
            keep = keep - out
            H = G.subgraph(keep)
    if p["remove_one_connected_components"] and root in keep:
        H = nx.Graph(G.subgraph(keep))
        H.remove_edges_from([(v, v) for v in list(H) if H.has_edge(v, v)])
        keep = {root}.union(*[c for c in nx.biconnected_components(H) if root in c and len(c) > 2])
    return nx.Graph(G.subgraph(keep))


def same_graph(H, want):
    check(set(H) == set(want), "preprocessing leaves the vertices %s instead of %s", sorted(H), sorted(want))
    check({frozenset(e) for e in H.edges()} == {frozenset(e) for e in want.edges()}, "preprocessing leaves the edges %s instead of %s",
          sorted(H.edges()), sorted(want.edges()))
    for v in want:
        check(H.nodes[v]["prize"] == want.nodes[v]["prize"], "prize of %s changed", v)
    for u, v in want.edges():
        check(H.edges[u, v]["cost"] == want.edges[u, v]["cost"], "cost of %s changed", (u, v))


def maps(G, root):
    big = max(G)
    tree = S.suurballe_shortest_vertex_disjoint_paths(T.asymmetric_from_undirected(G), T.split_head(big, root), weight="cost")
    return P.vertex_disjoint_cost_map(tree, big), P.undirected_vertex_disjoint_paths_map(tree, big)


def check_result(r, vial, G, t0, t1):
    """The result describes one closed tour of G, or nothing."""
    check(r.vial_uuid == vial.uuid, "result of %s for vial %s", r.vial_uuid, vial.uuid)
    es = [tuple(e) for e in r.edge_list]
    check(all(G.has_edge(*e) and e[0] != e[1] for e in es), "edges %s are not all in the graph", es)
    for i, e in enumerate(es):
        nxt = es[(i + 1) % len(es)]
        check(set(e) & set(nxt), "the edge list %s is not in the order of a closed walk", es)
    vs = {x for e in es for x in e}
    check(not es or oracle.is_cycle_edges(es) is None and len(es) >= 3 and vial.data_config.root in vs, "the edges %s are no tour through the root", es)
    check(r.objective == sum(G.edges[e]["cost"] for e in es), "objective %s of edges %s", r.objective, es)
    check(r.prize == sum(G.nodes[v]["prize"] for v in vs), "prize %s of edges %s", r.prize, es)
    check(t0 - timedelta(seconds=1) <= r.start_time <= r.end_time <= t1 + timedelta(seconds=1), "times %s to %s of a run from %s to %s",
          r.start_time, r.end_time, t0, t1)
    return es


def check_settings(c, vial, H, warm, vdir):
    m, d = vial.model_params, vial.data_config
    for k in ("branching_max_depth", "branching_strategy", "cost_cover_shortest_path", "sec_disjoint_tour", "sec_lp_gap_improvement_threshold",
              "sec_maxflow_mincut", "sec_max_tailing_off_iterations", "sec_sepafreq", "time_limit"):
        check(c[k] == getattr(m, k), "the solver was given %s = %r instead of %r", k, c[k], getattr(m, k))
    check(c["quota"] == d.quota and c["root_vertex"] == d.root, "the solver was given quota %s and root %s", c["quota"], c["root_vertex"])
    check({frozenset(e) for e in c["edge_list"]} == {frozenset(e) for e in H.edges()}, "the solver was given the edges %s", c["edge_list"])
    check(Path(c["solver_dir"]) == Path(vdir), "the solver writes to %s", c["solver_dir"])
    cm, _ = maps(H, d.root)
    if m.cost_cover_disjoint_paths and cm:
        check(c["cost_cover_disjoint_paths"] is True and dict(c["disjoint_paths_cost"]) == dict(cm), "the solver was given disjoint path costs %s instead of %s",
              c["disjoint_paths_cost"], cm)
    if not m.cost_cover_disjoint_paths:
        check(not c["cost_cover_disjoint_paths"], "the solver was asked for disjoint paths cost cover")
    check(sorted(frozenset(e) for e in c["heuristic_edges"]) == sorted(frozenset(e) for e in warm)
          or {frozenset(e) for e in c["heuristic_edges"]} == {frozenset(e) for e in warm}, "the solver starts from %s instead of %s", c["heuristic_edges"], warm)


def heuristic(H, vial, name):
    """The heuristic composed here from its steps with the settings of the vial (none: no longer shortcuts, any depth, steps of ten)."""
    m, d = vial.model_params, vial.data_config
    cm, pm = maps(H, d.root)
    suurb = name.startswith("suurb")
    if suurb and not cm:
        return None
    prize = nx.get_node_attributes(H, "prize")
    if name == "suurballes_heuristic":
        return T.edge_list_from_walk(A.suurballes_heuristic(prize, d.quota, cm, pm))
    start = A.suurballes_tour_initialization(prize, d.quota, cm, pm) if suurb else A.find_cycle_from_bfs(H, d.root)
    if "path_extension" in name:
        tour = A.path_extension_collapse(H, start, d.root, d.quota, collapse_shortest_paths=bool(m.collapse_paths),
                                         path_depth_limit=m.path_depth_limit or len(H), step_size=m.step_size or 10)
    else:
        tour = A.extension_unitary_gain_collapse(H, A.extension_until_prize_feasible(H, start, d.quota), d.quota, d.root)
    return T.edge_list_from_walk(tour)


def feasible(H, root, quota, es):
    es = [e for e in es if e[0] != e[1]]
    return bool(es) and oracle.is_cycle_edges(es) is None and any(root in e for e in es) and sum(H.nodes[v]["prize"] for v in {x for e in es for x in e}) >= quota


def make(case, **data):
    return V.Vial(uuid=UUID(int=case["id"]), preprocessing=case["prep"], model_params=case["params"], data_config=data)


def run_run(case):
    g = case["g"]
    G, adj, root = gen.to_nx(g), gen.adj(g), g["root"]
    vial = make(case, dataset="londonaq", cost_function="EXPLICIT", graph_name="laqtinyA", quota=g["quota"], root=root)
    before = nx.Graph(G)
    want = preprocessed(G, root, case["prep"])
    if root not in want:
        return None
    H = sut(R.run_preprocessing, G, vial, logger=quiet())
    same_graph(H, want)
    same_graph(G, before)
    H = nx.Graph(H)
    tours = oracle.tours_by_set(adj, root)
    lonely = not (set(H[root]) - {root})
    need = [case["params"]["algorithm"], case["params"].get("heuristic")]
    hopeless = not tours and any(n and n.startswith("suurb") for n in need)
    work = Path(tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"]))
    vdir = work / "vial"
    vdir.mkdir()
    calls.clear()
    extends.clear()
    try:
        t0 = datetime.utcnow()
        try:
            r = sut(R.run_algorithm, H, vial, allowed=(RuntimeError, ValueError) if lonely or hopeless else (), logger=quiet(), vial_dir=vdir)
        except (RuntimeError, ValueError):
            return None
        t1 = datetime.utcnow()
        es = check_result(r, vial, want, t0, t1)
        m = vial.model_params
        for c in extends:
            for k, v in (("collapse_shortest_paths", bool(m.collapse_paths)), ("path_depth_limit", m.path_depth_limit or len(want)),
                         ("step_size", m.step_size or 10), ("quota", g["quota"]), ("root_vertex", root)):
                check(c[k] == v, "path extension was given %s = %r instead of %r", k, c[k], v)
        prize = dict(map(tuple, g["v"]))
        best = oracle.best_tour(adj, prize, root, g["quota"])
        if vial.model_params.is_exact:
            check(bool(es) == bool(best), "the exact algorithm returned %s, cheapest tour %s", es, best)
            check(not es or r.objective == best[0] and r.prize >= g["quota"], "the exact algorithm returned cost %s, prize %s, cheapest tour %s",
                  r.objective, r.prize, best)
            warm = []
            if vial.model_params.heuristic:
                w = heuristic(H, vial, vial.model_params.heuristic.value)
                warm = w if w and feasible(H, root, g["quota"], w) else []
            check(len(calls) == 1, "the solver was called %d times", len(calls))
            check_settings(calls[0], vial, H, warm, vdir)
            check(r.start_time <= calls[0]["from"] and calls[0]["to"] <= r.end_time, "the solver ran from %s to %s, the result says %s to %s",
                  calls[0]["from"], calls[0]["to"], r.start_time, r.end_time)
            check((vdir / "pctsp_summary_stats.yaml").is_file(), "no statistics in the directory of the vial")
        else:
            check(not calls, "a heuristic vial called the exact solver")
            w = heuristic(H, vial, vial.model_params.algorithm.value)
            check({frozenset(e) for e in es} == {frozenset(e) for e in w if e[0] != e[1]}, "the result has the edges %s, %s gives %s", es,
                  vial.model_params.algorithm.value, w)
            check(not best or not feasible(H, root, g["quota"], es) or r.objective >= best[0], "a heuristic is cheaper than the optimum")
    finally:
        shutil.rmtree(work, ignore_errors=True)
    tags = ["exact" if vial.model_params.is_exact else "heuristic"]
    if es:
        tags.append("tour")
        if len(want) < len(G):
            tags.append("smaller")
        if vial.model_params.heuristic and warm:
            tags.append("warm")
        if vial.model_params.collapse_paths or vial.model_params.step_size or vial.model_params.path_depth_limit:
            tags.append("setting")
        if set(tags) & {"smaller", "warm", "setting"}:
            tags.append("nontrivial")
    return tags


# ---------------------------------------------------------------- vials loaded from files
@st.composite
def lab_case(draw):
    lon = b(draw)
    k = draw(st.integers(1, 2))
    fn = st.sampled_from(["same", "same", "MST", "SEMI_MST", "UNIFORM_RANDOM"])
    kappa = st.sampled_from([None, None, 2, 3]) if not lon else st.sampled_from([None, None, None, 1, 2])
    g = draw(gen.toured(3, 7, costs=("small", "pos", "mid"))) if lon else draw(inst.oplib(3, 7))
    return {"lon": lon, "g": {x: g[x] for x in ("v", "e", "root", "quota")} if lon else g,
            "vials": [{"fn": draw(fn), "kappa": draw(kappa), "quota": draw(st.one_of(st.integers(0, 40), st.integers(0, 12))), "params": draw(params(exact=draw(st.integers(0, 3)) > 0)),
                       "prep": draw(prep()), "id": draw(st.uuids()).int, "root": draw(st.integers(0, 9))} for _ in range(k)]}


def loaded(case, v):
    """The graph a vial asks for, from the contents of the file."""
    d = case["g"]
    G = nx.Graph()
    if case["lon"]:
        # the order of the file's adjacency list
        ad = {}
        for u, w, c in d["e"]:
            ad.setdefault(u, []).append((w, c))
        for u, nb in ad.items():
            for w, c in nb:
                G.add_edge(u, w, cost=c)
        pz = dict(map(tuple, d["v"]))
    else:
        n = len(d["xy"])
        for i in range(1, n + 1):
            for j in range(1, n + 1):
                if not G.has_edge(i, j):
                    G.add_edge(i, j, cost=inst.cost(d, i, j))
        pz = {i: p for i, p in enumerate(d["prize"], 1)}
    return G, pz


def lab_run(case):
    d, lon = case["g"], case["lon"]
    work = Path(tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"]))
    try:
        op, lo, labs = work / "op", work / "lo", work / "lab"
        for p in (op, lo, labs):
            p.mkdir()
        f = inst.write_londonaq(lo, "laqtinyA", d) if lon else inst.write_oplib(op, "gen2", "eil51", d)
        vials = []
        for v in case["vials"]:
            fn = v["fn"] if v["fn"] != "same" else ("EXPLICIT" if lon else d["type"])
            names = [x for x, _ in d["v"]] if lon else list(range(1, len(d["xy"]) + 1))
            root = d["root"] if v["root"] < 5 else names[v["root"] % len(names)]
            data = dict(dataset="londonaq" if lon else "tspwplib", cost_function=fn, graph_name="laqtinyA" if lon else "eil51", quota=v["quota"],
                        root=root, kappa=v["kappa"])
            if not lon:
                data.update(generation="gen2", alpha=50, triangle=0)
            vials.append(make(v, **data))
        if len({x.uuid for x in vials}) < len(vials):
            return None
        graphs = {x.uuid: asked(case, v, x, f) for v, x in zip(case["vials"], vials)}
        if any(H is None for H, _, _ in graphs.values()):
            return None
        lab = LAB.Lab(labs, logger=quiet(), londonaq_root=lo if lon else None, oplib_root=None if lon else op)
        exp = V.Experiment(name="onerun", vials=vials, timestamp=datetime(2024, 1, 1))
        lab.write_experiment_to_file(exp)
        t0 = datetime.utcnow()
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            results = sut(lab.run_experiment, exp)
        t1 = datetime.utcnow()
        got = {r.vial_uuid: r for r in results}
        tags = ["londonaq" if lon else "oplib"]
        for v, vial in zip(case["vials"], vials):
            tags += one_loaded(case, v, vial, graphs[vial.uuid], got.get(vial.uuid), labs, t0, t1)
        if "tour" in tags and set(tags) & {"costs", "sparse", "root"}:
            tags.append("nontrivial")
        return tags
    finally:
        shutil.rmtree(work, ignore_errors=True)


def asked(case, v, vial, f):
    """The graph of a vial, None where its cost function is not defined (too few edges)."""
    lon, dc = case["lon"], vial.data_config
    G, pz = loaded(case, v)
    # the file as its library reads it: same contents, and the order of vertices and edges that seeded choices depend on
    tsp = T.BaseTSP.from_yaml(f) if lon else T.BaseTSP.from_tsplib95(T.ProfitsProblem().load(f))
    L = tsp.get_graph()
    H = L
    if {frozenset(e) for e in H.edges()} != {frozenset(e) for e in G.edges()} or not set(H) <= set(pz):
        raise AssertionError("the instance file is not read as it was written")
    for e in H.edges():
        if H.edges[e].pop("weight") != G.edges[e]["cost"]:
            raise AssertionError("the instance file is not read as it was written")
        H.edges[e]["cost"] = G.edges[e]["cost"]
    if dc.kappa:
        H = T.sparsify_uid(H, dc.kappa)
    fn = {"MST": T.mst_cost, "SEMI_MST": T.semi_mst_cost}.get(v["fn"])
    if fn:
        try:
            nx.set_edge_attributes(H, fn(H), "cost")
        except ValueError:
            return None, pz, G
    elif v["fn"] == "UNIFORM_RANDOM":
        nx.set_edge_attributes(H, {e: c for e, c in T.uniform_random_cost(list(H.edges())).items() if e[0] != e[1]}, "cost")
    nx.set_node_attributes(H, {x: pz[x] for x in H}, "prize")
    return H, pz, G


def one_loaded(case, v, vial, graph, r, labs, t0, t1, name="onerun"):
    dc, (H, pz, G) = vial.data_config, graph
    root = dc.root
    want = preprocessed(H, root, v["prep"]) if root in H else nx.Graph()
    adj = {x: {y: H.edges[x, y]["cost"] for y in H[x] if y != x} for x in H}
    tours = oracle.tours_by_set(adj, root) if root in H else {}
    if root not in want or not (set(want[root]) - {root}) or not tours and r is None:
        return []
    check(r is not None, "vial %s has no result", vial.uuid)
    es = check_result(r, vial, want, t0, t1)
    best = oracle.best_tour(adj, pz, root, dc.quota)
    if vial.model_params.is_exact:
        check(bool(es) == bool(best), "the exact algorithm returned %s, cheapest tour %s", es, best)
        check(not es or r.objective == best[0] and r.prize >= dc.quota, "the exact algorithm returned cost %s, prize %s, cheapest tour %s",
              r.objective, r.prize, best)
    else:
        w = heuristic(want, vial, vial.model_params.algorithm.value) if tours else []
        if feasible(want, root, dc.quota, es):
            check(r.objective >= best[0], "a heuristic is cheaper than the optimum")
        if w:
            # the same heuristic on the same graph; ties may be broken by the order of vertices, so compare what the result promises
            check(bool(es) or not feasible(want, root, dc.quota, w), "the result is empty, %s gives %s", vial.model_params.algorithm.value, w)
    d = labs / name / str(vial.uuid)
    stored = sut(V.Result.read_from_json_file, d, vial.uuid)
    check(stored == r, "the stored result %s is not the result %s", stored, r)
    tags = ["exact" if vial.model_params.is_exact else "heuristic"]
    if es:
        tags.append("tour")
        if v["fn"] != "same":
            tags.append("costs")
        if dc.kappa and H.number_of_edges() < G.number_of_edges():
            tags.append("sparse")
        if root != case["g"]["root"]:
            tags.append("root")
    return tags


# ---------------------------------------------------------------- commands that run one vial
@st.composite
def cli_case(draw):
    lon = b(draw)
    g = draw(gen.toured(3, 6, costs=("small", "pos"))) if lon else draw(inst.oplib(3, 6))
    alg = draw(st.sampled_from(["solve_pctsp", "solve_pctsp", "solve_pctsp"] + HEUR))
    o = {"remove-leaves": b(draw), "cost-cover-disjoint-paths": b(draw), "cost-cover-shortest-path": b(draw), "time-limit": draw(st.sampled_from([14400.0, 60.5, 900.0]))}
    if lon:
        o["quota"] = draw(st.integers(0, 40))
    else:
        o.update({"alpha": draw(st.sampled_from([5, 10, 25, 50, 75, 90, 33])), "branching-max-depth": draw(st.integers(-1, 5)), "collapse-paths": b(draw),
                  "cost-function": draw(st.sampled_from(["EUC_2D", "MST", "SEMI_MST", "UNIFORM_RANDOM"])), "kappa": draw(st.integers(2, 4)),
                  "heuristic": draw(st.sampled_from(HEUR)), "path-depth-limit": draw(st.integers(1, 4)), "step-size": draw(st.integers(1, 4)),
                  "sec-lp-gap-improvement-threshold": draw(st.sampled_from([0.001, 0.05])), "sec-max-tailing-off-iterations": draw(st.sampled_from([-1, 5, 3]))})
        g["type"] = "EUC_2D"
    mask = draw(st.integers(0, (1 << len(o)) - 1))
    keep = [k for i, k in enumerate(sorted(o)) if mask >> i & 1]
    if lon and "quota" not in keep:
        keep = keep + ["quota"]
    return {"lon": lon, "g": {x: g[x] for x in ("v", "e", "root")} if lon else g, "alg": alg, "opt": {k: o[k] for k in keep},
            "gen": draw(st.sampled_from([None, "gen1", "gen3"])), "graph": draw(st.sampled_from([None, "st70", "pr76"]))}


DEFAULTS = {"remove-leaves": False, "cost-cover-disjoint-paths": True, "cost-cover-shortest-path": False, "time-limit": 14400.0, "alpha": 50,
            "branching-max-depth": 1, "collapse-paths": False, "cost-function": "UNIFORM_RANDOM", "kappa": None, "heuristic": None,
            "path-depth-limit": 2, "step-size": 1, "sec-lp-gap-improvement-threshold": 0.001, "sec-max-tailing-off-iterations": 5}


def cli_run(case):
    from typer.testing import CliRunner
    lon, g, alg = case["lon"], case["g"], case["alg"]
    work = Path(tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"]))
    try:
        data, labs = work / "data", work / "lab"
        data.mkdir()
        labs.mkdir()
        if lon:
            name = "laqtinyA"
            inst.write_londonaq(data, name, g)
            args = ["londonaq", alg, "--londonaq-root", str(data)]
        else:
            name = case["graph"] or "eil76"
            inst.write_oplib(data, case["gen"] or "gen1", name, g)
            args = ["tsplib", alg, "--oplib-root", str(data)]
            args += ["--generation", case["gen"]] if case["gen"] else []
            args += ["--graph-name", case["graph"]] if case["graph"] else []
        args += ["--lab-dir", str(labs)]
        for k, x in case["opt"].items():
            args += [f"--{'' if x else 'no-'}{k}"] if isinstance(x, bool) else [f"--{k}={x}"]
        calls.clear()
        with contextlib.redirect_stderr(io.StringIO()):
            r = CliRunner().invoke(MAIN.app, args)
        check(r.exit_code == 0, "pctsp %s failed: %r", " ".join(args[:2]), r.exception)
        lab = LAB.Lab(labs / ("londonaq" if lon else "tspwplib"))
        exp = lab.read_experiment_from_file(V.ExperimentName.onerun)
        check(len(exp.vials) == 1, "%d vials", len(exp.vials))
        vial = exp.vials[0]
        o = {**DEFAULTS, **case["opt"]}
        dc, mp, pp = vial.data_config, vial.model_params, vial.preprocessing
        check(mp.algorithm.value == alg and mp.is_exact == (alg == "solve_pctsp") and mp.is_heuristic == (alg != "solve_pctsp") and not mp.is_relaxation,
              "algorithm flags %s", mp)
        want = {"dataset": "londonaq" if lon else "tspwplib", "graph_name": name, "root": g["root"]}
        if lon:
            want.update(quota=o["quota"], cost_function="EXPLICIT")
        else:
            want.update(quota=math.ceil(sum(g["prize"]) * o["alpha"] / 100), cost_function=o["cost-function"], kappa=o["kappa"], alpha=o["alpha"],
                        generation=case["gen"] or "gen1")
        for k, x in want.items():
            y = getattr(dc, k)
            y = getattr(y, "value", y)
            if k == "quota" and not lon:
                check(y == T.ProfitsProblem().load(str(next((data / "instances").rglob("*.oplib")))).get_quota(o["alpha"]), "quota %s for alpha %s", y, o["alpha"])
                continue
            check(y == x, "%s is %r instead of %r", k, y, x)
        check(pp.remove_leaves == o["remove-leaves"] and not pp.disjoint_path_cutoff and not pp.shortest_path_cutoff, "preprocessing %s", pp)
        if mp.is_exact:
            names = ["cost-cover-disjoint-paths", "cost-cover-shortest-path", "time-limit"]
            if not lon:
                names += ["branching-max-depth", "sec-lp-gap-improvement-threshold", "sec-max-tailing-off-iterations", "heuristic"]
            for k in names:
                y = getattr(mp, k.replace("-", "_"))
                check(getattr(y, "value", y) == o[k], "%s is %r instead of %r", k, y, o[k])
            check(mp.sec_disjoint_tour and mp.sec_maxflow_mincut and mp.sec_sepafreq == 1, "separators %s", mp)
        uses = [alg] + ([o["heuristic"]] if mp.is_exact and not lon else [])
        if not lon and any(u and u.endswith("path_extension_collapse") for u in uses):
            for k in ("collapse-paths", "path-depth-limit", "step-size"):
                check(getattr(mp, k.replace("-", "_")) == o[k], "%s is %r instead of %r", k, getattr(mp, k.replace("-", "_")), o[k])
        d = labs / ("londonaq" if lon else "tspwplib") / "onerun"
        res = d / str(vial.uuid) / f"{vial.uuid}.json"
        tags = ["londonaq" if lon else "oplib"]
        if res.is_file():
            one = V.Result.read_from_json_file(d / str(vial.uuid), vial.uuid)
            es = [tuple(e) for e in one.edge_list]
            check(not es or oracle.is_cycle_edges(es) is None and one.vial_uuid == vial.uuid, "result %s", one)
            check(json.loads((d / "results.json").read_text()) is not None, "no results file")
            if es:
                tags.append("tour")
                if set(case["opt"]) - {"quota"}:
                    tags.append("nontrivial")
        else:
            # only an instance without any tour through the root has no result
            H = T.BaseTSP.from_yaml(data / name / f"{name}.yaml").get_graph() if lon else None
            check(not lon, "the vial has no result although the root is on a tour")
            check(o["kappa"] is not None, "the vial has no result although the graph is complete")
        return tags
    finally:
        shutil.rmtree(work, ignore_errors=True)


# ---------------------------------------------------------------- a whole experiment by command
@st.composite
def whole_case(draw):
    lon = b(draw)
    if lon:
        g = draw(gen.toured(4, 8, costs=("small", "pos", "mid"), prizes=("small", "pos", "one")))
        k = draw(st.integers(150, 500)) // max(1, sum(p for _, p in g["v"])) + 1
        g = {"v": [[v, p * k] for v, p in g["v"]], "e": g["e"], "root": g["root"]}
    else:
        g = draw(inst.oplib(4, 8))
    g["via"] = draw(st.sampled_from(["lab", "batch", "vial", "missing"]))
    g["size"] = draw(st.integers(1, 4))
    return {"lon": lon, "g": g}


def whole_run(case):
    """The predefined dry run, by the command that runs an experiment or by the commands that set it up and run its parts."""
    from typer.testing import CliRunner
    lon, g, via = case["lon"], case["g"], case["g"]["via"]
    ds = "londonaq" if lon else "tspwplib"
    work = Path(tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"]))
    try:
        op, lo, labs = work / "op", work / "lo", work / "lab"
        for p in (op, lo, labs):
            p.mkdir()
        f = inst.write_londonaq(lo, "laqtinyA", g) if lon else inst.write_oplib(op, "gen1", "st70", g)

        def command(*a):
            with contextlib.redirect_stderr(io.StringIO()):
                r = CliRunner().invoke(MAIN.app, [a[0], ds, "dryrun", *map(str, a[1:]), "--lab-dir", str(labs), "--londonaq-root", str(lo), "--oplib-root", str(op)])
            check(r.exit_code == 0, "pctsp %s failed: %r", " ".join(map(str, a)), r.exception)
            return r.stdout
        t0 = datetime.utcnow()
        command("lab" if via == "lab" else "setup")
        lab = LAB.Lab(labs / ds)
        exp = sut(lab.read_experiment_from_file, V.ExperimentName.dryrun)
        vials = exp.vials
        check(sorted(x.model_params.algorithm.value for x in vials) == ["bfs_extension_collapse", "solve_pctsp", "suurballes_heuristic"],
              "the dry run has the algorithms %s", [x.model_params.algorithm.value for x in vials])
        if via != "lab":
            check(not list((labs / ds).rglob("*-*-*.json")), "setting up an experiment has left results")
        if via == "vial":
            for x in vials:
                try:
                    command("vial", x.uuid)
                except Exception:  # a vial without a result
                    check(not oracle_tours(case, vials[0], f), "the vial was not run")
        elif via == "batch":
            n = int(command("nbatches", g["size"]).split()[-1])
            for i in range(n):
                command("batch", i * g["size"], g["size"])
        elif via == "missing":
            command("batch", 0, 1)
            keep = {p: p.read_bytes() for x in vials for p in (labs / ds / "dryrun" / str(x.uuid)).glob(f"{x.uuid}.json")}
            with contextlib.redirect_stderr(io.StringIO()):
                r = CliRunner().invoke(MAIN.app, ["missing", ds, "dryrun", "--lab-dir", str(labs)])
            check(r.exit_code == 0, "pctsp missing failed: %r", r.exception)
            command("batch", 0, 3, "--only-missing-results")
            check({p: p.read_bytes() for p in keep} == keep, "running the missing vials changed another result")
        check(sut(lab.read_experiment_from_file, V.ExperimentName.dryrun) == exp, "the experiment file was changed")
        t1 = datetime.utcnow()
        tags = [ds, via]
        for x in vials:
            v = {"fn": "same", "kappa": x.data_config.kappa, "prep": x.preprocessing.model_dump(), "root": 0}
            graph = asked(case, v, x, f)
            res = labs / ds / "dryrun" / str(x.uuid) / f"{x.uuid}.json"
            r = sut(V.Result.read_from_json_file, res.parent, x.uuid) if res.is_file() else None
            tags += one_loaded(case, v, x, graph, r, labs / ds, t0, t1, name="dryrun")
        if "tour" in tags:
            tags.append("nontrivial")
        return tags
    finally:
        shutil.rmtree(work, ignore_errors=True)


def oracle_tours(case, x, f):
    H = asked(case, {"fn": "same"}, x, f)[0]
    return oracle.tours_by_set({u: {y: H.edges[u, y]["cost"] for y in H[u] if y != u} for u in H}, x.data_config.root)


PARTS = [
    Part("dryrun", whole_case(), whole_run, 120, 3000, case_cpu=120, budget={"quick": 12}),
    Part("run", run_case(), run_run, 1600, 40000, case_cpu=120, budget={"quick": 12}),
    Part("lab", lab_case(), lab_run, 800, 20000, case_cpu=120, budget={"quick": 12}),
    Part("cli", cli_case(), cli_run, 400, 10000, case_cpu=120, budget={"quick": 12}),
]
