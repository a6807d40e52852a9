"""Statistics of instances and of the data sets."""
import contextlib
import io
import math
import os
import random
import shutil
import tempfile
from pathlib import Path

import networkx as nx
from hypothesis import strategies as st

import gen
import inst
import oracle
import repo
from harness import Part, check, sut

PROPERTY = "C25"
HX = None
RULE = ("stats: graphs of 3-8 and (large) 14-60 vertices in which the root is on a cycle, with pendant parts and other components, all vertex namings; the disjoint path "
        "statistics against the cheapest cycle through the root and every other vertex (all pairs of least cost where several tie). table: the command "
        "over data sets of drawn instance files, every row against its file. Non-trivial: (stats) preprocessing removes something or the root's "
        "component is not the graph or vertices are not numbered from 0, (table) always.")


def setup():
    global D, T, MAIN, PAR, np_
    repo.stub()
    import importlib
    import logging
    import tspwplib as T
    D = importlib.import_module("pctsp.apps.dataset_app")
    PAR = importlib.import_module("pctsp.compare.params")
    MAIN = importlib.import_module("pctsp.apps.main_app")
    logging.disable(logging.CRITICAL)


@st.composite
def case_of(draw):
    g = draw(gen.toured(3, 8, costs=("pos", "mid", "big", "big", "metric", "small", "unit")))
    top = max(v for v, _ in g["v"])
    kind = draw(st.sampled_from(["none", "tail", "other", "cycle", "both"]))
    at = draw(st.sampled_from([v for v, _ in g["v"]]))
    if kind in ("tail", "both"):
        for k in range(draw(st.integers(1, 3))):
            g["v"].append([top + 1, draw(st.integers(0, 9))])
            g["e"].append([at, top + 1, draw(st.integers(1, 500))])
            at, top = draw(st.sampled_from([at, top + 1])), top + 1
    if kind == "cycle":  # hanging from a cut vertex
        n = [top + 1, top + 2]
        g["v"] += [[x, draw(st.integers(0, 9))] for x in n]
        g["e"] += [[at, n[0], draw(st.integers(1, 500))], [n[0], n[1], 3], [n[1], at, draw(st.integers(1, 500))]]
        top += 2
    if kind in ("other", "both"):
        k = draw(st.integers(1, 12))
        n = [top + 1 + i for i in range(k)]
        g["v"] += [[x, draw(st.integers(0, 9))] for x in n]
        g["e"] += [[n[i], n[i + 1], draw(st.integers(1, 500))] for i in range(k - 1)]
        if k >= 3:
            g["e"].append([n[0], n[-1], draw(st.integers(1, 2000))])
    if draw(st.booleans()):
        g["e"] += [[v, v, 0] for v, _ in g["v"]]
    return {k: g[k] for k in ("v", "e", "root", "shape")}


@st.composite
def large_of(draw):
    g = draw(gen.large(14, 60, dense=3))
    g["e"] = [[u, v, max(1, c)] for u, v, c in g["e"]]
    if draw(st.booleans()):
        g["e"] += [[v, v, 0] for v, _ in g["v"]]
    return {k: g[k] for k in ("v", "e", "root", "shape")}


def check_stats(s, G, root, tag):
    """s: statistics of the graph G."""
    def eq(k, want):
        check(k in s, "%s: no %s", tag, k)
        y = s[k]
        check(y == want or isinstance(want, float) and math.isclose(y, want, rel_tol=1e-9, abs_tol=1e-12), "%s: %s is %s instead of %s", tag, k, y, want)

    prize = {v: G.nodes[v]["prize"] for v in G}
    tot = sum(prize.values())
    eq("num_nodes", len(G))
    eq("num_edges", len({frozenset(e) for e in G.edges()}))
    eq("total_cost", sum(c for _, _, c in G.edges(data="cost")))
    eq("total_prize", tot)
    comps = sorted(nx.connected_components(G), key=len)
    if len(comps) == 1 or len(comps[-1]) > len(comps[-2]):
        eq("metricness", metric(nx.Graph(G.subgraph(comps[-1]))))
    H = nx.Graph(G)
    H.remove_edges_from([(v, v) for v in G if G.has_edge(v, v)])
    blocks = [c for c in nx.biconnected_components(H) if root in c and len(c) > 2]
    keep = set().union(*blocks)
    K = nx.Graph(G.subgraph(keep))
    pp = sum(prize[v] for v in keep)
    eq("preprocessed_num_nodes", len(keep))
    eq("preprocessed_num_edges", len({frozenset(e) for e in K.edges()}))
    eq("preprocessed_total_cost", sum(c for _, _, c in K.edges(data="cost")))
    eq("preprocessed_total_prize", pp)
    eq("preprocessed_metricness", metric(K))
    eq("preprocessed_prize_ratio", pp / tot)
    # the cheapest pairs of disjoint paths from the root are the cheapest cycles through the root and the vertex
    adj = {v: {w: H.edges[v, w]["cost"] for w in H[v] if w in keep} for v in keep}
    cheap = cheapest(adj, prize, root)
    eq("max_disjoint_paths_cost", max(c for c, _, _ in cheap.values()))
    lo, hi = max(p for _, p, _ in cheap.values()), max(p for _, _, p in cheap.values())
    b = s["biggest_disjoint_prize"]
    check(lo <= b <= hi, "%s: biggest_disjoint_prize is %s and should be %s", tag, b, lo if lo == hi else f"between {lo} and {hi}")
    eq("disjoint_prize_ratio", b / tot)
    return ["exact prize"] if lo == hi else []


def cheapest(adj, prize, root):
    """vertex -> (cost of the cheapest cycle through it and the root, least and largest prize of those)"""
    cheap = {}
    if len(adj) > 13:
        big = 2 * sum(prize.values()) + 1  # the prize only decides between cycles of the same cost
        for sign in (1, -1):
            arcs = [((v, 0), (v, 1), 0) for v in adj] + [((u, 1), (v, 0), big * 2 * c + sign * (prize[u] + prize[v])) for u in adj for v, c in adj[u].items()]
            if any(c < 0 for _, _, c in arcs):
                raise ValueError("cost 0")
            d = oracle.min_cost_two_flow([(v, h) for v in adj for h in (0, 1)], arcs, (root, 1))
            for (v, h), x in d.items():
                if h == 0 and v != root:
                    # x = 2 big cost + 2 sign prize, where the prize is below big / 2
                    c = (x + big) // (2 * big)
                    p = sign * (x - 2 * big * c) // 2
                    cheap[v] = (c, p, cheap[v][1] if sign < 0 else p)
                    cheap[v] = (c, min(cheap[v][1:]), max(cheap[v][1:]))
        return cheap
    for fs, (c, _) in oracle.tours_by_set(adj, root).items():
        p = sum(prize[v] for v in fs)
        for v in fs:
            if v != root:
                old = cheap.get(v)
                if old is None or c < old[0]:
                    cheap[v] = (c, p, p)
                elif c == old[0]:
                    cheap[v] = (c, min(p, old[1]), max(p, old[2]))
    return cheap


def metric(G):
    """Share of the edges beyond a spanning tree that are as short as every path between their ends."""
    H = nx.Graph(G)
    H.remove_edges_from([(v, v) for v in G if G.has_edge(v, v)])
    d = dict(nx.all_pairs_dijkstra_path_length(H, weight="cost"))
    good = sum(c <= d[u][v] for u, v, c in H.edges(data="cost"))
    return (good - len(H) + 1) / (H.number_of_edges() - len(H) + 1)


def run(case):
    root = case["root"]
    G = gen.to_nx(case)
    if sum(p for _, p in case["v"]) == 0:
        return None
    comps = sorted(nx.connected_components(G), key=len)
    for c in comps:  # the statistic is not defined for trees
        if len(c) == len(comps[-1]) and len(comps) > 1:
            H = G.subgraph(c)
            if sum(u != v for u, v in H.edges()) < len(c):
                return None
    before = gen.to_nx(case)
    with contextlib.redirect_stdout(io.StringIO()):
        s = sut(D.get_graph_stats, G, root)
    tags = check_stats(s, before, root, "stats")
    check(set(G) == set(before) and nx.utils.graphs_equal(G, before), "the caller's graph was changed")
    tags.append("components" if len(comps) > 1 else "connected")
    if s["preprocessed_num_nodes"] < s["num_nodes"]:
        tags.append("smaller")
    if sorted(G) != list(range(len(G))):
        tags.append("names")
    if set(tags) & {"components", "smaller", "names"}:
        tags.append("nontrivial")
    return tags


# ---------------------------------------------------------------- the command
@st.composite
def table_case(draw):
    return {"lon": draw(st.integers(0, 4)) > 0, "seed": draw(st.integers(0, 2**32))}


def drawn_london(r):
    n = r.randint(4, 8)
    lab = r.sample(range(40), n)
    es = {}
    k = r.randint(3, n)
    for i in range(k):
        es[(lab[i], lab[(i + 1) % k])] = r.randint(1, 900)
    for i in range(k, n):
        es[(lab[r.randrange(i)], lab[i])] = r.randint(1, 900)
    for _ in range(r.randint(0, n)):
        u, v = r.sample(lab, 2)
        if (u, v) not in es and (v, u) not in es:
            es[(u, v)] = r.randint(1, 900)
    return {"v": [[x, r.randint(0, 20) + (i == 0)] for i, x in enumerate(lab)], "e": [[u, v, c] for (u, v), c in es.items()], "root": lab[r.randrange(k)]}


def table_run(case):
    import pandas as pd
    from typer.testing import CliRunner
    r = random.Random(case["seed"])
    work = Path(tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"]))
    try:
        op, lo = work / "op", work / "lo"
        op.mkdir()
        lo.mkdir()
        want = {}
        if case["lon"]:
            for name in PAR.LONDONAQ_GRAPH_NAME_LIST:
                g = drawn_london(r)
                inst.write_londonaq(lo, name.value, g)
                want[name.value] = (gen.to_nx(g), g["root"])
        else:
            for name in PAR.TSPLIB_GRAPH_NAME_LIST:
                for gn in T.Generation:
                    n = r.choice([4, 5, 6, 7, 11, 12] if r.random() < .2 else [4, 5, 6])
                    d = {"xy": [[r.randint(0, 60), r.randint(0, 60)] for _ in range(n)], "prize": [r.randint(1, 30) for _ in range(n)],
                         "root": r.randint(1, n), "type": "EUC_2D"}
                    f = inst.write_oplib(op, gn.value, name.value, d)
                    L = T.BaseTSP.from_tsplib95(T.ProfitsProblem().load(f)).get_graph()
                    for e in L.edges():
                        L.edges[e]["cost"] = inst.cost(d, *e)
                    nx.set_node_attributes(L, dict(enumerate(d["prize"], 1)), "prize")
                    for kappa in PAR.TSPLIB_KAPPA_LIST:
                        S = T.sparsify_uid(L, kappa)
                        for fn in PAR.TSPLIB_COST_FUNCTIONS:
                            M = nx.Graph(S)
                            for e in M.edges():
                                M.edges[e].update(cost=S.edges[e]["cost"])
                            M = nx.Graph()
                            M.add_nodes_from((v, dict(a)) for v, a in S.nodes(data=True))
                            M.add_edges_from((u, v, dict(a)) for u, v, a in S.edges(data=True))
                            if fn.value == "MST":
                                nx.set_edge_attributes(M, T.mst_cost(S, cost_attr="cost"), "cost")
                            want[name.value, gn.value, fn.value, kappa] = (M, d["root"])
        args = ["dataset", "stats", "londonaq" if case["lon"] else "tspwplib", "--londonaq-root", str(lo), "--oplib-root", str(op)]
        with contextlib.redirect_stderr(io.StringIO()):
            res = CliRunner().invoke(MAIN.app, args)
        check(res.exit_code == 0, "pctsp dataset stats failed: %r", res.exception)
        idx = ["graph_name"] if case["lon"] else ["graph_name", "generation", "cost_function", "kappa"]
        f = (lo / "londonaq_dataset.csv") if case["lon"] else (op / "tsplib_dataset.csv")
        check(f.is_file(), "no table was written to %s", f.name)
        df = pd.read_csv(f)
        check(set(idx) <= set(df.columns), "no columns %s in %s", idx, list(df.columns))
        rows = {}
        for row in df.to_dict("records"):
            key = row[idx[0]] if case["lon"] else tuple(row[k] for k in idx)
            check(key not in rows, "two rows for %s", key)
            rows[key] = row
        check(set(rows) == set(want), "rows for %s, instances %s", sorted(map(str, set(rows) - set(want))), sorted(map(str, set(want) - set(rows))))
        keys = sorted(want, key=str)
        for key in keys if case["lon"] else r.sample(keys, 60):
            G, root = want[key]
            check_stats(rows[key], G, root, str(key))
        return ["londonaq" if case["lon"] else "oplib", "nontrivial"]
    finally:
        shutil.rmtree(work, ignore_errors=True)


PARTS = [
    Part("large", large_of(), run, 240, 6000, budget={"quick": 15}),
    Part("stats", case_of(), run, 3000, 60000, budget={"quick": 15}),
    Part("table", table_case(), table_run, 48, 800, case_cpu=240, budget={"quick": 15}),
]
