"""Heuristics on whole instances: validity, the optimum, and the composition of their steps."""
import logging

import networkx as nx
from hypothesis import strategies as st

import gen
import oracle
import repo
from harness import Part, check, sut

PROPERTY = "C10"
HX = ()
RULE = ("graphs of 3-9 vertices (and 10-15 without the optimum), including ones whose root is on no cycle, all five heuristic names "
        "and their parameters. Non-trivial: the heuristic gives a prize-feasible tour, or gives none although one exists.")
NAMES = ["bfs_extension_collapse", "bfs_path_extension_collapse", "suurballes_extension_collapse", "suurballes_heuristic",
         "suurballes_path_extension_collapse"]


def setup():
    global A, R, V, P, S, T, quiet
    repo.native()
    import pctsp.algorithms as A
    import importlib
    R = importlib.import_module("pctsp.lab.run_algorithm")
    import pctsp.preprocessing as P
    import pctsp.suurballe as S
    import pctsp.vial as V
    import tspwplib as T
    quiet = logging.getLogger("quiet")
    quiet.setLevel(100)


def maps(G, root):
    big = max(G)
    tree = S.suurballe_shortest_vertex_disjoint_paths(T.asymmetric_from_undirected(G), T.split_head(big, root), weight="cost")
    return P.vertex_disjoint_cost_map(tree, big), P.undirected_vertex_disjoint_paths_map(tree, big)


def composed(G, adj, prize, root, q, start, name, paths, depth, step):
    """The heuristic put together from its steps."""
    def pz(t):
        return sum(prize[v] for v in t[:-1])
    q50 = dict(logging_level=50)
    t = list(start)
    if name.endswith("path_extension_collapse"):
        col = A.path_collapse if paths else A.collapse
        best = t if pz(t) >= q else None
        if best is None:
            for s in range(1, step + 1):
                t = A.path_extension_until_prize_feasible(G, t, root, q, step_size=s, path_depth_limit=depth, **q50)
                if pz(t) >= q:
                    best = t
                    break
        if best is None:
            return [], None
        first = best
        best = col(G, best, q, root, **q50)
        for s in range(1, step + 1):
            t = A.path_extension(G, best, root, path_depth_limit=depth, step_size=s, **q50)
            t = col(G, t, q, root, **q50)
            if oracle.walk_cost(adj, t) < oracle.walk_cost(adj, best):
                best = t
        return best, first
    t = A.extension_until_prize_feasible(G, t, q)
    first = A.extension_unitary_gain(G, t, **q50)
    return A.collapse(G, first, q, root, **q50), first


def run(case, optimum=True):
    g = case["g"]
    G = gen.to_nx(g)
    adj = gen.adj(g)
    prize = dict(map(tuple, g["v"]))
    root, q, name = g["root"], g["quota"], case["name"]
    if not adj[root]:
        return None
    paths, depth, step = case["paths"], case["depth"], case["step"]
    cmap, pmap = maps(G, root)
    before = nx.to_dict_of_dicts(G)
    if name.startswith("suurballes") and not gen_cycle(adj, root):
        try:
            es = sut(R.run_heuristic, G, q, root, V.AlgorithmName[name], cmap, pmap, logger=quiet, allowed=(ValueError,))
        except ValueError:
            return ["refused"]
        check(es == [], "%s gives %s although the root is on no cycle", name, es)
        return ["root on no cycle"]
    es = sut(R.run_heuristic, G, q, root, V.AlgorithmName[name], cmap, pmap, logger=quiet, collapse_shortest_paths=paths,
             path_depth_limit=depth, step_size=step)
    check(nx.to_dict_of_dicts(G) == before, "the caller's graph was changed")
    best = oracle.best_tour(adj, prize, root, q) if optimum else None
    good, c = False, None
    if es:
        bad = oracle.is_cycle_edges(es) or next((f"({u}, {v}) is not an edge" for u, v in es if v not in adj.get(u, ())), None)
        check(bad is None, "%s gives %s: %s", name, es, bad)
        vs = {x for e in es for x in e}
        check(root in vs, "%s gives %s, which avoids the root", name, es)
        p, c = sum(prize[v] for v in vs), sum(adj[u][v] for u, v in es)
        good = p >= q
        check(not name == "suurballes_heuristic" or good, "%s gives %s, which is below the quota", name, es)
        check(not name.endswith("path_extension_collapse") or good, "%s gives %s, which is below the quota", name, es)
        if good and optimum:
            check(best is not None and best[0] <= c, "%s gives a tour of cost %s, cheaper than the optimum %s", name, c, best)
    yes = sut(T.is_pctsp_yes_instance, G, q, root, es)
    check(yes == good, "%s gives %s; feasible is %s but it is taken as %s", name, es, good, yes)
    # the same from the steps
    start = None
    if name.startswith("bfs"):
        start = A.find_cycle_from_bfs(G, root)
    elif name != "suurballes_heuristic":
        start = A.suurballes_tour_initialization(prize, q, cmap, pmap)
    if start is not None:
        t, first = composed(G, adj, prize, root, q, start, name, bool(paths), depth or len(prize), step or 10)
        if first and sum(prize[v] for v in first[:-1]) >= q:
            check(good, "%s extended to %s, which meets the quota, but ended with %s", name, first, es)
            check(c <= oracle.walk_cost(adj, first), "%s collapsed %s to %s, which is dearer", name, first, es)
        tc = oracle.walk_cost(adj, t) if t else None
        tp = sum(prize[v] for v in t[:-1]) if t else None
        got = (c, sum(prize[v] for v in {x for e in es for x in e}) if es else None)
        check(got == (tc, tp), "%s (collapse paths %s, depth %s, step %s) gives (cost, prize) %s, its steps give %s", name, paths, depth, step, got, (tc, tp))
    else:
        # the cheapest prize-feasible of the simple tours made of the pairs
        cands = []
        for v, (p1, p2) in pmap.items():
            t = list(p1) + list(p2)[::-1][1:]
            if oracle.is_tour(adj, root, t) is None and sum(prize[x] for x in t[:-1]) >= q:
                cands.append(oracle.walk_cost(adj, t))
        check((min(cands) if cands else None) == (c if es else None), "%s gives cost %s, its candidates cost %s", name, c, sorted(cands))
    tags = [name] if good else []
    if not es:
        tags.append("none")
        if optimum and best is None and not good:
            tags = []
    if not gen_cycle(adj, root):
        tags.append("root on no cycle")
    return tags if good or (optimum and best) else (tags if "root on no cycle" in tags else None)


def gen_cycle(adj, root):
    """Is the root on a cycle?"""
    H = nx.Graph([(u, v) for u in adj for v in adj[u]])
    if root not in H:
        return False
    return any(root in b and len(b) > 2 for b in nx.biconnected_components(H))


def run_big(case):
    return run(case, optimum=False)


def params(g):
    return st.fixed_dictionaries({"g": g, "name": st.sampled_from(NAMES), "paths": st.sampled_from([None, True, False]),
                                  "depth": st.sampled_from([None, 2, 2, 3, 5]), "step": st.sampled_from([None, 1, 1, 2, 4])})


small = gen.graphs(nmin=3, nmax=9, costs=("pos", "mid", "big", "unit", "small"))
PARTS = [Part("small", params(st.one_of(small, gen.toured(nmax=9, quota="more"))), run, 7000, 150000, budget={"quick": 22}),
         Part("big", params(gen.toured(nmin=10, nmax=16, quota="more")), run_big, 1500, 40000, budget={"quick": 12}),
         Part("large", params(gen.large(dense=3, few=(0, 4, 8, 20))), run_big, 500, 10000, budget={"quick": 10})]
