"""Suurballe: cheapest pairs of disjoint paths."""
import sys

from hypothesis import strategies as st

import gen
import oracle
import repo
from harness import Part, Violation, check, sut

PROPERTY = "C11"
HX = None
RULE = ("directed: random asymmetric digraphs of 2-12 vertices; undirected: random graphs of 2-10 vertices split into an "
        "asymmetric digraph as run_algorithm does; long: cycles of 300-900 vertices with chords (always non-trivial). Non-trivial: at least one target has two disjoint paths whose cheapest "
        "pair does not consist of the shortest path and any path disjoint from it, or one target has none.")


def setup():
    global S, P, T
    repo.stub()
    import pctsp.preprocessing as P
    import pctsp.suurballe as S
    import tspwplib as T


@st.composite
def digraphs(draw):
    n = draw(st.integers(2, 12))
    prs, _ = draw(gen.pairs_of(n, ("mask", "dense", "complete", "sparse", "cycle", "wheel")))
    lo, hi = gen.COST[draw(st.sampled_from(["small", "pos", "mid", "big", "unit", "huge"]))]
    cs = gen.ints(draw, lo, hi, len(prs)) if lo < hi else [lo] * len(prs)
    fl = draw(st.integers(0, (1 << len(prs)) - 1)) if prs else 0
    if draw(st.booleans()):
        fl &= draw(st.integers(0, (1 << len(prs)) - 1)) if prs else 0
    lab = draw(gen.labels_of(n))
    es = [[lab[i], lab[j], c] if not fl >> k & 1 else [lab[j], lab[i], c] for k, ((i, j), c) in enumerate(zip(prs, cs))]
    if len(es) > 1 and draw(st.booleans()):
        es = draw(st.permutations(es))
    return {"v": lab, "e": es, "s": lab[draw(st.integers(0, n - 1))], "w": draw(st.sampled_from(["weight", "cost"]))}


def path_ok(p, s, t, arcs, what):
    check(len(p) >= 2 and p[0] == s and p[-1] == t, "%s from %s to %s is %s", what, s, t, p)
    for i in range(len(p) - 1):
        check((p[i], p[i + 1]) in arcs, "%s %s uses (%s, %s), which is not an edge", what, p, p[i], p[i + 1])


def run_directed(case):
    import networkx as nx
    G = nx.DiGraph()
    G.add_nodes_from(case["v"])
    arcs = {}
    for u, v, c in case["e"]:
        G.add_edge(u, v, **{case["w"]: c})
        arcs[u, v] = c
    before = sorted((u, v, tuple(sorted(d.items()))) for u, v, d in G.edges(data=True))
    s = case["s"]
    want = oracle.min_cost_two_flow(case["v"], [tuple(e) for e in case["e"]], s)
    if case["w"] == "weight":
        tree = sut(S.suurballe_shortest_vertex_disjoint_paths, G, s)
    else:
        tree = sut(S.suurballe_shortest_vertex_disjoint_paths, G, s, weight=case["w"])
    check(before == sorted((u, v, tuple(sorted(d.items()))) for u, v, d in G.edges(data=True)), "the input graph was changed")
    dist = nx.single_source_dijkstra_path_length(G, s, weight=case["w"])
    check(set(tree.nodes()) == set(dist), "vertices of the tree %s, reachable %s", sorted(tree.nodes()), sorted(dist))
    tags = set()
    for t in tree.nodes():
        if t == s:
            r = sut(S.extract_suurballe_edge_disjoint_paths, tree, s, s)
            check(list(r[0]) == [s] and list(r[1]) == [], "paths from the source to itself are %s", r)
            continue
        cost = sut(S.edge_disjoint_path_cost, tree, t)
        paths = sut(S.extract_suurballe_edge_disjoint_paths, tree, s, t)
        check(bool(tree.labeled[t]) == (t in want), "target %s labeled %s, two disjoint paths exist: %s", t,
              tree.labeled[t], t in want)
        if t not in want:
            check(cost == sys.maxsize, "target %s has no two disjoint paths but cost %s", t, cost)
            check(list(paths[0]) == [] and list(paths[1]) == [], "target %s has no two disjoint paths but got %s", t, paths)
            tags.add("none")
            continue
        check(cost == want[t], "cost of the disjoint paths to %s is %s, minimum %s", t, cost, want[t])
        p, q = list(paths[0]), list(paths[1])
        path_ok(p, s, t, arcs, "first path")
        path_ok(q, s, t, arcs, "second path")
        ep, eq = set(zip(p, p[1:])), set(zip(q, q[1:]))
        check(len(ep) == len(p) - 1 and len(eq) == len(q) - 1 and not ep & eq, "paths %s and %s share an edge", p, q)
        tot = sum(arcs[e] for e in ep) + sum(arcs[e] for e in eq)
        check(tot == want[t], "paths %s %s to %s cost %s, minimum %s", p, q, t, tot, want[t])
        a, b = sum(arcs[e] for e in ep), sum(arcs[e] for e in eq)
        if min(a, b) > dist[t]:
            tags.add("reroute")  # the shortest path is in no cheapest pair found
        tags.add("pair")
    return sorted(tags) if tags & {"reroute", "none"} and "pair" in tags or "reroute" in tags else None


def run_undirected(case):
    """The maps used by the heuristics and by the cost cover inequalities."""
    G = gen.to_nx(case)
    a = gen.adj(case)
    root = case["root"]
    big = T.biggest_vertex_id_from_graph(G)
    D = T.asymmetric_from_undirected(G)
    tree = sut(S.suurballe_shortest_vertex_disjoint_paths, D, T.split_head(big, root), weight="cost")
    if case.get("other"):  # another tree of the graph, from elsewhere, leaves this one alone
        o = case["v"][case["other"] % len(case["v"])][0]
        sut(S.suurballe_shortest_vertex_disjoint_paths, D, T.split_head(big, o), weight="cost")
    pm = sut(P.undirected_vertex_disjoint_paths_map, tree, big)
    cm = sut(P.vertex_disjoint_cost_map, tree, big)
    want = {}
    for fs, (c, _) in oracle.tours_by_set(a, root).items():
        for t in fs:
            if t != root and c < want.get(t, float("inf")):
                want[t] = c
    check(set(pm) == set(want), "vertices with disjoint paths %s, vertices on a cycle with the root %s",
          sorted(pm), sorted(want))
    check(set(cm) == set(pm), "cost map has %s, path map has %s", sorted(cm), sorted(pm))
    tags = set()
    for t in pm:
        p, q = list(pm[t][0]), list(pm[t][1])
        for w in (p, q):
            check(w and w[0] == root and w[-1] == t and all(w[i + 1] in a[w[i]] for i in range(len(w) - 1)),
                  "path to %s is %s", t, w)
        if t == root:
            continue
        inner = p[1:-1] + q[1:-1]
        check(len(set(inner)) == len(inner) and root not in inner and t not in inner, "paths %s and %s to %s are not disjoint",
              p, q, t)
        check(len(p) + len(q) >= 5, "paths %s and %s to %s use the same edge", p, q, t)
        tot = oracle.walk_cost(a, p) + oracle.walk_cost(a, q)
        check(cm[t] == want[t], "cost map of %s is %s, minimum %s", t, cm[t], want[t])
        check(tot == want[t], "paths %s %s cost %s, minimum %s", p, q, tot, want[t])
        tags.add("inner" if len(p) > 2 and len(q) > 2 else "edge")
    return sorted(tags) if tags and len(want) < len(case["v"]) - 1 or "inner" in tags else None


@st.composite
def trees(draw):
    n = draw(st.integers(1, 14))
    par = [draw(st.integers(0, i - 1)) for i in range(1, n)]
    lab = draw(gen.labels_of(n))
    return {"e": [[lab[par[i - 1]], lab[i]] for i in range(1, n)], "r": lab[0], "v": lab}


def run_orders(case):
    """Numberings of a tree and the ancestor test."""
    import networkx as nx
    G = nx.DiGraph()
    G.add_nodes_from(case["v"])
    G.add_edges_from(map(tuple, case["e"]))
    pre = list(sut(S.preorder, G, case["r"]))
    post = list(sut(S.postorder, G, case["r"]))
    par = {v: u for u, v in case["e"]}

    def anc(x):
        out = [x]
        while x in par:
            x = par[x]
            out.append(x)
        return out
    check(sorted(pre) == sorted(case["v"]) and sorted(post) == sorted(case["v"]), "orders %s %s", pre, post)
    for v in case["v"]:
        A = set(anc(v))
        for u in case["v"]:
            check(bool(sut(S.is_ancestor, G, u, v)) == (u in A), "is_ancestor(%s, %s) wrong", u, v)
            if u in A and u != v:
                check(pre.index(u) < pre.index(v) and post.index(u) > post.index(v), "order of %s and %s", u, v)
    return len(case["v"]) >= 4


@st.composite
def longs(draw):
    """A long cycle through the root with a few chords: paths and trees a thousand vertices deep."""
    n = draw(st.integers(300, 900))
    ch = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1), st.integers(0, 300)), max_size=4))
    return {"n": n, "cost": [draw(st.integers(1, 9)) for _ in range(7)], "chords": [list(x) for x in ch],
            "root": draw(st.integers(0, n - 1))}


def run_long(case):
    n = case["n"]
    es = {(min(i, (i + 1) % n), max(i, (i + 1) % n)): case["cost"][i % 7] for i in range(n)}
    for u, v, c in case["chords"]:
        if u != v:
            es.setdefault((min(u, v), max(u, v)), c)
    import networkx as nx
    G = nx.Graph()
    for (u, v), c in es.items():
        G.add_edge(u, v, cost=c)
    r = case["root"]
    big = T.biggest_vertex_id_from_graph(G)
    D = T.asymmetric_from_undirected(G)
    tree = sut(S.suurballe_shortest_vertex_disjoint_paths, D, T.split_head(big, r), weight="cost")
    pm = sut(P.undirected_vertex_disjoint_paths_map, tree, big)
    cm = sut(P.vertex_disjoint_cost_map, tree, big)
    check({v for v in pm if v != r} == set(G) - {r}, "vertices without disjoint paths: %s", sorted(set(G) - set(pm) - {r})[:9])
    for t in pm:
        if t == r:
            continue
        p, q = list(pm[t][0]), list(pm[t][1])
        for w in (p, q):
            check(w[0] == r and w[-1] == t and all(G.has_edge(x, y) for x, y in zip(w, w[1:])), "path to %s", t)
        inner = p[1:-1] + q[1:-1]
        check(len(set(inner)) == len(inner) and r not in inner and t not in inner and len(inner) > 0, "paths to %s are not disjoint", t)
        tot = sum(G[x][y]["cost"] for w in (p, q) for x, y in zip(w, w[1:]))
        check(cm[t] == tot, "cost map of %s is %s, its paths cost %s", t, cm[t], tot)
        if not case["chords"]:
            check(tot == sum(es.values()), "paths to %s cost %s on a cycle of cost %s", t, tot, sum(es.values()))
    return ["long"]


def made_digraph(n, seed, dense, w):
    """A large directed graph (no pair of opposite edges) made by a pseudo-random generator."""
    import random
    r = random.Random(seed)
    g = gen.make_large(n, seed, dense, r.choice([0, 0, 5]))
    es, flip = [], r.choice([0.1, 0.5])
    pos = {v: i for i, v in enumerate(r.sample([v for v, _ in g["v"]], n))}
    for u, v, c in g["e"]:
        u, v = (u, v) if pos[u] < pos[v] else (v, u)
        es.append([v, u, c] if r.random() < flip else [u, v, c])
    s = min(pos, key=pos.get) if r.random() < 0.7 else g["root"]
    return {"v": [v for v, _ in g["v"]], "e": es, "s": s, "w": w}


def run_large(case):
    """The maps of a large undirected graph against minimum cost flows in the graph with split vertices."""
    G = gen.to_nx(case)
    a = gen.adj(case)
    root = case["root"]
    big = T.biggest_vertex_id_from_graph(G)
    tree = sut(S.suurballe_shortest_vertex_disjoint_paths, T.asymmetric_from_undirected(G), T.split_head(big, root), weight="cost")
    pm = sut(P.undirected_vertex_disjoint_paths_map, tree, big)
    cm = sut(P.vertex_disjoint_cost_map, tree, big)
    arcs = [((v, 0), (v, 1), 0) for v in a] + [((u, 1), (v, 0), c) for u in a for v, c in a[u].items()]
    want = {t: c for (t, h), c in oracle.min_cost_two_flow([(v, h) for v in a for h in (0, 1)], arcs, (root, 1)).items() if h == 0 and t != root}
    check(set(pm) == set(want) and set(cm) == set(want), "vertices with disjoint paths: %s and %s, on a cycle with the root: %s",
          sorted(pm), sorted(cm), sorted(want))
    for t in want:
        p, q = list(pm[t][0]), list(pm[t][1])
        for w in (p, q):
            check(len(w) > 1 and w[0] == root and w[-1] == t and all(y in a[x] for x, y in zip(w, w[1:])), "path to %s is %s", t, w)
        inner = p[1:-1] + q[1:-1]
        check(inner and len(set(inner)) == len(inner) and root not in inner and t not in inner, "paths %s and %s to %s are not disjoint", p, q, t)
        tot = oracle.walk_cost(a, p) + oracle.walk_cost(a, q)
        check(cm[t] == want[t] == tot, "to %s: cost map %s, cost of the paths %s, minimum %s", t, cm[t], tot, want[t])
    return ["many"] if len(want) > 4 else None


PARTS = [
    Part("large", gen.rooted(gen.large(15, 60, dense=3, few=(0, 3, 5, 20))), run_large, 250, 6000, budget={"quick": 12}),
    Part("large-directed", st.builds(made_digraph, st.integers(15, 60), st.integers(0, 10 ** 9), st.integers(0, 3), st.sampled_from(["weight", "cost"])),
         run_directed, 250, 6000, budget={"quick": 12}),
    Part("long", longs(), run_long, 32, 400, budget={"quick": 25}),
    Part("directed", digraphs(), run_directed, 32000, 400000, budget={"quick": 25}),
    Part("undirected", st.builds(lambda g, k: dict(g, other=k), gen.graphs(2, 9, costs=("small", "pos", "mid", "big", "unit", "huge")),
                                 st.one_of(st.just(0), st.integers(1, 20))), run_undirected, 12000, 200000, budget={"quick": 25}),
    Part("orders", trees(), run_orders, 1200, 20000),
]
