"""Preprocessing keeps exactly what tours through the root can use."""
from hypothesis import strategies as st

import gen
import oracle
import repo
from harness import Part, check, sut

PROPERTY = "C14"
HX = None
RULE = ("Random graphs of 1-12 vertices with pendant trees, bridges, several blocks at the root, several components and self loops, "
        "optionally frozen or nested subgraph views. Non-trivial: at least one vertex has to be removed and at least two other than the root stay.")


def setup():
    global P, run_preprocessing, vial
    repo.stub()
    import pctsp.preprocessing as P
    from pctsp import vial
    from pctsp.lab import run_preprocessing


@st.composite
def case_of(draw):
    loops = draw(st.booleans())
    g = draw(gen.graphs(1, 9, quota=False, loops=loops))
    nxt = max(v for v, _ in g["v"]) + 1
    for _ in range(draw(st.integers(0, 3))):  # pendant paths, ears and blocks hanging off a vertex
        at = g["v"][draw(st.integers(0, len(g["v"]) - 1))][0]
        kind = draw(st.sampled_from(["leaf", "tri", "pathtri", "iso"]))
        k = {"leaf": 1, "tri": 2, "pathtri": 3, "iso": 3}[kind]
        new = list(range(nxt, nxt + k))
        nxt += k
        g["v"] += [[x, draw(st.integers(0, 3))] for x in new]
        if kind == "leaf":
            es = [(at, new[0])]
        elif kind == "tri":
            es = [(at, new[0]), (new[0], new[1]), (new[1], at)]
        elif kind == "pathtri":
            es = [(at, new[0]), (new[0], new[1]), (new[1], new[2]), (new[2], new[0])]
        else:
            es = [(new[0], new[1]), (new[1], new[2]), (new[2], new[0])]
        g["e"] += [[u, v, draw(st.integers(0, 9))] for u, v in es]
    g["view"] = draw(st.sampled_from(["plain", "frozen", "view"]))
    g["steps"] = [draw(st.booleans()) for _ in range(3)]
    return g


def build(case):
    import networkx as nx
    G = gen.to_nx(case)
    if case["view"] == "frozen":
        nx.freeze(G)
    elif case["view"] == "view":
        H = G.copy()
        H.add_edge(-5, -6, cost=1)
        G = H.subgraph(list(G.nodes()))
    return G


def snap(G):
    return ({v: dict(d) for v, d in G.nodes(data=True)}, {frozenset((u, v)): dict(d) for u, v, d in G.edges(data=True)})


def induced(s, keep):
    return ({v: d for v, d in s[0].items() if v in keep}, {e: d for e, d in s[1].items() if e <= keep})


def core(a, full):
    keep = set(a)
    while True:
        bad = {v for v in keep if len([w for w in a[v] if w in keep]) <= 1}
        if not bad:
            return keep
        keep -= bad


def component(a, r):
    seen, st_ = {r}, [r]
    while st_:
        for y in a[st_.pop()]:
            if y not in seen:
                seen.add(y)
                st_.append(y)
    return seen


def cyclemates(a, r):
    """Vertices on a simple cycle with r: v != r such that two paths from r to v share only r and v (max flow)."""
    import networkx as nx
    D = nx.DiGraph()
    for u in a:
        D.add_edge((u, 0), (u, 1), capacity=2 if u == r else 1)
        for v in a[u]:
            D.add_edge((u, 1), (v, 0), capacity=1)
    keep = {r}
    for v in a:
        if v != r:
            D[(v, 0)][(v, 1)]["capacity"] = 2
            # adjacent r-v: the edge can be used once in this direction only
            if nx.maximum_flow_value(D, (r, 1), (v, 0)) >= 2:
                keep.add(v)
            D[(v, 0)][(v, 1)]["capacity"] = 1
    return keep


def run(case):
    G = build(case)
    before = snap(G)
    a = gen.adj(case)
    r = case["root"]
    want = {"leaves": core(a, None), "component": component(a, r), "blocks": cyclemates(a, r)}
    got = {"leaves": sut(P.remove_leaves, G), "component": sut(P.remove_components_disconnected_from_vertex, G, r),
           "blocks": sut(P.remove_one_connected_components, G, r)}
    for k in want:
        s = snap(got[k])
        check(set(s[0]) == want[k], "%s: kept %s, should keep %s", k, sorted(s[0]), sorted(want[k]))
        check(s == induced(before, want[k]), "%s: edges, costs or prizes differ from the induced subgraph", k)
        check(not got[k].is_directed() and not got[k].is_multigraph(), "%s: not an undirected graph", k)
    # the result is the caller's to change
    if not __import__("networkx").is_frozen(got["blocks"]):
        got["blocks"].nodes[r]["prize"] = 10 ** 6
        got["blocks"].remove_nodes_from(list(got["blocks"].nodes()))
    check(snap(G) == before, "the caller's graph was changed")
    trivial = all(len(w) == len(a) for w in want.values())
    return None if trivial or len(want["blocks"]) < 3 else ["blocks" if want["blocks"] != want["leaves"] & want["component"] else "same"]


def run_steps(case):
    """run_preprocessing with any combination of its steps: what is left, and every tour through the root survives."""
    import logging
    import uuid
    G = build(case)
    before = snap(G)
    a = gen.adj(case)
    r = case["root"]
    dis, lea, one = case["steps"]
    V = vial.Vial(uuid=uuid.UUID(int=1), data_config=vial.DataConfig(dataset="tspwplib", cost_function="EUC_2D", graph_name="eil51", quota=1, root=r),
                  model_params=vial.ModelParams(algorithm="solve_pctsp", is_exact=True, is_heuristic=False, is_relaxation=False),
                  preprocessing=vial.Preprocessing(disjoint_path_cutoff=False, remove_leaves=lea, remove_disconnected_components=dis,
                                                   remove_one_connected_components=one, shortest_path_cutoff=False))
    keep = set(a)

    def sub(k):
        return {u: {v: c for v, c in a[u].items() if v in k} for u in k}
    if dis:
        keep = component(a, r)
    if lea:
        keep = core(sub(keep), None)
    if one and r not in keep:
        return None  # no tour through the root at all
    if one:
        keep = cyclemates(sub(keep), r)
    log = logging.getLogger("vp-quiet")
    log.setLevel(logging.CRITICAL)
    out = sut(run_preprocessing, G, V, logger=log)
    check(snap(out) == induced(before, keep), "steps %s keep %s, should keep %s", case["steps"], sorted(out.nodes()), sorted(keep))
    check(snap(G) == before, "the caller's graph was changed")
    if r in keep and len(a) <= 9:
        was, now = oracle.all_tours(a, r), oracle.all_tours(sub(keep), r)
        check(sorted(was) == sorted(now), "tours through the root were lost")
    return ["%d%d%d" % (dis, lea, one)] if len(keep) < len(a) and len(keep) > 2 else None


@st.composite
def deep(draw):
    return {"ring": draw(st.integers(3, 6)), "tail": draw(st.integers(1100, 1300)), "arm": draw(st.integers(0, 50))}


def run_deep(case):
    """A long pendant path at a small cycle, as in a road network."""
    import networkx as nx
    k, n = case["ring"], case["ring"] + case["tail"]
    G = nx.cycle_graph(k)
    nx.add_path(G, [0] + list(range(k, n)))
    nx.add_path(G, [1] + list(range(n, n + case["arm"])))
    nx.set_edge_attributes(G, 1, "cost")
    for what, H in (("leaves", sut(P.remove_leaves, G)), ("blocks", sut(P.remove_one_connected_components, G, 0))):
        check(set(H) == set(range(k)) and H.number_of_edges() == k, "%s: %s vertices kept of a cycle of %s", what, len(H), k)
    check(len(G) == n + case["arm"], "the caller's graph was changed")
    return True


large = st.builds(lambda g, v, s: dict(g, view=v, steps=s), gen.rooted(gen.large(18, 40, dense=2, few=(0, 3, 5, 9))), st.sampled_from(["plain", "frozen", "view"]),
                  st.lists(st.booleans(), min_size=3, max_size=3))
PARTS = [Part("large", large, run, 120, 3000, budget={"quick": 10}), Part("deep", deep(), run_deep, 16, 96), Part("each", case_of(), run, 8000, 150000, budget={"quick": 30}), Part("steps", case_of(), run_steps, 8000, 150000, budget={"quick": 25})]
