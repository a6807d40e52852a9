"""Every inequality given to SCIP against every tour."""
import time

import networkx as nx
import numpy as np
from hypothesis import strategies as st

import gen
import milp
import oracle
import solve
from harness import Part, check

PROPERTY = "C02"
HX = ()
RULE = ("solves of instances of 3-8 vertices under all settings with every row and linear constraint the repository adds recorded; "
        "each is evaluated on every simple cycle through the root whose prize reaches the quota (9-30 vertices: on known tours and the "
        "one another solver finds to violate it most). Non-trivial: a subtour, cycle "
        "cover or cost cover inequality was added and a prize-feasible tour exists.")
ASSUMPTIONS = ["the recorder (shim/src/spy.cpp) sees the additions made through SCIPaddRow, SCIPaddPoolCut and SCIPaddCons"]
setup = solve.setup
EPS = 1e-6


def tours_of(inst):
    """Every prize-feasible tour of the recorded model as (cost, {edge or loop}, vertices)."""
    n = len(inst["prize"])
    adj = {v: {} for v in range(n)}
    for u, v, c in inst["edges"]:
        if u != v:
            adj[u][v] = adj[v][u] = c
    out = []
    for t in oracle.all_tours(adj, inst["root"]):
        vs = t[:-1]
        if sum(inst["prize"][v] for v in vs) >= inst["quota"]:
            x = {(min(t[i], t[i + 1]), max(t[i], t[i + 1])) for i in range(len(t) - 1)} | {(v, v) for v in vs}
            out.append((oracle.walk_cost(adj, t), x, t))
    return out


def compile_terms(ev):
    d = {}
    for u, v, c in ev["terms"]:
        k = (min(u, v), max(u, v))
        d[k] = d.get(k, 0.0) + c
    return d


def kind_of(ev):
    """cost: an inequality that may cut tours that are not cheaper than the incumbent."""
    if ev["kind"] == "row":
        return "cycle" if ev["name"].startswith("Cycle") else "sec"
    if "handler" in ev and not ev["terms"]:
        return "none"
    d = compile_terms(ev)
    if ev["name"].startswith("cost") or (d and all(c == 1 for c in d.values()) and ev["rhs"] == len(d) - 1):
        return "cost"
    return "model"


def isomorphism(inst, g):
    """{vertex of the caller: vertex of the model}: the order in which the edges mention them, or whatever fits."""
    G = gen.to_nx(g)
    H = nx.Graph([(u, v, {"cost": c}) for u, v, c in inst["edges"] if u != v])
    for v in H:
        H.nodes[v]["prize"] = inst["prize"][v]
    names = {}
    for x in [y for e in G.edges() for y in e]:
        names.setdefault(x, len(names))
    ok = {(frozenset((names[u], names[v])), c) for u, v, c in G.edges(data="cost")} == {(frozenset((u, v)), c) for u, v, c in H.edges(data="cost")} \
        and all(inst["prize"][names[v]] == G.nodes[v]["prize"] for v in names)
    if not ok:
        G.remove_nodes_from(list(nx.isolates(G)))
        m = nx.algorithms.isomorphism.GraphMatcher(G, H, node_match=lambda a, b: a["prize"] == b["prize"], edge_match=lambda a, b: a["cost"] == b["cost"])
        names = next(m.isomorphisms_iter(), None)
    return names


def some_tours(inst, g, case):
    """Some prize-feasible tours of a model too big for all of them: the known one, the best found with other settings, and
    those made from them by leaving a vertex out, replacing or adding one, or turning a stretch around."""
    adj = {v: {} for v in range(len(inst["prize"]))}
    for u, v, c in inst["edges"]:
        if u != v:
            adj[u][v] = adj[v][u] = c
    names = isomorphism(inst, g)
    if names is None:
        return []
    todo = [[names[v] for v in g["tour"][:-1]]]
    r = solve.solve(g, case["other"], params={"timing/clocktype": 1}, time_limit=3.0)
    if r.get("edges"):
        H = {}
        for u, v in r["edges"]:
            H.setdefault(u, []).append(v)
            H.setdefault(v, []).append(u)
        t = [g["root"]]
        while True:
            nxt = [x for x in H[t[-1]] if x not in t]
            if not nxt:
                break
            t.append(nxt[0])
        todo.append([names[v] for v in t])
    seen, out = set(), []
    while todo and len(out) < 400:
        b = todo.pop(0)
        key = frozenset(frozenset((b[i], b[(i + 1) % len(b)])) for i in range(len(b)))
        if key in seen:
            continue
        seen.add(key)
        if len(b) < 3 or any(b[(i + 1) % len(b)] not in adj[b[i]] for i in range(len(b))) or inst["root"] not in b \
                or sum(inst["prize"][v] for v in b) < inst["quota"]:
            continue
        t = b + b[:1]
        out.append((oracle.walk_cost(adj, t), {(min(t[i], t[i + 1]), max(t[i], t[i + 1])) for i in range(len(b))} | {(v, v) for v in b}, t))
        k = len(b)
        for i in range(k):
            if b[i] != inst["root"]:
                todo.append(b[:i] + b[i + 1:])
                for v in adj[b[i - 1]]:
                    if v not in b and v in adj[b[(i + 1) % k]]:
                        todo.append(b[:i] + [v] + b[i + 1:])
            for v in adj[b[i - 1]]:
                if v not in b and v in adj[b[i]]:
                    todo.append(b[:i] + [v] + b[i:])
            for j in range(i + 2, k):  # two-opt
                if b[j - 1] in adj[b[i - 1]] and b[j] in adj[b[i]]:
                    todo.append(b[:i] + b[i:j][::-1] + b[j:])
    return out


def run(case):
    g, s = case["g"], case["s"]
    if not gen.adj(g)[g["root"]]:
        return None
    h = solve.heuristic_edges(g, case["heur"])
    r = solve.solve(g, s, h, spy=True, params={"timing/clocktype": 1}, time_limit=10.0)
    check("exc" not in r, "solve raised %r", r.get("exc"))
    inst = [e for e in r["spy"] if e["kind"] == "instance"]
    check(len(inst) == 1, "%s solves were started", len(inst))
    inst = inst[0]
    # the model must be the caller's instance, otherwise validity for it means nothing
    check(sorted(p for _, p in g["v"]) == sorted(inst["prize"]) if not _isolated(g) else True,
          "prizes of the model %s, of the caller %s", inst["prize"], g["v"])
    check(inst["quota"] == g["quota"], "quota of the model is %s", inst["quota"])
    check(sorted(c for _, _, c in g["e"]) == sorted(c for u, v, c in inst["edges"] if u != v), "costs of the model are %s", inst["edges"])
    tours = some_tours(inst, g, case) if "other" in case else tours_of(inst)
    if not tours:
        return None
    edges = sorted({(min(u, v), max(u, v)) for u, v, _ in inst["edges"]})
    X = np.array([[1.0 if e in x else 0.0 for e in edges] for _, x, _ in tours])
    costs = np.array([c for c, _, _ in tours], dtype=float)
    hcost = None
    if h:
        adj = gen.adj(g)
        prize = dict(map(tuple, g["v"]))
        hcost = sum(adj[u][v] for u, v in h)
        if sum(prize[v] for v in {x for e in h for x in e}) < g["quota"]:
            hcost = None
    tags = set()
    spent = 0.0
    madj = {v: {} for v in range(len(inst["prize"]))}
    for u, v, c in inst["edges"]:
        if u != v:
            madj[u][v] = madj[v][u] = c
    for ev in r["spy"]:
        if ev["kind"] not in ("row", "cons") or not ev["terms"] or ev.get("local"):
            continue
        k = kind_of(ev)
        d = compile_terms(ev)
        if (-1, -1) in d:
            continue
        lhs = -float("inf") if ev["lhs"] is None or ev["lhs"] <= -1e19 else ev["lhs"]
        rhs = float("inf") if ev["rhs"] is None or ev["rhs"] >= 1e19 else ev["rhs"]
        bound = float("inf")
        if k == "cost":
            bound = ev["incumbent"] if ev["incumbent"] is not None else float("inf")
            if hcost is not None:
                bound = min(bound, hcost)
        a = X @ np.array([d.get(e, 0.0) for e in edges])
        bad = (a < lhs - EPS) | (a > rhs + EPS)
        for i in np.flatnonzero(bad & (costs < bound - EPS))[:1]:
            c, x, t = tours[i]
            check(False, "the %s inequality %s (lhs %s, rhs %s, terms %s, best known cost %s) cuts off the tour %s of cost %s",
                  k, ev["name"], ev["lhs"], ev["rhs"], ev["terms"], ev["incumbent"] if k == "cost" else "-", t, c)
        if case.get("worst") and k != "model" and spent < 4.0:
            # look for the tour that violates the inequality most
            t0 = time.process_time()
            for side, sign in ((rhs, -1.0), (lhs, 1.0)):
                if abs(side) == float("inf"):
                    continue
                w = milp.witness(madj, dict(enumerate(inst["prize"])), inst["root"], inst["quota"], 1.0,
                                 {e: sign * x for e, x in d.items()}, bound if bound < float("inf") else None)
                if w is None:
                    continue
                c, t = w
                z = sum(d.get((min(u, v), max(u, v)), 0.0) for u, v in zip(t, t[1:])) + sum(d.get((v, v), 0.0) for v in t[:-1])
                check(lhs - EPS <= z <= rhs + EPS, "the %s inequality %s (lhs %s, rhs %s, terms %s, best known cost %s) cuts off the tour %s of cost %s",
                      k, ev["name"], ev["lhs"], ev["rhs"], ev["terms"], ev["incumbent"] if k == "cost" else "-", t, c)
                tags.add("worst " + k)
            spent += time.process_time() - t0
        if k != "model" and tours:
            tags.add(k)
            if k == "cost" and bad.any():
                tags.add("cost cover that cuts off a dearer tour")
    return sorted(tags)


def _isolated(g):
    used = {x for e in g["e"] for x in e[:2]}
    return any(v not in used for v, _ in g["v"])


@st.composite
def cases(draw, nmax=8):
    return {"g": draw(solve.instances(nmax=nmax)), "s": draw(solve.settings()), "heur": draw(solve.warm_starts())}


@st.composite
def cover_cases(draw):
    """Far away vertices and small quotas: the cover separators have something to do."""
    g = draw(st.one_of(solve.clusters(nmax=8), gen.graphs(nmin=4, nmax=8, isolated=False, costs=("pos", "mid"), shapes=("sparse", "cycle", "wheel", "twoblocks", "dense"))))
    tot = sum(p for _, p in g["v"])
    g = dict(g, quota=draw(st.one_of(st.integers(1, max(1, tot // 3)), st.integers(0, tot))))
    base = draw(st.sampled_from([0, 0, 0, 0, 40000, 10 ** 8, 4 * 10 ** 8]))  # tours whose costs differ in their last digits only
    if base:
        g = dict(g, e=[[u, v, c + base * (g["root"] in (u, v))] for u, v, c in g["e"]])
    s = draw(solve.settings(cost_cover_disjoint_paths=True, cost_cover_shortest_path=True, cycle_cover=True))
    s["cost_cover_disjoint_paths"] = draw(st.booleans())
    return {"g": g, "s": s, "heur": draw(solve.warm_starts())}


@st.composite
def large(draw):
    return {"g": draw(gen.large(14, 30, dense=3)), "s": draw(solve.settings()), "heur": ["none"], "other": draw(solve.settings(sec_disjoint_tour=True, sec_maxflow_mincut=True,
            sec_sepafreq=1, cost_cover_disjoint_paths=False))}


@st.composite
def worst(draw):
    g = draw(st.one_of(solve.clusters(nmin=9, nmax=13), solve.fractional(nmin=9, nmax=13), gen.large(10, 14, dense=3)))
    s = draw(solve.settings(sec_disjoint_tour=True, cost_cover_disjoint_paths=False))
    return {"g": dict(g, tour=g.get("tour") or [g["root"]]), "s": s, "heur": ["none"], "worst": 1,
            "other": draw(solve.settings(sec_disjoint_tour=True, sec_maxflow_mincut=True, sec_sepafreq=1, cost_cover_disjoint_paths=False))}


PARTS = [Part("worst", worst(), run, 240, 6000, budget={"quick": 14}, case_cpu=120),
         Part("large", large(), run, 100, 3000, budget={"quick": 12}, case_cpu=120),
         Part("solve", cases(), run, 1200, 30000, budget={"quick": 18}),
         Part("covers", cover_cases(), run, 900, 30000, budget={"quick": 15})]
