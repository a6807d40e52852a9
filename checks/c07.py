"""Collapse against a reference that tries every shortcut."""
import itertools

import networkx as nx

import gen
import oracle
import repo
from harness import Part, check, sut

PROPERTY = "C07"
HX = ()
RULE = ("graphs of 4-11 vertices with a known tour and a quota about its prize, both collapse methods, against the cheapest result of "
        "replacing one stretch of the tour. Non-trivial: the collapsed tour is cheaper than the input, or the input is below the quota.")


def setup():
    global A
    repo.native()
    import pctsp.algorithms as A


def shortest_paths(adj, s, t, banned):
    """Every cheapest s-t path avoiding banned (a set) as (cost, [paths]); costs may be zero."""
    G = nx.Graph()
    G.add_nodes_from([s, t])
    for u, a in adj.items():
        for v, c in a.items():
            if u not in banned and v not in banned:
                G.add_edge(u, v, w=c)
    if not nx.has_path(G, s, t):
        return None, []
    d = nx.dijkstra_path_length(G, s, t, weight="w")
    # with zero-cost edges, enumerating by simple paths is safe on graphs of this size
    out, dt = [], nx.single_source_dijkstra_path_length(G, t, weight="w")

    def rec(path, c):
        if len(out) > 200:
            return
        u = path[-1]
        if u == t:
            if c == d:
                out.append(list(path))
            return
        for v, a in G[u].items():
            if v not in path and v in dt and c + a["w"] + dt[v] <= d:
                rec(path + [v], c + a["w"])
    rec([s], 0)
    return d, out


def reference(adj, prize, root, quota, tour, paths):
    """(lowest cost possible, highest cost possible) of the collapsed tour: they differ only when ties between shortest
    paths decide whether a shortcut has enough prize."""
    body = tour[:-1]
    k = len(body)
    lo = hi = oracle.walk_cost(adj, tour)
    if sum(prize[v] for v in body) < quota:
        return lo, hi
    for i in range(k):
        p = 0
        part = []
        for j in range(k):
            v = body[(i + j) % k]
            if p + prize[v] >= quota:
                break
            p += prize[v]
            part.append(v)
        else:
            continue
        if not part or root not in part:
            continue
        s, t = part[-1], part[0]
        inner = oracle.walk_cost(adj, part)
        if s != t:
            for u in adj[s]:
                if u in adj[t] and u not in part and p + prize[u] >= quota:
                    lo, hi = min(lo, inner + adj[s][u] + adj[u][t]), min(hi, inner + adj[s][u] + adj[u][t])
        if paths and s != t:
            d, ps = shortest_paths(adj, s, t, set(part) - {s, t})
            ok = [sum(prize[v] for v in q[1:-1]) + p >= quota for q in ps]
            if any(ok):
                lo = min(lo, inner + d)
                if all(ok) and len(ps) <= 200:
                    hi = min(hi, inner + d)
    return lo, hi


def run(case):
    G = gen.to_nx(case)
    adj = gen.adj(case)
    prize = dict(map(tuple, case["v"]))
    tour, root, q = case["tour"], case["root"], case["quota"]
    before = nx.to_dict_of_dicts(G)
    was = oracle.walk_cost(adj, tour)
    p0 = sum(prize[v] for v in tour[:-1])
    tags, got = set(), {}
    for name, paths in (("collapse", False), ("path_collapse", True)):
        t = sut(getattr(A, name), G, list(tour), q, root, logging_level=50)
        check(oracle.is_tour(adj, root, t) is None, "%s gives %s, which is no tour: %s", name, t, oracle.is_tour(adj, root, t))
        p, c = sum(prize[v] for v in t[:-1]), oracle.walk_cost(adj, t)
        check(p >= min(q, p0), "%s gives %s with prize %s; the quota is %s and the input collects %s", name, t, p, q, p0)
        if p0 < q:
            check(t == tour, "%s changed the tour %s, which is below the quota, to %s", name, tour, t)
            tags.add("infeasible input")
        lo, hi = reference(adj, prize, root, q, tour, paths)
        check(c <= hi, "%s gives %s of cost %s; the best single shortcut of %s (cost %s) costs %s", name, t, c, tour, was, hi)
        check(c >= lo, "%s gives %s of cost %s, cheaper than any allowed shortcut of %s (%s)", name, t, c, tour, lo)
        if lo == hi == was:
            check(t == tour, "%s: no shortcut of %s is cheaper, but %s was returned", name, tour, t)
        if c < was:
            tags.add(name)
        got[name] = c
    check(got["path_collapse"] <= got["collapse"], "path_collapse gives cost %s and collapse %s", got["path_collapse"], got["collapse"])
    check(nx.to_dict_of_dicts(G) == before, "the caller's graph was changed")
    if got["path_collapse"] < got["collapse"]:
        tags.add("longer shortcut")
    return sorted(tags)


def run_rotated(case):
    """The tour may be given from any of its vertices; the result still starts at the root."""
    G = gen.to_nx(case)
    adj = gen.adj(case)
    prize = dict(map(tuple, case["v"]))
    body = case["tour"][:-1]
    r = case["turn"] % len(body)
    tour = body[r:] + body[:r] + [body[r]]
    root, q = case["root"], case["quota"]
    tags = []
    p0 = sum(prize[v] for v in body)
    for name, paths in (("collapse", False), ("path_collapse", True)):
        t = sut(getattr(A, name), G, list(tour), q, root, logging_level=50)
        check(oracle.is_tour(adj, root, t) is None, "%s gives %s, which is no tour from the root: %s", name, t, oracle.is_tour(adj, root, t))
        check(sum(prize[v] for v in t[:-1]) >= min(q, p0), "%s of %s gives %s, whose prize is too small", name, tour, t)
        check(oracle.walk_cost(adj, t) <= oracle.walk_cost(adj, tour), "%s of %s gives the dearer %s", name, tour, t)
        if oracle.walk_cost(adj, t) < oracle.walk_cost(adj, tour):
            tags.append("turned " + name)
    return tags


from hypothesis import strategies as st  # noqa: E402


@st.composite
def rotated(draw):
    return dict(draw(gen.toured()), turn=draw(st.integers(0, 11)))


PARTS = [Part("collapse", gen.toured(), run, 9000, 400000, budget={"quick": 16}),
         Part("big", gen.toured(nmin=12, nmax=20), run, 800, 40000, budget={"quick": 10}),
         Part("large", gen.large(), run, 700, 12000, budget={"quick": 10}),
         Part("turned", rotated(), run_rotated, 2000, 60000, budget={"quick": 5})]
