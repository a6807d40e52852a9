"""Cycles through the root from a breadth-first search, random tours of complete graphs."""
import random

from hypothesis import strategies as st

import gen
import oracle
import repo
from harness import Part, check, sut

PROPERTY = "C13"
HX = None
RULE = ("bfs: random graphs of 1-14 vertices with and without self loops, bridges, cut vertices and several components. "
        "Non-trivial: the root has at least two neighbours and the graph is not complete. complete: complete graphs of 3-9 vertices; "
        "non-trivial: the quota needs more than the fewest vertices or cannot be reached.")


def setup():
    global H
    repo.stub()
    import pctsp.algorithms.heuristic as H


@st.composite
def bfs_case(draw):
    g = draw(gen.graphs(1, 14, costs=("unit",), prizes=("one",), quota=False, loops=True))
    # subdivide some edges: long cycles that a breadth-first search meets in the middle
    nxt = max(v for v, _ in g["v"]) + 1
    sub = draw(st.integers(0, 3))
    for _ in range(sub):
        es = [k for k, e in enumerate(g["e"]) if e[0] != e[1]]
        if not es:
            break
        k = es[draw(st.integers(0, len(es) - 1))]
        u, v, c = g["e"].pop(k)
        g["v"].append([nxt, 1])
        g["e"] += [[u, nxt, 1], [nxt, v, 1]]
        nxt += 1
    return g


def make_wide(legs, depth, extra, seed):
    """Trees hanging off the root (many, so that few pairs of them are joined) and a few more edges between their vertices."""
    r = random.Random(seed)
    lab = r.sample(range(10 * legs * depth + 10), legs * depth + 1)
    es, leg = [], []
    for _ in range(legs):
        t = []
        for _ in range(r.randint(1, depth)):
            v = lab[1 + sum(map(len, leg)) + len(t)]
            es.append([lab[0] if not t else r.choice(t) if r.random() < 0.5 else t[-1], v])
            t.append(v)
        leg.append(t)
    vs = [v for t in leg for v in t]
    for _ in range(extra):
        u, v = r.choice(leg[r.randrange(legs)]), r.choice(leg[r.randrange(legs)])
        if u != v and [u, v] not in es and [v, u] not in es:
            es.append([u, v])
    es = [[u, v, 1] if r.random() < 0.5 else [v, u, 1] for u, v in es]
    r.shuffle(es)
    order = [lab[0]] + vs
    r.shuffle(order)
    return {"v": [[v, 1] for v in order], "e": es, "root": lab[0], "quota": 0}


wide = st.builds(make_wide, st.integers(1, 48), st.integers(1, 5), st.integers(0, 3), st.integers(0, 10 ** 9))


def root_on_cycle(a, r):
    comp = {}
    for s in a[r]:
        if s in comp:
            return True
        stack = [s]
        comp[s] = s
        while stack:
            x = stack.pop()
            for y in a[x]:
                if y != r and y not in comp:
                    comp[y] = s
                    stack.append(y)
    return False


def run_bfs(case):
    import networkx as nx
    G = gen.to_nx(case)
    a = gen.adj(case)
    r = case["root"]
    before = (sorted(G.nodes(data=True), key=str), sorted(map(str, G.edges(data=True))))
    cyc = sut(H.find_cycle_from_bfs, G, r)
    cyc = list(cyc)
    want = root_on_cycle(a, r)
    check(bool(cyc) == want, "the root is on a cycle: %s, returned %s", want, cyc)
    if cyc:
        why = oracle.is_tour(a, r, cyc)
        check(why is None, "%s: %s", cyc, why)
    check(before == (sorted(G.nodes(data=True), key=str), sorted(map(str, G.edges(data=True)))), "the graph was changed")
    n = len(a)
    if len(a[r]) >= 2 and len([1 for u in a for v in a[u]]) < n * (n - 1):
        return ["cycle" if want else "none", "long" if len(cyc) > 5 else "short"]
    return None


@st.composite
def complete_case(draw):
    g = draw(gen.graphs(3, 9, shapes=("complete",), prizes=("small", "zero", "pos")))
    g["seed"] = draw(st.integers(0, 100))
    return g


def run_complete(case):
    G = gen.to_nx(case)
    a = gen.adj(case)
    r, q = case["root"], case["quota"]
    prize = {v: p for v, p in case["v"]}
    t = list(sut(H.random_tour_complete_graph, G, r, q, seed=case["seed"]))
    why = oracle.is_tour(a, r, t)
    check(why is None, "tour %s: %s", t, why)
    tot = sum(prize[v] for v in t[:-1])
    check(tot >= q or len(t) == len(a) + 1, "prize %s of %s is below the quota %s with vertices left", tot, t, q)
    check(len(t) == 4 or tot - prize[t[-2]] < q, "the last vertex of %s is not needed for the quota %s", t, q)
    t2 = list(sut(H.random_tour_complete_graph, G, r, q, seed=case["seed"]))
    check(t == t2, "seed %s gives %s and %s", case["seed"], t, t2)
    if case["seed"] == 0:
        check(t == list(sut(H.random_tour_complete_graph, G, r, q)), "the default seed is not zero")
    check(set(G.nodes()) == set(prize), "the graph was changed")
    return ["all" if tot < q else "quota"] if len(t) > 4 or tot < q else None


@st.composite
def large_complete(draw):
    n = draw(st.integers(12, 50))
    g = draw(gen.large(n, n, dense=0))
    r = sum(p for _, p in g["v"])
    g["e"] = [[g["v"][i][0], g["v"][j][0], (i * 7 + j) % 13] for i in range(n) for j in range(i)]
    g["quota"] = draw(st.integers(0, 12)) * r // 11
    g["seed"] = draw(st.integers(0, 100))
    return g


@st.composite
def spread(draw):
    return {"n": draw(st.integers(4, 6)), "s0": draw(st.integers(0, 1000))}


def run_spread(case):
    """The tour of a complete graph varies with the seed: every vertex is chosen first for one of 150 seeds."""
    g = {"v": [[i, 1] for i in range(case["n"])], "e": [[i, j, 1] for i in range(case["n"]) for j in range(i)]}
    G = gen.to_nx(g)
    seen = {list(sut(H.random_tour_complete_graph, G, 0, 2, seed=case["s0"] + i))[1] for i in range(150)}
    check(len(seen) == case["n"] - 1, "150 seeds choose %s of %s first vertices", len(seen), case["n"] - 1)
    return True


PARTS = [Part("bfs", bfs_case(), run_bfs, 24000, 500000, budget={"quick": 35}),
         Part("large", gen.rooted(gen.large(20, 120, few=(0, 3, 5, 20))), run_bfs, 500, 10000, budget={"quick": 8}),
         Part("wide", wide, run_bfs, 3000, 60000, budget={"quick": 8}),
         Part("large-complete", large_complete(), run_complete, 160, 4000, budget={"quick": 8}),
         Part("complete", complete_case(), run_complete, 8000, 100000, budget={"quick": 20}),
         Part("spread", spread(), run_spread, 100, 1000)]
