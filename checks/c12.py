"""Tours from disjoint paths."""
from hypothesis import strategies as st

import gen
import oracle
import repo
from harness import Part, check, sut

PROPERTY = "C12"
HX = None
RULE = ("maps: hand-made path maps (simple, overlapping and repeated vertices, ties, several shapes); real: cheapest pairs found "
        "by the reference on random graphs. Non-trivial: at least two candidate tours of which some are infeasible, not simple "
        "or not the best; for pairs: both valid and rejected pairs are counted.")


def setup():
    global H
    repo.stub()
    import pctsp.algorithms.heuristic as H


# ------------------------------------------------------------------ one pair
@st.composite
def path_pair(draw):
    k = draw(st.integers(0, 8))
    v = draw(st.lists(st.integers(0, 15), min_size=4, max_size=10, unique=True))
    kind = draw(st.sampled_from(["ok", "ok", "ok", "overlap", "first", "last", "short1", "short2", "any"]))
    cut = draw(st.integers(0, len(v) - 2))
    s, t, mid = v[0], v[1], v[2:]
    a, b = mid[:cut], mid[cut:]
    p, q = [s] + a + [t], [s] + b + [t]
    if kind == "overlap" and a and b:
        q = [s] + b + [a[0]] + [t]
    elif kind == "first":
        q[0] = 99
    elif kind == "last":
        q[-1] = 98
    elif kind == "short1":
        p = p[:draw(st.integers(0, 1))]
    elif kind == "short2":
        q = q[:draw(st.integers(0, 1))]
    elif kind == "any":
        p, q = draw(st.lists(st.integers(0, 3), max_size=4)), draw(st.lists(st.integers(0, 3), max_size=4))
    return {"p": p, "q": q}


def run_pair(case):
    p, q = list(case["p"]), list(case["q"])
    bad = len(p) <= 1 or len(q) <= 1 or p[0] != q[0] or p[-1] != q[-1]
    try:
        t = sut(H.tour_from_vertex_disjoint_paths, (p, q), allowed=(ValueError,))
    except ValueError:
        check(bad, "ValueError for %s", case)
        return ["rejected"]
    check(not bad, "no ValueError for %s but %s", case, t)
    check(list(t) == case["p"] + list(reversed(case["q"]))[1:], "tour %s of %s", t, case)
    check(p == case["p"] and q == case["q"], "the paths were changed to %s %s", p, q)
    t.append(-1)
    check(p == case["p"] and q == case["q"], "the tour shares memory with the paths")
    return ["accepted"]


# ------------------------------------------------------------------ maps
@st.composite
def maps(draw):
    n = draw(st.integers(3, 9))
    root = draw(st.integers(0, 30))
    others = draw(st.lists(st.integers(0, 30).filter(lambda x: x != root), min_size=n - 1, max_size=n - 1, unique=True))
    prize = {root: draw(st.integers(0, 5))}
    for v in others:
        prize[v] = draw(st.integers(0, 6))
    m = {}
    for v in draw(st.permutations(others))[:draw(st.integers(1, n - 1))]:
        rest = [w for w in others if w != v]
        rest = draw(st.permutations(rest))[:draw(st.integers(1, len(rest)))] if rest else []
        k = draw(st.integers(0, len(rest)))
        a, b = [root] + rest[:k] + [v], [root] + rest[k:] + [v]
        if not rest:
            continue
        m[v] = [a, b]
    if draw(st.integers(0, 3)) == 0 and len(others) >= 2:  # the root's own entry: two closed walks
        o = draw(st.permutations(others))
        k = draw(st.integers(1, len(o) - 1))
        m[root] = [[root] + o[:k] + [root], [root] + o[k:] + [root]]
    if not m:
        m[others[0]] = [[root, others[1], others[0]], [root, others[0]]]
    keys = draw(st.permutations(sorted(m)))
    base = draw(st.sampled_from([0, 0, 0, 10 ** 6, 2 ** 31 - 6, 10 ** 13]))
    cost = {v: base + draw(st.integers(0, 12)) for v in keys}
    tot = sum(prize.values())
    return {"prize": [[k, prize[k]] for k in sorted(prize)], "map": [[v, m[v][0], m[v][1]] for v in keys],
            "cost": [[v, cost[v]] for v in keys], "quota": draw(st.one_of(st.integers(0, tot + 1), st.integers(max(0, tot - 5), tot + 1))), "root": root}


@st.composite
def real(draw):
    g = draw(gen.graphs(3, 8, costs=("small", "pos", "mid", "big", "unit", "huge")))
    a = gen.adj(g)
    best = {}
    for fs, (c, t) in oracle.tours_by_set(a, g["root"]).items():
        for v in fs:
            if v != g["root"] and (v not in best or c < best[v][0]):
                i = t.index(v)
                best[v] = (c, list(t[:i + 1]), list(reversed(t[i:])))
    if not best:
        return {"prize": [[0, 1], [1, 1], [2, 1]], "map": [[1, [0, 1], [0, 2, 1]]], "cost": [[1, 3]], "quota": 1, "root": 0}
    ks = draw(st.permutations(sorted(best)))
    return {"prize": g["v"], "map": [[v, best[v][1], best[v][2]] for v in ks], "cost": [[v, best[v][0]] for v in ks],
            "quota": g["quota"], "root": g["root"]}


def decode(case):
    return ({k: v for k, v in case["prize"]}, {v: (list(p), list(q)) for v, p, q in case["map"]}, {v: c for v, c in case["cost"]})


def run_map(case):
    prize, m, cost = decode(case)
    quota = case["quota"]
    cands = {}
    for v, (p, q) in m.items():
        t = tuple(p + q[::-1][1:])
        cands[v] = (t, sum(prize[x] for x in set(t)), len(set(t)) == len(t) - 1)
    feas = [v for v in m if cands[v][2] and cands[v][1] >= quota]
    tour = list(sut(H.suurballes_heuristic, prize, quota, cost, m))
    if feas:
        lo = min(cost[v] for v in feas)
        check(tuple(tour) in [cands[v][0] for v in feas if cost[v] == lo],
              "Suurballe's heuristic gives %s, the cheapest feasible candidates are %s", tour,
              [cands[v][0] for v in feas if cost[v] == lo])
    else:
        check(tour == [], "no candidate is feasible but Suurballe's heuristic gives %s", tour)
    init = list(sut(H.suurballes_tour_initialization, prize, quota, cost, m))
    if feas:
        check(tuple(init) in [cands[v][0] for v in feas if cost[v] == lo], "initial tour %s is not a cheapest feasible one", init)
    else:
        simple = [v for v in m if cands[v][2]]
        top = max([cands[v][1] for v in simple] or [0])
        ok = [cands[v][0] for v in simple if cands[v][1] == top]
        check(tuple(init) in ok or (init == [] and top == 0), "initial tour %s, the tours of largest prize are %s", init, ok)
    p2, m2, c2 = decode(case)
    check(prize == p2 and m == m2 and cost == c2, "the maps were changed")
    return [("feasible" if feas else "infeasible")] if len({cands[v][1:] for v in m}) > 1 else None


@st.composite
def rnd(draw):
    c = draw(st.one_of(maps(), real()))
    kind = draw(st.sampled_from(["plain", "plain", "short", "allshort", "empty", "rootonly", "withroot"]))
    root = c["root"]
    if kind == "empty":
        c["map"] = []
    elif kind == "rootonly":
        c["map"] = [[root, [root, 1000, root], [root, 1001, root]]]
    elif kind in ("short", "allshort"):
        for k, e in enumerate(c["map"]):
            if kind == "allshort" or draw(st.booleans()):
                c["map"][k] = draw(st.sampled_from([[e[0], [root, e[0]], [root, e[0]]], [e[0], [], []]]))
    elif kind == "withroot" and root not in [e[0] for e in c["map"]]:
        c["map"].append([root, [root, 1000, root], [root, 1001, root]])
    c["seed"] = draw(st.integers(0, 40))
    return c


def run_random(case):
    _, m, _ = decode(case)
    root = case["root"]
    good = [p + q[::-1][1:] for v, (p, q) in m.items() if v != root and len(p) + len(q) >= 5]
    try:
        t = list(sut(H.random_tour_from_disjoint_paths_map, m, root, seed=case["seed"], allowed=(ValueError,)))
    except ValueError:
        check(not good, "ValueError although %s are tours", good)
        return ["refused"]
    check(t in good, "random tour %s is not one of %s", t, good)
    for _ in range(2):
        t2 = list(sut(H.random_tour_from_disjoint_paths_map, decode(case)[1], root, seed=case["seed"]))
        check(t2 == t, "seed %s gives %s and %s", case["seed"], t, t2)
    check(m == decode(case)[1], "the map was changed")
    return ["tour"] if len(m) > 1 else None


@st.composite
def spread(draw):
    k = draw(st.integers(3, 6))
    return {"k": k, "s0": draw(st.integers(0, 1000))}


def run_spread(case):
    """Over 60 seeds every one of a few candidates is chosen at least once (the chance of missing one is < 1e-4)."""
    m = {v: ([0, 10 + v, v], [0, 20 + v, v]) for v in range(1, case["k"] + 1)}
    seen = {tuple(sut(H.random_tour_from_disjoint_paths_map, m, 0, seed=case["s0"] + i)) for i in range(120)}
    check(len(seen) == case["k"], "120 seeds choose only %s of %s tours", len(seen), case["k"])
    return True


PARTS = [Part("pairs", path_pair(), run_pair, 6000, 50000), Part("maps", maps(), run_map, 12000, 300000, budget={"quick": 25}),
         Part("real", real(), run_map, 4000, 80000, budget={"quick": 20}), Part("random", rnd(), run_random, 8000, 100000, budget={"quick": 20}),
         Part("spread", spread(), run_spread, 200, 2000)]
