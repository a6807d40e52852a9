"""Extension by unitary gain against every run the definition allows."""
import networkx as nx
import numpy as np
from hypothesis import strategies as st

import gen
import oracle
import repo
from harness import Part, check, sut

PROPERTY = "C08"
HX = ()
RULE = ("graphs of 4-13 vertices with a known tour; the output must be reachable by insertions each of which has the largest gain "
        "(ties, and gains within float precision, in any order) and must stop where the definition stops. Non-trivial: a vertex was "
        "inserted, or the until-feasible extension stopped below the quota although vertices are left.")
F = np.float32
EPS = 1e-5


def setup():
    global A, L
    repo.native()
    import pctsp.algorithms as A
    import pctsp.libpypctsp as L
    np.seterr(all="ignore")


def gains(adj, prize, tour):
    """[(gain, vertex, position)] of every insertion with a positive gain, and the best gain of every vertex outside."""
    inside = set(tour)
    out, best = [], {}
    for v in adj:
        if v in inside or not adj[v]:
            continue
        best[v] = F(0)
        for i in range(len(tour) - 1):
            u, w = tour[i], tour[i + 1]
            if u in adj[v] and w in adj[v]:
                g = F(prize[v]) / F(adj[v][u] + adj[v][w] - adj[u][w])
                if g > 0:
                    out.append((float(g), v, i))
                    best[v] = max(best[v], g)
    return out, best


def explain(adj, prize, start, end, stop, first_only=None):
    """Is there a run from start to end? stop(tour, gains, average) -> may / must / no."""
    # the average of the best gains of the vertices outside the input tour, in float
    seen = set()
    _, best = gains(adj, prize, start)
    avg = float(sum(float(x) for x in best.values()) / len(best)) if best else 0.0
    todo = [tuple(start)]
    longest = tuple(start)
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if len(seen) > 4000:
            return True, None
        if len(t) > len(longest):
            longest = t
        cand, _ = gains(adj, prize, list(t))
        top = max((g for g, _, _ in cand), default=0.0)
        s = stop(t, top, avg)
        if t == tuple(end):
            if s != "no":
                return True, None
            continue
        if s == "must":
            continue
        pos = {v: i for i, v in enumerate(end[:-1])}
        for g, v, i in cand:
            if (g >= top * (1 - EPS) or g == top) and v in pos:
                u = t[:i + 1] + (v,) + t[i + 1:]
                ps = [pos.get(x, -1) for x in u[:-1]]
                if all(ps[j] < ps[j + 1] for j in range(len(ps) - 1)):
                    todo.append(u)
    return False, longest


def common(adj, prize, root, tour, t, name):
    check(oracle.is_tour(adj, root, t) is None, "%s gives %s, which is no tour: %s", name, t, oracle.is_tour(adj, root, t))
    check([v for v in t[:-1] if v in set(tour)] == tour[:-1], "%s of %s gives %s, which visits the vertices in another order", name, tour, t)
    check(sum(prize[v] for v in t[:-1]) >= sum(prize[v] for v in tour[:-1]), "%s lost prize", name)


def run(case):
    G = gen.to_nx(case)
    adj = gen.adj(case)
    prize = dict(map(tuple, case["v"]))
    tour, root, q = case["tour"], case["root"], case["quota"]
    before = nx.to_dict_of_dicts(G)
    tags = set()

    t = sut(A.extension_unitary_gain, G, list(tour), logging_level=50)
    common(adj, prize, root, tour, t, "extension_unitary_gain")

    def stop(x, top, avg):
        if top <= 0:
            return "must"
        if np.isinf(top) and np.isinf(avg):
            return "must"
        if top > avg * (1 + EPS) + 1e-30:
            return "no"
        return "may" if top >= avg * (1 - EPS) else "must"
    ok, far = explain(adj, prize, tour, t, stop)
    check(ok, "no sequence of insertions of largest gain that ends when the gain is not above the average leads from %s to %s (got as far as %s)", tour, t, far)
    if len(t) > len(tour):
        tags.add("gain")
    if len(t) > len(tour) + 2:
        tags.add("several")

    t = sut(A.extension_until_prize_feasible, G, list(tour), q)
    common(adj, prize, root, tour, t, "extension_until_prize_feasible")

    def stop2(x, top, avg):
        return "must" if sum(prize[v] for v in x[:-1]) >= q or top <= 0 else "no"
    ok, far = explain(adj, prize, tour, t, stop2)
    check(ok, "no sequence of insertions of largest gain until the prize reaches %s leads from %s to %s (got as far as %s)", q, tour, t, far)
    if len(t) > len(tour):
        tags.add("until feasible")
    if sum(prize[v] for v in t[:-1]) < q and len(t) - 1 < len(prize):
        tags.add("stopped below the quota")
    check(nx.to_dict_of_dicts(G) == before, "the caller's graph was changed")
    return sorted(tags)


def run_gain(case):
    p, uw, uv, vw = case
    g = sut(L.unitary_gain, p, uw, uv, vw)
    d = uv + vw - uw
    if d == 0:
        want = float("inf") if p > 0 else float("nan")
    else:
        want = p / d
    check((g != g and want != want) or g == want or abs(g - want) <= EPS * abs(want), "unitary_gain(%s, %s, %s, %s) = %s", p, uw, uv, vw, g)
    return p > 0 and d != 0


c = st.one_of(st.integers(0, 9), st.integers(0, 10 ** 6), st.integers(0, 5 * 10 ** 8))
PARTS = [Part("extend", gen.toured(kmax=5, quota="more"), run, 11000, 300000, budget={"quick": 18}),
         Part("big", gen.toured(nmin=12, nmax=18, kmax=6, quota="more"), run, 1000, 20000, budget={"quick": 12}),
         Part("large", gen.large(few=(0, 4, 8, 20)), run, 900, 20000, budget={"quick": 8}),
         Part("gain", st.tuples(c, c, c, c).map(list), run_gain, 2000, 50000, budget={"quick": 3})]
