"""Results do not depend on the names, the order or the scale of the input."""
from hypothesis import strategies as st

import gen
import oracle
import repo
import solve
from harness import Part, check, sut

PROPERTY = "C06"
HX = ("util",)
FLAVOUR = "rel"
RULE = ("Solver: instances of 3-12 vertices against the same instance with vertices renamed, edges and vertices reordered, endpoints "
        "flipped and all costs multiplied. Heuristics: graphs of 4-10 and 15-60 vertices with a known tour, renamed or scaled by a power of two. Renaming layer: random "
        "vertex and edge lists with arbitrary names. Non-trivial: the names change and (solver) a tour exists, (heuristics) the tour changes, "
        "(renaming) a vertex is in several edges.")
CPU = {"timing/clocktype": 1}


def setup():
    global U, A
    solve.setup(FLAVOUR)
    U = repo.hx("util")
    import pctsp.algorithms as A


def renamed(g, m, eorder=None, vorder=None, flips=0, scale=1):
    vs = [[m[v], p] for v, p in g["v"]]
    es = [[m[u], m[v], c * scale] for u, v, c in g["e"]]
    es = [[v, u, c] if flips >> k & 1 else [u, v, c] for k, (u, v, c) in enumerate(es)]
    if eorder:
        es = [es[i] for i in eorder]
    if vorder:
        vs = [vs[i] for i in vorder]
    h = dict(g, v=vs, e=es, root=m[g["root"]])
    if "tour" in g:
        h["tour"] = [m[v] for v in g["tour"]]
    return h


@st.composite
def names(draw, n):
    return draw(st.one_of(st.permutations(list(range(n))), st.lists(st.integers(0, 10**6), min_size=n, max_size=n, unique=True),
                          st.lists(st.integers(0, 5 * n), min_size=n, max_size=n, unique=True)))


# ---------------------------------------------------------------- solver
@st.composite
def solve_case(draw, nmax=11):
    g = draw(solve.instances(nmax=nmax))
    n, m = len(g["v"]), len(g["e"])
    s = draw(solve.settings(separators="some", sec_sepafreq=1, sec_disjoint_tour=True, cost_cover_disjoint_paths=False))
    return {"g": g, "names": draw(names(n)), "eorder": draw(st.permutations(list(range(m)))), "vorder": draw(st.permutations(list(range(n)))),
            "flips": draw(st.integers(0, (1 << m) - 1)), "scale": draw(st.sampled_from([1, 1, 2, 3, 7, 10, 37])), "s": s,
            "heur": draw(st.sampled_from([["none"], ["none"], ["warm"]]))}


def solve_run(case):
    g = case["g"]
    if not gen.adj(g)[g["root"]]:
        return None
    m = {v: x for (v, _), x in zip(g["v"], case["names"])}
    h = renamed(g, m, case["eorder"], case["vorder"], case["flips"], case["scale"])
    first = solve.solve(g, case["s"], (), params=CPU, time_limit=10.0)
    if first.get("status") == "timelimit":
        return None
    warm = ()
    if case["heur"][0] == "warm" and oracle.is_cycle_edges(first.get("edges") or []) is None:
        w = solve.ordered(first["edges"], g["root"])
        warm = [(m[u], m[v]) for u, v in w]
    got = [first, solve.solve(h, case["s"], warm, params=CPU, time_limit=30.0)]
    if got[1].get("status") == "timelimit":
        return None
    cost = []
    for x, r in zip((g, h), got):
        check("exc" not in r, "solve raised %r", r.get("exc"))
        check(not r["callback_exceptions"], "exception in a callback: %s", r.get("callback_exception"))
        if r["status"] == "infeasible":
            check(not r["edges"], "infeasible but %s returned", r["edges"])
            cost.append(None)
            continue
        check(r["status"] == "optimal", "status %s", r["status"])
        adj = gen.adj(x)
        for u, v in r["edges"]:
            check(u in adj and v in adj[u], "(%s, %s) is not an edge of the caller", u, v)
        bad = oracle.is_cycle_edges(r["edges"])
        check(bad is None, "edges %s: %s", r["edges"], bad)
        vs = {y for e in r["edges"] for y in e}
        check(x["root"] in vs, "the root %s is not in %s", x["root"], r["edges"])
        check(sum(p for v, p in x["v"] if v in vs) >= x["quota"], "prize of %s below the quota", r["edges"])
        cost.append(sum(adj[u][v] for u, v in r["edges"]))
    want = None if cost[0] is None else cost[0] * case["scale"]
    check(cost[1] == want, "cost %s, and %s after renaming, reordering and multiplying the costs by %s", cost[0], cost[1], case["scale"])
    if want is not None and case["names"] != [v for v, _ in g["v"]]:
        return ["scaled" if case["scale"] > 1 else "renamed"] + (["warm"] if warm else [])


# ---------------------------------------------------------------- heuristics
@st.composite
def heur_case(draw):
    g = draw(gen.toured(4, 10, quota=draw(st.sampled_from(["tour", "more"]))))
    return {"g": g, "names": draw(names(len(g["v"]))), "scale": draw(st.sampled_from([1, 2, 4, 64])),
            "vorder": draw(st.permutations(list(range(len(g["v"]))))), "step": draw(st.integers(1, 4)), "depth": draw(st.integers(2, 5))}


def heuristics(case, g, G):
    q, r, t, s, d = g["quota"], g["root"], g["tour"], case["step"], case["depth"]
    s = min(s, len(t) - 2)
    return {
        "collapse": sut(A.collapse, G, list(t), q, r),
        "path_collapse": sut(A.path_collapse, G, list(t), q, r),
        "extension_unitary_gain": sut(A.extension_unitary_gain, G, list(t)),
        "extension_unitary_gain_collapse": sut(A.extension_unitary_gain_collapse, G, list(t), q, r),
        "extension_unitary_loss": sut(A.extension_unitary_loss, G, list(t), r),
        "extension_until_prize_feasible": sut(A.extension_until_prize_feasible, G, list(t), q),
        "path_extension": sut(A.path_extension, G, list(t), r, step_size=s, path_depth_limit=d),
        "path_extension_collapse": sut(A.path_extension_collapse, G, list(t), r, q, s % 2 == 1, step_size=s, path_depth_limit=d),
        "path_extension_until_prize_feasible": sut(A.path_extension_until_prize_feasible, G, list(t), r, q, step_size=s, path_depth_limit=d),
    }


def heur_run(case):
    g = case["g"]
    m = {v: x for (v, _), x in zip(g["v"], case["names"])}
    h = renamed(g, m, scale=case["scale"])
    import networkx as nx
    G = gen.to_nx(g)
    # same order of vertices and edges, other names: built from the order networkx keeps
    H = nx.Graph()
    for v in G.nodes():
        H.add_node(m[v], prize=G.nodes[v]["prize"])
    for u, v, c in g["e"]:
        H.add_edge(m[u], m[v], cost=c * case["scale"])
    a = heuristics(case, g, G)
    b = heuristics(case, h, H)
    changed = False
    for k in a:
        check([m[v] for v in a[k]] == b[k], "%s gives %s, and %s with renamed vertices and costs multiplied by %s, not %s", k, a[k], b[k],
              case["scale"], [m.get(v) for v in a[k]])
        changed |= a[k] != g["tour"]
    return changed and ["scaled" if case["scale"] > 1 else "renamed"]


@st.composite
def heur_large_case(draw):
    g = draw(gen.large(15, 60))
    n = len(g["v"])
    # labels of the renaming come from a drawn seed: a list of sixty would take up the budget of the generator
    import random
    rng = random.Random(draw(st.integers(0, 10 ** 9)))
    return {"g": g, "names": rng.sample(range(draw(st.sampled_from([n, 5 * n, 10 ** 6]))), n), "scale": draw(st.sampled_from([1, 2, 4, 64])),
            "vorder": list(range(n)), "step": draw(st.integers(1, 6)), "depth": draw(st.integers(2, 8))}


# ---------------------------------------------------------------- renaming layer
@st.composite
def rename_case(draw):
    n = draw(st.integers(1, 10))
    lab = draw(st.lists(st.one_of(st.integers(0, 30), st.integers(0, 10**9)), min_size=n, max_size=n, unique=True))
    prs, _ = draw(gen.pairs_of(n))
    es = []
    for i, j in prs:
        if draw(st.booleans()):
            i, j = j, i
        es.append([lab[i], lab[j]])
    if draw(st.booleans()):
        es = [list(e) for e in draw(st.permutations(es))]
    if draw(st.booleans()):
        es += [[lab[i]] * 2 for i in range(n) if draw(st.booleans())]
    k = draw(st.integers(0, n))
    vs = draw(st.permutations(lab))[:k]
    if vs and draw(st.booleans()):
        vs = vs + [vs[0]]
    return {"lab": lab, "e": es, "v": vs, "list": draw(st.booleans()), "c": gen.ints(draw, -9, 100000, len(es)), "p": gen.ints(draw, 0, 50, n),
            "walk": draw(st.lists(st.integers(0, n - 1), max_size=8)), "flips": draw(st.integers(0, (1 << len(es)) - 1)),
            "other": draw(st.integers(0, 40))}


def rename_large_case(n, seed):
    import random
    rng = random.Random(seed)
    lab = rng.sample(range(rng.choice([2 * n, 10 ** 6, 10 ** 9])), n)
    prs = {frozenset(rng.sample(range(n), 2)) for _ in range(rng.choice([n, 3 * n]))}
    es = [[lab[i] for i in rng.sample(sorted(e), 2)] for e in sorted(map(sorted, prs))]
    rng.shuffle(es)
    if rng.random() < 0.5:
        es += [[x] * 2 for x in lab if rng.random() < 0.5]
    vs = rng.sample(lab, rng.randint(0, n))
    return {"lab": lab, "e": es, "v": vs + vs[:rng.randint(0, 1)], "list": rng.random() < 0.5, "c": [rng.randint(-9, 100000) for _ in es], "p": [rng.randint(0, 50) for _ in lab],
            "walk": [rng.randrange(n) for _ in range(rng.randint(0, 2 * n))], "flips": rng.getrandbits(len(es)), "other": rng.choice(lab + [10 ** 9 + 1])}


def rename_large_run(case):
    return rename_run(rename_large_case(case["n"], case["seed"]))


def rename_run(case):
    E = [tuple(e) for e in case["e"]]
    nm, ne, by, old = sut(U.rename, case["v"], E, case["list"])
    known = set(case["v"]) | {x for e in E for x in e}
    new, olds = [x for x, _ in nm], [y for _, y in nm]
    check(len(set(new)) == len(new) == len(set(olds)), "names %s are not one to one", nm)
    check(set(olds) == known, "named %s, expected %s", olds, known)
    check(set(new) == set(range(len(known))), "new names %s of %s vertices", new, len(known))
    to = {y: x for x, y in nm}
    check([tuple(e) for e in ne] == [(to[u], to[v]) for u, v in E] == [tuple(e) for e in by], "edges %s renamed to %s and %s by %s", E, ne, by, nm)
    check([tuple(e) for e in old] == E, "edges %s renamed back to %s", E, old)
    used = {x for e in E for x in e}
    walk = [case["lab"][i] for i in case["walk"]]
    if set(walk) <= used:
        nw, ow = sut(U.rename_walk, E, walk, case["list"])
        check(ow == walk and len(nw) == len(walk), "walk %s renamed to %s and back to %s", walk, nw, ow)
        f = dict(zip(nw, walk))
        check(all(f[x] == y for x, y in zip(nw, walk)) and len(set(nw)) == len(set(walk)), "walk %s renamed to %s", walk, nw)
    else:
        try:
            r = U.rename_walk(E, walk, case["list"])
        except RuntimeError:
            r = None
        check(r is None, "walk %s with unknown vertices renamed to %s", walk, r)
    for x, is_new in ((case["other"], False), (len(used), True), (case["other"], True)):
        bad = x not in used if not is_new else x >= len(used)
        if bad:
            try:
                r = U.look_up(E, x, is_new)
            except RuntimeError:
                r = None
            check(r is None, "unknown vertex %s looked up as %s", x, r)
        else:
            y = sut(U.look_up, E, x, is_new)
            check(sut(U.look_up, E, y, not is_new) == x, "vertex %s looked up as %s, not back", x, y)
    cost = {((v, u) if case["flips"] >> k & 1 else (u, v)): c for k, ((u, v), c) in enumerate(zip(E, case["c"]))}
    prize = dict(zip(case["lab"], case["p"]))
    if E:
        re, rp, ro = sut(U.rename_maps, E, cost, prize)
        check(len(re) == len(E) and len(ro) == len(used) == len(rp), "%s edges and %s vertices of %s", len(re), len(ro), E)
        check(set(ro) == used and all(prize[v] == p for v, p in zip(ro, rp)), "prizes %s became %s on %s", prize, rp, ro)
        want = {frozenset(k): c for k, c in cost.items()}
        got = {frozenset((ro[u], ro[v])): c for u, v, c in re}
        check(got == want, "costs %s became %s", want, got)
        have = {frozenset(e) for e in E}
        gone = next(((u, v) for u in sorted(used) for v in sorted(used) if u < v and frozenset((u, v)) not in have), None)
        for k in ((gone,) if gone else ()) + ((max(used) + 1, min(used)),):
            try:
                r = U.rename_maps(E, {**cost, k: 1}, prize)
            except RuntimeError:
                r = None
            check(r is None, "the cost of %s, which is no edge of %s, was accepted", k, E)
    return len(used) < 2 * len(E) and (sorted(known) != list(range(len(known)))) and ["list" if case["list"] else "vector"]


PARTS = [Part("solve", solve_case(), solve_run, 240, 20000, case_cpu=120, budget={"quick": 20}),
         Part("heuristics", heur_case(), heur_run, 1600, 60000),
         Part("heuristics-large", heur_large_case(), heur_run, 160, 8000),
         Part("rename-large", st.fixed_dictionaries({"n": st.integers(11, 150), "seed": st.integers(0, 10 ** 9)}), rename_large_run, 400, 20000),
         Part("rename", rename_case(), rename_run, 3000, 100000)]
