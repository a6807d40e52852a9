"""Branch and cut against the optimum from the definition."""
from hypothesis import strategies as st

import gen
import milp
import oracle
import repo
import solve
from harness import Part, check

PROPERTY = "C01"
HX = ("model",)
RULE = ("instances of 3-9 vertices (random, clustered, near-cycles), all settings, feasible, infeasible or no warm start, against "
        "the cheapest tour from dynamic programming; on 10-30 vertices against other settings and the tour of another solver (HiGHS). Non-trivial: the optimal tour leaves out a vertex of the graph or has a "
        "cost that is not that of the degree-and-prize relaxation, or no tour is feasible but the quota is at most the total prize.")


def setup():
    global hx
    solve.setup()
    hx = repo.hx("model")


CPU = {"timing/clocktype": 1}


def expected(g):
    prize = dict(map(tuple, g["v"]))
    adj = gen.adj(g)
    if not adj[g["root"]]:
        return None, prize, adj
    return oracle.best_tour(adj, prize, g["root"], g["quota"]), prize, adj


def verify(g, r, want, prize, adj, what=""):
    """r solved g to completion: is it right?"""
    check("exc" not in r, "%ssolve raised %r", what, r.get("exc"))
    check(not r["callback_exceptions"], "%san exception was thrown in a callback: %s", what, r.get("callback_exception"))
    es = r["edges"]
    if want is None:
        check(es == [], "%sno prize-feasible tour exists but %s was returned", what, es)
        check(r["status"] == "infeasible", "%sno prize-feasible tour exists but the status is %s", what, r["status"])
        return
    check(r["status"] == "optimal", "%sthe status is %s, edges %s, but tour %s is optimal", what, r["status"], es, want)
    for u, v in es:
        check(u in adj and v in adj[u], "%sreturned (%s, %s) is not an edge", what, u, v)
    bad = oracle.is_cycle_edges(es)
    check(bad is None, "%sreturned edges %s are no tour: %s", what, es, bad)
    vs = {x for e in es for x in e}
    check(g["root"] in vs, "%sthe root is not in the tour %s", what, es)
    p = sum(prize[v] for v in vs)
    check(p >= g["quota"], "%sprize %s of the tour %s is below the quota %s", what, p, es, g["quota"])
    c = sum(adj[u][v] for u, v in es)
    check(c == want[0], "%sthe tour %s costs %s but %s costs %s", what, es, c, want[1], want[0])


def run(case):
    g, s = case["g"], case["s"]
    want, prize, adj = expected(g)
    if not adj[g["root"]]:
        return None
    h = solve.heuristic_edges(g, case["heur"])
    r = solve.solve(g, s, h, params={**CPU, **dict(case.get("params", []))}, time_limit=20.0)
    if r.get("status") == "timelimit":  # thousands of times the usual effort: expected only without a full set of separators
        check(not (s["sec_disjoint_tour"] and s["sec_maxflow_mincut"] and s["sec_sepafreq"] == 1), "no result after 20 s of CPU time")
        return None
    verify(g, r, want, prize, adj)
    tags = []
    if want is None:
        if sum(prize.values()) >= g["quota"]:
            tags.append("infeasible")
    elif len(want[1]) - 1 < len(prize):
        tags.append("partial tour")
    else:
        tags.append("all vertices")
    if h:
        tags.append("warm start")
    if r["nodes"] > 1:
        tags.append("branching")
    if case.get("params"):
        tags.append("pseudo solutions")
    return tags


@st.composite
def cases(draw, nmax=9):
    few = draw(st.integers(0, 7)) == 0  # the LP is not solved at (all) nodes: pseudo solutions are enforced
    c = {"g": draw(solve.instances(nmax=5 if few else nmax)), "s": draw(solve.settings(separators="any")), "heur": draw(solve.warm_starts())}
    if few:
        c["params"] = [["lp/solvefreq", draw(st.sampled_from([-1, 0, 2]))]]
    return c


def run_pair(case):
    """Instances too big for the reference: two settings agree, both tours are valid, a bigger quota is never cheaper."""
    g = case["g"]
    prize = dict(map(tuple, g["v"]))
    adj = gen.adj(g)
    if not adj[g["root"]]:
        return None
    got = []
    for s, q in ((case["s1"], g["quota"]), (case["s2"], g["quota"]), (case["s1"], min(g["quota"] + case["more"], sum(prize.values())))):
        h = dict(g, quota=q)
        r = solve.solve(h, dict(s, cost_cover_disjoint_paths=False), params=CPU, time_limit=2.0)
        if r.get("status") == "timelimit":
            return None
        check("exc" not in r, "solve raised %r", r.get("exc"))
        es = r["edges"]
        if es:
            check(r["status"] == "optimal", "status %s with edges %s", r["status"], es)
            bad = oracle.is_cycle_edges(es)
            check(bad is None, "returned edges %s are no tour: %s", es, bad)
            vs = {x for e in es for x in e}
            check(all(u in adj and v in adj[u] for u, v in es) and g["root"] in vs, "%s is no tour of the graph through the root", es)
            check(sum(prize[v] for v in vs) >= q, "prize of %s is below the quota %s", es, q)
            got.append(sum(adj[u][v] for u, v in es))
        else:
            check(r["status"] == "infeasible", "no edges but status %s", r["status"])
            got.append(float("inf"))
    w = milp.witness(adj, prize, g["root"], g["quota"])
    if w is not None:
        check(max(got[:2]) <= w[0], "tours of cost %s and %s with two settings, but %s costs %s", got[0], got[1], w[1], w[0])
    check(got[0] == got[1], "the settings give tours of cost %s and %s", got[0], got[1])
    if q >= g["quota"]:
        check(got[2] >= got[0], "cost %s for quota %s but %s for the smaller quota %s", got[2], q, got[0], g["quota"])
    return ["big"] if got[0] < float("inf") else None


BIG = solve.settings(sec_disjoint_tour=True, sec_maxflow_mincut=True, sec_sepafreq=1)


@st.composite
def pairs(draw):
    g = draw(st.one_of(solve.clusters(nmin=10, nmax=15), solve.fractional(nmin=10, nmax=18), gen.large(14, 30, dense=3)))
    return {"g": g, "s1": draw(BIG), "s2": draw(BIG), "more": draw(st.integers(0, 12))}


def run_basic(case):
    import pctsp.libpypctsp as L
    g = case["g"]
    want, prize, adj = expected(g)
    if len({x for e in g["e"] for x in e[:2]}) < len(prize):
        return None
    h = solve.heuristic_edges(g, case["heur"])
    M = solve.Model(problemName="m", createscip=True, defaultPlugins=False)
    M.hideOutput()
    try:
        es = [tuple(e) for e in L.basic_solve_pctsp_bind(
            M, [tuple(e[:2]) for e in g["e"]], h, {tuple(e[:2]): e[2] for e in g["e"]}, prize, g["quota"], g["root"], "n")]
    except Exception as e:  # noqa
        check(False, "basic_solve_pctsp_bind raised %r", e)
    r = {"edges": es, "status": M.getStatus(), "callback_exceptions": 0}
    M.freeProb()
    verify(g, r, want, prize, adj)
    at = {v: i for i, v in enumerate(sorted(prize))}  # the same with a graph of the library's own type
    back = sorted(prize)
    try:
        es, opt, inf = hx.solve_graph(len(at), [(at[u], at[v], c) for u, v, c in g["e"]], [prize[v] for v in back], g["quota"], at[g["root"]],
                                      [(at[u], at[v]) for u, v in h])
    except Exception as e:  # noqa
        check(False, "solvePrizeCollectingTSP raised %r", e)
    verify(g, {"edges": [(back[u], back[v]) for u, v in es], "status": "optimal" if opt else "infeasible" if inf else "other", "callback_exceptions": 0},
           want, prize, adj, "graph: ")
    return ["basic"] if want else ["basic infeasible"]


@st.composite
def basics(draw):
    g = draw(gen.graphs(nmin=3, nmax=8, isolated=False, labels=False))
    return {"g": g, "heur": draw(st.one_of(st.just(["none"]), st.just(["best"]), st.tuples(st.just("feasible"), st.integers(0, 99)).map(list)))}


PARTS = [Part("solve", cases(), run, 2400, 60000, budget={"quick": 25}),
         Part("pair", pairs(), run_pair, 160, 6000, budget={"quick": 15}, case_cpu=120),
         Part("basic", basics(), run_basic, 240, 4000, budget={"quick": 10})]
