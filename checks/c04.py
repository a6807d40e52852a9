"""Warm starts and interrupted solves."""
from hypothesis import strategies as st

import gen
import milp
import oracle
import solve
from harness import Part, check
from checks.c01 import CPU, expected

PROPERTY = "C04"
HX = ()
RULE = ("instances of 3-10 vertices, all settings, warm starts that are the optimum, another feasible tour, an infeasible tour, a cycle "
        "without the root or part of a tour; searches cut off by a limit on nodes, solutions, restarts, gap or time. "
        "Non-trivial: the search ended at the limit, or the warm start is a feasible tour that is not optimal.")
ASSUMPTIONS = ["a limit is reached where SCIP's status says so"]
setup = solve.setup


def check_result(g, r, want, prize, adj, warm, what):
    """r may have been cut off. warm: the warm start if it is a feasible tour."""
    check("exc" not in r, "%ssolve raised %r", what, r.get("exc"))
    check(not r["callback_exceptions"], "%sexception in a callback: %s", what, r.get("callback_exception"))
    es, opt = r["edges"], want and want[0]
    done = r["status"] in ("optimal", "infeasible")
    cost = None
    if es:
        check(want is not None, "%sthere is no feasible tour but %s was returned", what, es)
        for u, v in es:
            check(u in adj and v in adj[u], "%s(%s, %s) is not an edge", what, u, v)
        bad = oracle.is_cycle_edges(es)
        check(bad is None, "%sreturned edges %s are no tour: %s", what, es, bad)
        vs = {x for e in es for x in e}
        check(g["root"] in vs, "%sthe root is not in %s", what, es)
        check(sum(prize[v] for v in vs) >= g["quota"], "%sthe prize of %s is below the quota %s", what, es, g["quota"])
        cost = sum(adj[u][v] for u, v in es)
        check(abs(r["ub"] - cost) <= 1e-6 * max(1, cost), "%supper bound %s but the tour costs %s", what, r["ub"], cost)
    else:
        check(not done or want is None, "%sstatus %s without a tour although %s is one", what, r["status"], want)
        check(r["status"] == "infeasible" or r["ub"] > 1e19, "%sno tour but the upper bound is %s", what, r["ub"])
    if want is None:
        check(r["status"] != "optimal", "%sstatus optimal but there is no tour", what)
    else:
        check(r["status"] != "infeasible", "%sstatus infeasible but %s is a tour", what, want)
        check(r["lb"] <= opt + 1e-6 * max(1, opt), "%slower bound %s above the optimum %s", what, r["lb"], opt)
        check(r["ub"] >= opt - 1e-6 * max(1, opt), "%supper bound %s below the optimum %s", what, r["ub"], opt)
    if done and want is not None:
        check(cost == opt, "%sstatus %s with cost %s, optimum %s", what, r["status"], cost, opt)
    if warm:
        w = sum(adj[u][v] for u, v in warm)
        check(es, "%sa feasible warm start of cost %s was given, status %s, nothing returned", what, w, r["status"])
        check(cost <= w, "%sthe warm start costs %s, the result %s", what, w, cost)
    return done


def run(case):
    g, s = case["g"], case["s"]
    want, prize, adj = expected(g)
    if not adj[g["root"]]:
        return None
    heur = case["heur"]
    h = solve.heuristic_edges(g, ["tour", heur[1]] if heur[0] == "part" else heur)
    if heur[0] == "part" and h:  # a walk from the root that is no tour
        h = h[:1 + heur[2] % len(h)]
    feasible = (bool(h) and oracle.is_cycle_edges(h) is None and any(g["root"] in e for e in h)
                and sum(prize[v] for v in {x for e in h for x in e}) >= g["quota"] and g["root"] == h[0][0])
    params = dict(CPU)
    limit = 20.0
    k, x = case["limit"]
    if k == "time":
        limit = x
    elif k != "none":
        params["limits/" + k] = x
    r = solve.solve(g, s, h, params=params, time_limit=limit)
    if k != "time" and r.get("status") == "timelimit":
        return None
    done = check_result(g, r, want, prize, adj, h if feasible else None, "limit %s %s: " % (k, x))
    if k != "none" and not done:
        return ["stopped at " + k] + (["warm start"] if feasible else []) + (["tour"] if r["edges"] else [])
    if feasible and want and sum(adj[u][v] for u, v in h) > want[0]:
        return ["improved"]
    if h and not feasible and r["status"] in ("optimal", "infeasible"):
        return ["infeasible warm start"]
    return None


@st.composite
def cases(draw, nmax=10):
    g = draw(solve.instances(nmin=4, nmax=nmax))
    k = st.integers(0, 200)
    heur = draw(st.one_of(solve.warm_starts(), st.tuples(st.just("cycle"), k).map(list), st.tuples(st.just("part"), k, k).map(list)))
    lim = draw(st.one_of(st.just(["none", 0]), st.tuples(st.just("nodes"), st.integers(0, 8)).map(list), st.just(["solutions", 1]),
                         st.tuples(st.just("bestsol"), st.integers(1, 2)).map(list), st.tuples(st.just("gap"), st.sampled_from([0.1, 0.5, 2.0])).map(list),
                         st.tuples(st.just("absgap"), st.sampled_from([1.0, 5.0, 50.0])).map(list),
                         st.tuples(st.just("time"), st.sampled_from([0.0, 0.0, 0.001, 0.003, 0.01])).map(list)))
    return {"g": g, "s": draw(solve.settings(separators="any")), "heur": heur, "limit": lim}


@st.composite
def big_cases(draw):
    g = draw(solve.clusters(nmin=11, nmax=16) if draw(st.booleans()) else solve.fractional(nmin=11, nmax=16))
    lim = draw(st.one_of(st.tuples(st.just("nodes"), st.integers(1, 12)).map(list), st.just(["solutions", 1]),
                         st.tuples(st.just("time"), st.sampled_from([0.005, 0.01, 0.02])).map(list), st.just(["gap", 0.2])))
    s = draw(solve.settings(separators="some", sec_disjoint_tour=True, cost_cover_disjoint_paths=False))
    return {"g": g, "s": s, "limit": lim, "warm": draw(st.booleans())}


def run_big(case):
    """The optimum comes from a search that is not cut off (and is not dearer than the tour of another solver); its tour, cut off again, is a warm start no result may be worse than."""
    g = case["g"]
    prize, adj = dict(map(tuple, g["v"])), gen.adj(g)
    if not adj[g["root"]]:
        return None
    full = solve.solve(g, dict(case["s"], sec_sepafreq=1, sec_maxflow_mincut=True), params=CPU, time_limit=4.0)
    if full.get("status") not in ("optimal", "infeasible") or full.get("exc"):
        check("exc" not in full, "solve raised %r", full.get("exc"))
        return None
    want = (sum(adj[u][v] for u, v in full["edges"]), full["edges"]) if full["edges"] else None
    w = milp.witness(adj, prize, g["root"], g["quota"])
    if w is not None:
        check(want is not None and want[0] <= w[0], "the solve ended with %s, but the tour %s costs %s", want, w[1], w[0])
    params = dict(CPU)
    k, x = case["limit"]
    if k != "time":
        params["limits/" + k] = x
    r = solve.solve(g, case["s"], params=params, time_limit=x if k == "time" else 6.0)
    done = check_result(g, r, want, prize, adj, None, "limit %s %s: " % (k, x))
    if case["warm"] and r["edges"]:
        w = solve.ordered(r["edges"], g["root"])
        r2 = solve.solve(g, case["s"], w, params=params, time_limit=x if k == "time" else 6.0)
        check_result(g, r2, want, prize, adj, w, "again from there, limit %s %s: " % (k, x))
    return None if done else ["stopped at " + k] + (["tour"] if r["edges"] else [])


PARTS = [Part("stop", cases(), run, 800, 40000, budget={"quick": 15}),
         Part("big", big_cases(), run_big, 200, 10000, case_cpu=120, budget={"quick": 14})]
