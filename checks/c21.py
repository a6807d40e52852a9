"""Settings reach the solver and the heuristics as asked."""
import json
import struct

from hypothesis import strategies as st

import gen
import repo
import solve
from harness import Part, check, sut

PROPERTY = "C21"
HX = ("heur", "model")
FLAVOUR = "rel"
RULE = ("Solver: small instances with every combination of settings; afterwards the model is asked for its branching rules, handlers, "
        "limits, name and files. Heuristics: the Python function called with keywords against the compiled algorithm called directly. "
        "Rule: sequences of gaps of one node against the tailing off rule stated over the whole sequence (non-trivial: it holds for some and not all LPs). "
        "Non-trivial: a setting differs from its default, (heuristics) the tour changes and two numeric arguments differ.")
CPU = {"timing/clocktype": 1}
FEASIBLE, INFEASIBLE, OPTIMAL = 4, 5, 1  # of SCIP_RESULT and SCIP_LPSOLSTAT


def setup():
    global hx, hm, A, defaults, libpypctsp
    solve.setup(FLAVOUR)
    hx = repo.hx("heur")
    hm = repo.hx("model")
    import pctsp.algorithms as A
    from pyscipopt import Model
    M = Model()
    M.hideOutput()
    defaults = {n: (p, d) for n, p, d in hx.contents(M)[2]}


# ---------------------------------------------------------------- solver
@st.composite
def solve_case(draw):
    g = draw(solve.instances(nmax=7))
    s = draw(solve.settings(separators="any", sec_sepafreq=draw(st.sampled_from([1, 2, 3, 5, 10, 0, -1])), branching_max_depth=draw(st.integers(-1, 9)),
                            branching_strategy=draw(st.sampled_from([0, 1, 2, 4]))))
    return {"g": g, "s": s, "time": draw(st.one_of(st.sampled_from([14400.0, 5.0]), st.integers(5, 10**6).map(float), st.floats(5, 1e4))),
            "omit": draw(st.lists(st.sampled_from(["branching_max_depth", "branching_strategy", "sec_sepafreq", "simple_rules_only", "cycle_cover", "cost_cover_shortest_path",
                                                   "sec_disjoint_tour", "sec_maxflow_mincut"]), max_size=3, unique=True)),
            "name": draw(st.sampled_from(["inst", "a b", "x-1"])), "heur": draw(st.sampled_from([["none"], ["best"]]))}


DEFAULT = dict(branching_max_depth=-1, branching_strategy=0, cost_cover_shortest_path=False, cycle_cover=False, sec_disjoint_tour=True,
               sec_maxflow_mincut=True, sec_sepafreq=1, simple_rules_only=False)


def solve_run(case):
    g, s = case["g"], dict(case["s"])
    if not gen.adj(g)[g["root"]]:
        return None
    full = dict(s)
    for k in case["omit"]:
        full[k] = DEFAULT[k]
        del s[k]
    if not (full["sec_disjoint_tour"] or full["sec_maxflow_mincut"]) and len(g["v"]) > 6:
        return None
    seen = {}

    def look(M, r):
        seen["c"] = hx.contents(M)
        seen["freq"] = hm.separation_frequency(M)
        seen["time"] = M.getParam("limits/time")
        seen["name"] = M.getProbName()
        seen["files"] = sorted(p.name for p in r["dir"].iterdir())
        seen["stats"] = (r["dir"] / "pctsp_summary_stats.yaml").read_text() if "pctsp_summary_stats.yaml" in seen["files"] else ""
        seen["presolve"] = M.getParam("presolving/maxrounds")

    s.setdefault("cost_cover_disjoint_paths", False)
    solve._lib.vp_spy_start()
    r = run_solve(g, s, solve.heuristic_edges(g, case["heur"]), case, look)
    spy = json.loads(solve._lib.vp_spy_json())
    solve._lib.vp_spy_stop()
    check("exc" not in r, "solve raised %r", r.get("exc"))
    if r["status"] == "timelimit":
        return None
    ev, con, rules, freqs = seen["c"]
    rule = {n: (p, d) for n, p, d in rules}
    k = full["branching_strategy"]
    if full["simple_rules_only"]:
        check(set(rule) == {"fullstrong", "relpscost", "mostinf"}, "simple rules only: branching rules %s", sorted(rule))
    else:
        check(set(rule) == set(defaults), "branching rules %s are missing", sorted(set(defaults) - set(rule)))
    want = {0: "relpscost", 1: "fullstrong", 2: "fullstrong"}.get(k)
    if want:
        top = max(p for n, (p, _) in rule.items() if n != want)
        check(rule[want][0] > top, "strategy %s: %s has priority %s, another %s", k, want, rule[want][0], top)
    else:
        check(all(rule[n][0] == defaults[n][0] for n in rule), "strategy %s changed priorities: %s", k, rule)
    for n in rule:
        d = full["branching_max_depth"] if k == 2 and n == "fullstrong" else defaults[n][1]
        check(rule[n][1] == d, "strategy %s with depth %s: %s is limited to depth %s", k, full["branching_max_depth"], n, rule[n][1])
    if k in (1, 2):
        check(rule["relpscost"][0] == max(p for n, (p, _) in rule.items() if n != "fullstrong"), "strategy %s: reliability branching is not second: %s", k, rule)
    t = struct.unpack("f", struct.pack("f", case["time"]))[0]
    check(abs(seen["time"] - t) <= 1e-6 * t, "time limit %s given, %s used", t, seen["time"])
    check(seen["freq"] == full["sec_sepafreq"], "separation frequency %s given, %s used", full["sec_sepafreq"], seen["freq"])
    check(seen["name"] == case["name"], "name %r given, %r used", case["name"], seen["name"])
    check({"pctsp_summary_stats.yaml", "scip_logs.txt"} <= set(seen["files"]), "files in the directory given: %s", seen["files"])
    check(("Cycle cover" in con) == full["cycle_cover"], "cycle cover %s, handlers %s", full["cycle_cover"], con)
    check(("Shortest path cost cover" in ev) == full["cost_cover_shortest_path"], "shortest path cost cover %s, handlers %s", full["cost_cover_shortest_path"], ev)
    check(any(e["kind"] == "cons" and e.get("handler") == "Cycle cover" for e in spy) == full["cycle_cover"], "cycle cover %s, but the constraints added are of %s",
          full["cycle_cover"], sorted({e.get("handler") for e in spy if e["kind"] == "cons"}))
    dis = full["cost_cover_disjoint_paths"] and bool(solve.disjoint_costs(g))
    check(("Disjoint paths cost cover" in ev) == dis, "disjoint paths cost cover %s, handlers %s", dis, ev)
    check(seen["presolve"] == 0, "presolving is on")
    st_ = {}
    for line in seen["stats"].splitlines():
        if ":" in line:
            a, b = line.split(":", 1)
            st_[a.strip()] = b.strip()
    if not full["sec_disjoint_tour"]:
        check(st_["num_sec_disjoint_tour"] == "0", "separation of disjoint tours is off but gave %s", st_["num_sec_disjoint_tour"])
    if not full["sec_maxflow_mincut"]:
        check(st_["num_sec_maxflow_mincut"] == "0", "max-flow separation is off but gave %s", st_["num_sec_maxflow_mincut"])
    if not full["cycle_cover"]:
        check(st_["num_cycle_cover"] == "0", "cycle cover is off but gave %s", st_["num_cycle_cover"])
    tags = ["strategy %s" % k]
    tags += tailing(spy, full)
    if not full["sec_disjoint_tour"] and st_["num_sec_maxflow_mincut"] != "0":
        tags.append("max-flow alone")
    if not full["sec_maxflow_mincut"] and st_["num_sec_disjoint_tour"] != "0":
        tags.append("disjoint alone")
    return tags if any(full[x] != DEFAULT.get(x, full[x]) for x in full) else None


def tailing(spy, s):
    """Branching by the constraint handler: after that many LPs without a better bound at that node."""
    tags = []
    late, lim = {}, s["sec_max_tailing_off_iterations"]
    for e in spy:
        if e["kind"] != "enfolp" or e["name"].startswith("Cycle") or e["result"] == FEASIBLE:
            continue
        w = late.setdefault(e["node"], [])  # a restart solves the root again
        w.append((e["lower"], e["primal"], e["run"]))
        branched = e["after"] > e["before"]
        check(not branched or (lim >= 2 and len(w) >= lim), "branched after %s LPs at node %s, the setting is %s", len(w), e["node"], lim)
        if lim >= 2 and len(w) < lim and e["node"] > 1:
            tags.append("other node")
        if lim >= 2 and len(w) >= lim and len(set(w[-lim:])) == 1 and s["sec_lp_gap_improvement_threshold"] > 0 and e["lp"] == OPTIMAL and e["cands"]:
            check(e["result"] != INFEASIBLE, "no branching after %s LPs at node %s without a change of the bounds %s", len(w), e["node"], w[-lim:])
            tags.append("tailing off")
    return tags


@st.composite
def rule_case(draw):
    """The gaps of the LPs of one node: falling, standing still and jumping."""
    gap = draw(st.integers(0, 400))
    gaps = []
    for d in draw(st.lists(st.one_of(st.integers(0, 3), st.integers(-5, 40)), min_size=1, max_size=30)):
        gap = max(0, gap - d)
        gaps.append(gap / 8)
    return {"gaps": [1e20] * draw(st.sampled_from([0, 0, 0, 1, 3])) + gaps, "lim": draw(st.integers(-1, 14)), "thr": draw(st.sampled_from([0, 1, 2, 4, 8, 16])) / 8}


def rule_run(case):
    gaps, lim, thr = case["gaps"], case["lim"], case["thr"]
    got = [x for _, x in sut(hm.tailing, gaps, thr, lim)]
    want = [lim >= 2 and i + 1 >= lim and gaps[i + 1 - lim] - gaps[i] < thr for i in range(len(gaps))]
    check(got == want, "gaps %s, at most %s LPs, threshold %s: tailing off %s, expected %s", gaps, lim, thr, got, want)
    return ["yes"] if any(want) and not all(want[lim:]) else None


@st.composite
def tail_case(draw):
    g = draw(st.one_of(solve.clusters(nmin=6, nmax=9), solve.fractional(nmin=6, nmax=10)))
    s = draw(solve.settings(separators="some", sec_max_tailing_off_iterations=draw(st.integers(0, 4)),
                            sec_lp_gap_improvement_threshold=draw(st.sampled_from([0.0, 0.01, 0.5, 1.0])), cost_cover_disjoint_paths=False))
    return {"g": g, "s": s, "heur": draw(solve.warm_starts()), "rounds": draw(st.sampled_from([0, 0, 1, 2, 5]))}


def tail_run(case):
    g, s = case["g"], case["s"]
    if not gen.adj(g)[g["root"]]:
        return None
    k = case["rounds"]  # few rounds of separation leave subtours to the enforcement
    r = solve.solve(g, s, solve.heuristic_edges(g, case["heur"]), spy=True, params={**CPU, "separating/maxrounds": k, "separating/maxroundsroot": k}, time_limit=5.0)
    check("exc" not in r, "solve raised %r", r.get("exc"))
    return sorted(set(tailing(r["spy"], s))) or None


def run_solve(g, s, heur, case, look):
    """Like solve.solve, with the name and limits of the case and settings left out."""
    from pyscipopt import Model
    M = Model(problemName="m", createscip=True, defaultPlugins=False)
    M.hideOutput()
    M.setParam("timing/clocktype", 1)
    d = solve.scratch()
    r = {"dir": d}
    kw = dict(s)
    try:
        r["edges"] = solve.solve_pctsp(M, gen.to_nx(g), heur, g["quota"], g["root"], name=case["name"], solver_dir=d, time_limit=case["time"],
                                       disjoint_paths_cost=solve.disjoint_costs(g), logging_level=40, **kw)
    except Exception as e:  # noqa
        r["exc"] = e
    if "exc" not in r:
        r["status"] = M.getStatus()
        look(M, r)
    M.freeProb()
    return r


# ---------------------------------------------------------------- heuristics
@st.composite
def heur_case(draw):
    g = draw(gen.toured(5, 11, costs=("pos", "mid", "metric"), prizes=("pos", "small"), quota=draw(st.sampled_from(["tour", "more"]))))
    return {"g": g, "step": draw(st.integers(1, 4)), "depth": draw(st.integers(2, 6)), "paths": draw(st.booleans()),
            "omit": draw(st.booleans())}


def heur_run(case):
    g = case["g"]
    G = gen.to_nx(g)
    # number the vertices the way the compiled code meets them
    ix = {}
    edges = list(G.edges(data="cost"))
    for u, v, _ in edges:
        ix.setdefault(u, len(ix))
        ix.setdefault(v, len(ix))
    back = {i: v for v, i in ix.items()}
    E = [(ix[u], ix[v], c) for u, v, c in edges]
    p = [G.nodes[back[i]]["prize"] for i in range(len(ix))]
    t, r, q = g["tour"], g["root"], g["quota"]
    T, R = [ix[v] for v in t], ix[g["root"]]
    s, d, cp = case["step"], case["depth"], case["paths"]
    s = min(s, len(t) - 2)
    if case["omit"]:
        kw, s, d, kc, cp = {}, 1, 2, {}, False
    else:
        kw, kc = dict(step_size=s, path_depth_limit=d), dict(collapse_shortest_paths=cp)
    L = dict(logging_level=40)
    pairs = [
        ("collapse", sut(A.collapse, graph=G, tour=list(t), quota=q, root_vertex=r, **L), hx.do_collapse(E, p, T, q, R, False)),
        ("path_collapse", sut(A.path_collapse, graph=G, tour=list(t), quota=q, root_vertex=r, **L), hx.do_collapse(E, p, T, q, R, True)),
        ("extension_unitary_gain", sut(A.extension_unitary_gain, graph=G, tour=list(t), **L), hx.do_gain(E, p, T)),
        ("extension_unitary_gain_collapse", sut(A.extension_unitary_gain_collapse, graph=G, tour=list(t), quota=q, root_vertex=r, **L),
         hx.do_collapse(E, p, hx.do_gain(E, p, T), q, R, False)),
        ("extension_unitary_loss", sut(A.extension_unitary_loss, graph=G, tour=list(t), root_vertex=r, **L), hx.do_path(E, p, T, R, 1, 2)),
        ("extension_until_prize_feasible", sut(A.extension_until_prize_feasible, graph=G, tour=list(t), quota=q), hx.do_until(E, p, T, q)),
        ("path_extension", sut(A.path_extension, graph=G, tour=list(t), root_vertex=r, **kw, **L), hx.do_path(E, p, T, R, s, d)),
        ("path_extension_until_prize_feasible", sut(A.path_extension_until_prize_feasible, graph=G, tour=list(t), root_vertex=r, quota=q, **kw, **L),
         hx.do_path_until(E, p, T, R, q, s, d)),
        ("path_extension_collapse", sut(A.path_extension_collapse, graph=G, tour=list(t), root_vertex=r, quota=q, **kw, **kc, **L),
         hx.do_path_collapse(E, p, T, R, q, cp, d, s)),
    ]
    tags = []
    for name, got, want in pairs:
        want = [back[i] for i in want]
        check(got == want, "%s(step size %s, depth %s, shortest paths %s) gives %s, the compiled algorithm with these gives %s", name, s, d, cp, got, want)
        if got != t:
            tags.append(name)
    return tags if tags and s != d else None


PARTS = [Part("rule", rule_case(), rule_run, 4000, 200000, budget={"quick": 5}),
         Part("tailing off", tail_case(), tail_run, 800, 30000, budget={"quick": 12}),
         Part("solver", solve_case(), solve_run, 500, 20000, budget={"quick": 12}),
         Part("heuristics", heur_case(), heur_run, 1600, 60000)]
