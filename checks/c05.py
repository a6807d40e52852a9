"""Summary statistics against the solver and the recorded inequalities, and their way to file and back."""
import math
import os
from pathlib import Path

from hypothesis import strategies as st

import gen
import oracle
import repo
import solve
from harness import Part, check, sut

PROPERTY = "C05"
HX = ("model",)
RULE = ("solves of instances of 3-9 vertices under all settings, also stopped after a few nodes or solutions, with the added inequalities "
        "recorded, and statistics with arbitrary field values written and read by C++ and Python. Non-trivial: an inequality was added "
        "or the search was stopped; for files every case.")
ASSUMPTIONS = ["the recorder (shim/src/spy.cpp) sees the additions made through SCIPaddRow, SCIPaddPoolCut and SCIPaddCons"]
FIELDS = ["num_cost_cover_disjoint_paths", "num_cost_cover_shortest_paths", "nconss_presolve_disjoint_paths",
          "nconss_presolve_shortest_paths", "num_cycle_cover", "num_sec_disjoint_tour", "num_sec_maxflow_mincut"]


def setup():
    global hx, SummaryStats, STATUS
    solve.setup()
    hx = repo.hx("model")
    from pctsp.algorithms import SummaryStats
    from pyscipopt.scip import PY_SCIP_STATUS
    STATUS = {k.lower(): v for k, v in vars(PY_SCIP_STATUS).items() if isinstance(v, int)}


def same(a, b):
    return a == b or math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-9) or (abs(a) >= 1e20 and abs(b) >= 1e20 and a * b > 0)


def run(case):
    g, s = case["g"], case["s"]
    adj = gen.adj(g)
    if not adj[g["root"]]:
        return None
    prize = dict(map(tuple, g["v"]))
    h = solve.heuristic_edges(g, case["heur"])
    out = {}

    def mid(M, r):
        f = r["dir"] / "pctsp_summary_stats.yaml"
        check(f.exists(), "no summary statistics in the solver directory, only %s", os.listdir(r["dir"]))
        p = sut(SummaryStats.from_yaml, f)
        c = sut(hx.read_summary, str(f))
        out["s"] = p
        check((p.status, p.num_nodes, [getattr(p, x) for x in FIELDS]) == (c[0], c[4], list(c[3])) and same(p.lower_bound, c[1]) and same(p.upper_bound, c[2]),
              "Python reads %s, C++ %s", p, c)
    params = {"timing/clocktype": 1, **dict(case["limits"])}
    r = solve.solve(g, s, h, spy=True, params=params, time_limit=5.0, mid=mid)
    check("exc" not in r, "solve raised %r", r.get("exc"))
    p = out["s"]
    check(p.status == STATUS[r["status"]], "status in the file %s, of the solver %s (%s)", p.status, STATUS[r["status"]], r["status"])
    check(p.num_nodes == r["nodes"], "nodes in the file %s, of the solver %s", p.num_nodes, r["nodes"])
    check(same(p.lower_bound, r["lb"]), "lower bound in the file %s, of the solver %s", p.lower_bound, r["lb"])
    check(same(p.upper_bound, r["ub"]), "upper bound in the file %s, of the solver %s", p.upper_bound, r["ub"])
    if r["status"] == "optimal":
        c = sum(adj[u][v] for u, v in r["edges"])
        check(same(p.lower_bound, c) and same(p.upper_bound, c), "bounds in the file [%s, %s], cost of the optimal tour %s", p.lower_bound, p.upper_bound, c)
    elif r["edges"]:
        c = sum(adj[u][v] for u, v in r["edges"])
        check(same(p.upper_bound, c), "upper bound in the file %s, cost of the returned tour %s", p.upper_bound, c)
    # counters against the additions
    rows = [e for e in r["spy"] if e["kind"] == "row"]
    sec = sum(e["name"].startswith("Subtour") for e in rows)
    cyc = sum(e["name"].startswith("Cycle") for e in rows)
    cover = [e for e in r["spy"] if e["kind"] == "cons" and e["name"].startswith("cost")]
    nd, nm = p.num_sec_disjoint_tour, p.num_sec_maxflow_mincut
    if not s["sec_disjoint_tour"]:
        check(nd == 0, "%s disjoint tour inequalities counted though that separator is off", nd)
    if not s["sec_maxflow_mincut"]:
        check(nm == 0, "%s max-flow inequalities counted though that separator is off", nm)
    check(nd + nm >= sec, "%s subtour inequalities were added, only %s + %s counted", sec, nd, nm)
    check(nd + nm <= r["created"], "%s + %s subtour inequalities counted, only %s were created", nd, nm, r["created"])
    check(p.num_cycle_cover == cyc, "%s cycle cover inequalities were added, %s counted", cyc, p.num_cycle_cover)
    on_d = s["cost_cover_disjoint_paths"] and bool(solve.disjoint_costs(g))
    on_s = s["cost_cover_shortest_path"]
    cd, cs, pd, ps = (getattr(p, x) for x in FIELDS[:4])
    if not on_d:
        check(cd == pd == 0, "disjoint paths cost covers counted (%s, %s) though off", cd, pd)
    if not on_s:
        check(cs == ps == 0, "shortest path cost covers counted (%s, %s) though off", cs, ps)
    check(cd + cs == len(cover), "%s cost cover inequalities were added, %s + %s counted", len(cover), cd, cs)
    # 1 is SCIP_STAGE_PROBLEM: added before the solve
    pre = [e for e in cover if e["stage"] == 1]
    check(pd + ps == len(pre), "%s cost cover inequalities came from the warm start, %s + %s counted", len(pre), pd, ps)
    if h and sum(prize[v] for v in {x for e in h for x in e}) >= g["quota"]:
        c = sum(adj[u][v] for u, v in h)
        if c > 0:
            want_d = sum(d > c for d in solve.disjoint_costs(g).values()) if on_d else 0
            check(pd == want_d, "%s vertices have dearer disjoint paths than the warm start of cost %s, %s counted", want_d, c, pd)
            near = oracle.distances(adj, g["root"])
            want_s = sum(2 * near.get(v, c) > c for v in prize) if on_s else 0
            check(ps == want_s, "%s vertices are too far from the root for a warm start of cost %s, %s counted", want_s, c, ps)
    tags = []
    if sec:
        tags.append("sec")
    if cyc:
        tags.append("cycle cover")
    if pre:
        tags.append("cover from warm start")
    if len(cover) > len(pre):
        tags.append("cover from a new tour")
    if r["status"] not in ("optimal", "infeasible"):
        tags.append("stopped")
    if tags and math.gcd(*[c for _, _, c in g["e"]]) > 1:
        tags.append("costs with a common factor")
    return tags


@st.composite
def cases(draw, nmax=9):
    g = draw(solve.instances(nmax=nmax))
    k = draw(st.sampled_from([1, 1, 1, 2, 3, 10, 1000]))
    g["e"] = [[u, v, c * k] for u, v, c in g["e"]]
    if draw(st.booleans()):
        tot = sum(p for _, p in g["v"])
        g["quota"] = draw(st.integers(0, max(1, tot // 2)))
    lim = draw(st.sampled_from([[], [], [], [["limits/totalnodes", 1]], [["limits/totalnodes", 2]], [["limits/solutions", 1]], [["limits/nodes", 3]],
                                [["limits/gap", 0.3]], [["presolving/maxrounds", 0]]]))
    return {"g": g, "s": draw(solve.settings(separators="any")), "heur": draw(solve.warm_starts()), "limits": lim}


def run_file(case):
    d = Path(os.environ["VERIF_SCRATCH"]) / "y"
    d.mkdir(exist_ok=True)
    f = d / "stats.yaml"
    S = (case["status"], case["lower"], case["upper"], case["counters"], case["nodes"])
    sut(hx.write_summary, S, str(f))
    check(f.exists(), "nothing was written")
    c = sut(hx.read_summary, str(f))
    for name, a, b in zip(["status", "lower_bound", "upper_bound", *FIELDS, "num_nodes"], [*S[:3], *S[3], S[4]], [*c[:3], *c[3], c[4]]):
        check(a == b if isinstance(a, int) else math.isclose(a, b, rel_tol=1e-12) or a == b, "C++ reads %s = %s, written was %s", name, b, a)
    p = sut(SummaryStats.from_yaml, f)
    for name, a in zip(["status", "lower_bound", "upper_bound", *FIELDS, "num_nodes"], [*S[:3], *S[3], S[4]]):
        b = getattr(p, name)
        check(a == b if isinstance(a, int) else math.isclose(a, b, rel_tol=1e-12) or a == b, "Python reads %s = %s, written was %s", name, b, a)
    f.unlink()
    return True


@st.composite
def files(draw):
    num = st.one_of(st.integers(-10, 10 ** 6).map(float), st.floats(-1e6, 1e9), st.sampled_from([1e20, -1e20, 0.1, 1 / 3, math.inf]))
    cnt = st.one_of(st.integers(0, 100), st.integers(0, 2 ** 32 - 1))
    return {"status": draw(st.integers(0, 15)), "lower": draw(num), "upper": draw(num), "counters": [draw(cnt) for _ in range(7)],
            "nodes": draw(st.one_of(st.integers(0, 100), st.integers(0, 2 ** 60)))}


PARTS = [Part("solve", cases(), run, 1600, 40000, budget={"quick": 22}),
         Part("files", files(), run_file, 2400, 60000, budget={"quick": 6})]
