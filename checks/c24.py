"""Recorded bounds and node records against the search, and the files they are written to."""
import csv
import datetime
import math
import os
import time
from pathlib import Path

from hypothesis import strategies as st

import gen
import oracle
import repo
import solve
from harness import Part, check, sut

PROPERTY = "C24"
HX = ("model",)
RULE = ("solves of instances of 4-9 vertices under all settings, also stopped after a few nodes, whose records are read from the event "
        "handlers; records and times with arbitrary values written to file under different time zones. Non-trivial: more than one LP "
        "was recorded; for files more than one record; for times a fraction below a tenth of a second or a zone other than UTC.")
BC = ["start_timestamp", "end_timestamp", "lower_bound", "upper_bound", "node_id"]
COUNTERS = ["num_sec_disjoint_tour", "num_sec_maxflow_mincut", "num_cost_cover_disjoint_paths", "num_cost_cover_shortest_paths",
            "num_cost_cover_steiner_tree"]
NC = ["lower_bound", "node_id", *COUNTERS, "parent_id", "upper_bound"]
INF = 1e20
EPS = 1e-6


def setup():
    global hx, SummaryStats
    solve.setup()
    hx = repo.hx("model")
    from pctsp.algorithms import SummaryStats


def iso(ms):
    t = datetime.datetime(1970, 1, 1) + datetime.timedelta(milliseconds=ms)
    return t.strftime("%Y-%m-%dT%H:%M:%S.") + f"{ms % 1000:03d}Z"


def parse(s):
    t = datetime.datetime.strptime(s, "%Y-%m-%dT%H:%M:%S.%fZ")
    return round((t - datetime.datetime(1970, 1, 1)) / datetime.timedelta(milliseconds=1))


def near(text, x):
    y = float(text)
    return y == x or abs(y - x) <= 1e-12 * abs(x) or (abs(x) >= INF and abs(y) >= 0.99 * INF and x * y > 0)


def read_csv(path, head):
    check(path.exists(), "%s was not written", path.name)
    text = path.read_text()
    check(text == "" or text.endswith("\n"), "%s does not end with a full line", path.name)
    rows = list(csv.reader(text.splitlines()))
    check(rows and rows[0] == head, "header of %s is %s", path.name, rows[:1])
    for r in rows[1:]:
        check(len(r) == len(head), "row %s of %s has %s columns", r, path.name, len(r))
    return [dict(zip(head, r)) for r in rows[1:]]


def compare_files(d, bs, ns):
    rows = read_csv(d / "lower_upper_bounds.csv", BC)
    check(len(rows) == len(bs), "%s rows for %s bounds", len(rows), len(bs))
    for r, (s, e, lo, up, node) in zip(rows, bs):
        for name, t in (("start_timestamp", s), ("end_timestamp", e)):
            check(r[name] == iso(t), "%s is %s, not %s", name, r[name], iso(t))
        check(near(r["lower_bound"], lo) and near(r["upper_bound"], up) and int(r["node_id"]) == node, "row %s for the bounds %s", r, (lo, up, node))
    rows = read_csv(d / "scip_node_stats.csv", NC)
    check(len(rows) == len(ns), "%s rows for %s nodes", len(rows), len(ns))
    for r, (lo, i, c, parent, up) in zip(rows, ns):
        check(near(r["lower_bound"], lo) and near(r["upper_bound"], up) and int(r["node_id"]) == i and int(r["parent_id"]) == parent
              and [int(r[k]) for k in COUNTERS] == list(c), "row %s for the node %s", r, (lo, i, c, parent, up))


def run(case):
    g, s = case["g"], case["s"]
    adj = gen.adj(g)
    if not adj[g["root"]]:
        return None
    prize = dict(map(tuple, g["v"]))
    h = solve.heuristic_edges(g, case["heur"])
    out = {}

    def mid(M, r):
        out["b"], out["n"] = sut(hx.bounds, M), sut(hx.nodes, M)
        d = r["dir"]
        sut(hx.write_recorded, M, str(d))
        compare_files(d, out["b"], out["n"])
        out["s"] = SummaryStats.from_yaml(d / "pctsp_summary_stats.yaml")
        out["w"] = hx.witness(M)
        out["runs"] = M.getNTotalNodes() != M.getNNodes()
    t0 = time.time() * 1000 - 2
    r = solve.solve(g, s, h, spy=True, params={"timing/clocktype": 1, **dict(case["limits"])}, time_limit=5.0, mid=mid, first=hx.watch)
    t1 = time.time() * 1000 + 2
    check("exc" not in r, "solve raised %r", r.get("exc"))
    bs, ns, p = out["b"], out["n"], out["s"]
    best = oracle.best_tour(adj, prize, g["root"], g["quota"])
    opt = best[0] if best else INF
    prev = None
    for b in bs:
        s0, e0, lo, up, node = b
        check(t0 <= s0 <= e0 <= t1, "the record %s is not between start and end of the solve", b)
        check(lo <= up + EPS, "lower bound above the upper bound in %s", b)
        check(up >= opt - EPS, "upper bound %s below the optimum %s", up, opt)
        check(lo <= opt + EPS, "lower bound %s above the optimum %s", lo, opt)
        check(1 <= node, "node %s in %s", node, b)
        if prev:
            check(s0 >= prev[1], "record %s starts before the end of %s", b, prev)
            check(up <= prev[3] + EPS, "upper bound rises from %s to %s", prev[3], up)
            check(lo >= prev[2] - EPS or out["runs"], "lower bound falls from %s to %s", prev[2], lo)
        prev = b
    if bs:
        check(bs[-1][2] <= p.lower_bound + EPS or p.lower_bound >= INF, "last lower bound %s, reported %s", bs[-1][2], p.lower_bound)
        check(bs[-1][3] >= p.upper_bound - EPS, "last upper bound %s, reported %s", bs[-1][3], p.upper_bound)
    # what our own event handler saw at the same moments
    lps = [(w[4], w[5], w[1]) for w in out["w"] if w[0] == "lp"]
    check([b[2:] for b in bs] == lps, "bounds and nodes %s were recorded, after the LPs they were %s", [b[2:] for b in bs][:20], lps[:20])
    first = {}
    for w in out["w"]:
        if w[0] != "lp":
            first.setdefault(w[1], w)
    for n in ns:
        if n[1]:
            w = first.get(n[1])
            check(w is not None, "record of node %s, which was never visited", n[1])
            check((n[0], n[4]) == (w[3], w[5]), "node %s is recorded with the bounds %s, when it was first visited they were %s", n[1], (n[0], n[4]), (w[3], w[5]))
            check(n[3] == (w[2] or 1), "node %s is recorded with the parent %s, it is %s", n[1], n[3], w[2])
    check({n[1] for n in ns if n[1]} == set(first), "nodes %s are recorded, %s were visited", sorted(n[1] for n in ns if n[1]), sorted(first))
    # nodes
    real = [n for n in ns if n[1]]
    ids = [n[1] for n in real]
    check(len(set(ids)) == len(ids), "a node is recorded twice: %s", ids)
    for k, n in enumerate(ns):
        check(n[1] in (0, k + 1), "record %s is of node %s", k, n[1])
        if not n[1]:
            check(not any(n[2]), "a record without a node has the counters %s", n[2])
    if not out["runs"]:
        check(len(real) <= r["nodes"] + (r["status"] not in ("optimal", "infeasible")) and (len(real) == r["nodes"] or r["status"] not in ("optimal", "infeasible")),
              "%s nodes were recorded, %s processed", len(real), r["nodes"])
        known = {n[1]: n for n in real}
        for n in real:
            if n[1] == 1:
                check(n[3] == 1, "the parent of the root is %s", n[3])
            else:
                check(n[3] in known and n[3] < n[1], "parent of node %s is %s", n[1], n[3])
                check(n[0] >= known[n[3]][0] - EPS, "node %s has the lower bound %s, its parent %s", n[1], n[0], known[n[3]][0])
                low = max((b[2] for b in bs if b[4] == n[3]), default=-INF)
                check(n[0] >= low - EPS or low >= INF, "node %s has the lower bound %s, while its parent was solved the lower bound was already %s", n[1], n[0], low)
        # inequalities are counted at the node they were found at
        at = next(dict(e["at"]) for e in r["spy"] if e["kind"] == "created")
        added = {}
        for e in r["spy"]:
            if e["kind"] == "row" and e["name"].startswith("Subtour"):
                added[e["node"]] = added.get(e["node"], 0) + 1
        for n in real:
            c = n[2][0] + n[2][1]
            check(added.get(n[1], 0) <= c <= at.get(n[1], 0), "node %s counts %s subtour inequalities, %s were added there and %s created",
                  n[1], c, added.get(n[1], 0), at.get(n[1], 0))
        # nodes a bound was recorded at are nodes of the search
        for b in bs:
            check(b[4] in known, "a bound was recorded at node %s, known are %s", b[4], sorted(known))
    for n in real:
        check(n[4] >= opt - EPS, "node %s has the upper bound %s, the optimum is %s", n[1], n[4], opt)
    if ns and ns[0][1] == 1:
        check(ns[0][0] <= opt + EPS, "the root has the lower bound %s, the optimum is %s", ns[0][0], opt)
    check(sum(n[2][0] for n in ns) == p.num_sec_disjoint_tour, "disjoint tour inequalities of the nodes %s, in total %s", [n[2][0] for n in ns], p.num_sec_disjoint_tour)
    check(sum(n[2][1] for n in ns) == p.num_sec_maxflow_mincut, "max-flow inequalities of the nodes %s, in total %s", [n[2][1] for n in ns], p.num_sec_maxflow_mincut)
    if len(bs) < 2:
        return None
    tags = ["several LPs"]
    if len(real) > 1:
        tags.append("several nodes")
    if any(ids[i] > ids[i + 1] for i in range(len(ids) - 1)) or len(ns) > len(real):
        tags.append("nodes left out")
    if math.gcd(*[c for _, _, c in g["e"]]) > 1:
        tags.append("costs with a common factor")
    return tags


@st.composite
def cases(draw):
    g = draw(st.one_of(solve.clusters(nmin=6, nmax=9), solve.fractional(nmin=6, nmax=9), solve.instances(nmin=4, nmax=9)))
    k = draw(st.sampled_from([1, 1, 2, 7, 100, 123457]))
    if k * max((c for _, _, c in g["e"]), default=0) < 10 ** 8:
        g["e"] = [[u, v, c * k] for u, v, c in g["e"]]
    s = draw(solve.settings(separators="some"))
    if draw(st.booleans()):  # leads to branching
        s.update(sec_max_tailing_off_iterations=draw(st.integers(2, 3)), sec_lp_gap_improvement_threshold=0.5, simple_rules_only=True)
    lim = draw(st.sampled_from([[], [], [], [["limits/totalnodes", 2]], [["limits/nodes", 3]], [["limits/solutions", 1]],
                                [["presolving/maxrounds", 0], ["separating/maxrounds", 1], ["separating/maxroundsroot", 1]],
                                [["presolving/maxrounds", 0]]]))
    return {"g": g, "s": s, "heur": draw(solve.warm_starts()), "limits": lim}


# ---------------------------------------------------------------- files and times
ZONES = ["UTC0", "XYZ-5:30", "ABC+8", "CET-1CEST,M3.5.0,M10.5.0/3"]


def zone(z):
    os.environ["TZ"] = z
    time.tzset()


def run_files(case):
    d = Path(os.environ["VERIF_SCRATCH"]) / "csv"
    d.mkdir(exist_ok=True)
    zone(case["zone"])
    try:
        bs = [tuple(b) for b in case["b"]]
        ns = [(n[0], n[1], n[2], n[3], n[4]) for n in case["n"]]
        sut(hx.write_given, bs, ns, str(d / "lower_upper_bounds.csv"), str(d / "scip_node_stats.csv"))
        compare_files(d, bs, ns)
        a, b = sut(hx.totals, ns)
        check(a == sum(n[2][0] for n in ns) and b == sum(n[2][1] for n in ns), "totals %s of %s", (a, b), ns)
        for f in d.iterdir():
            f.unlink()
        # a directory that does not exist is left alone
        sut(hx.write_given, bs, ns, str(d / "no" / "a.csv"), str(d / "no" / "b.csv"))
        check(not (d / "no").exists(), "a directory was made")
    finally:
        zone("UTC0")
    return True if len(bs) > 1 or len(ns) > 1 else None


num = st.one_of(st.integers(0, 5000).map(float), st.floats(-1e3, 1e8).map(lambda x: round(x, 3)), st.sampled_from([1e20, -1e20, 0.5]))
mil = st.one_of(st.integers(0, 4102444800000), st.integers(1600000000, 1900000000).flatmap(lambda s: st.integers(0, 120).map(lambda m: s * 1000 + m)))


@st.composite
def files(draw):
    b = draw(st.lists(st.tuples(mil, mil, num, num, st.integers(0, 10 ** 6)).map(list), max_size=6))
    cnt = st.lists(st.integers(0, 99999), min_size=5, max_size=5)
    n = draw(st.lists(st.tuples(num, st.integers(0, 10 ** 6), cnt, st.integers(0, 10 ** 6), num).map(list), max_size=6))
    return {"b": b, "n": n, "zone": draw(st.sampled_from(ZONES))}


def run_time(case):
    zone(case["zone"])
    try:
        got = sut(hx.time_string, case["ms"])
    finally:
        zone("UTC0")
    check(got == iso(case["ms"]), "the time %s (zone %s) is written as %s, not %s", case["ms"], case["zone"], got, iso(case["ms"]))
    return True if case["ms"] % 1000 < 100 or case["zone"] != "UTC0" else None


times = st.fixed_dictionaries({"ms": mil, "zone": st.sampled_from(ZONES)})
# the parts that do not depend on the clock come first: a wrong timestamp of a search is not reproduced every time
PARTS = [Part("times", times, run_time, 2400, 40000, budget={"quick": 4}),
         Part("files", files(), run_files, 1600, 40000, budget={"quick": 6}),
         Part("search", cases(), run, 1200, 40000, budget={"quick": 22})]
