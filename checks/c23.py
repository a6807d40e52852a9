"""C23: memory is used safely on every accepted input."""
import importlib
import os

import networkx as nx
from hypothesis import strategies as st

import gen
import repo
import solve
from harness import Part, Violation, load_check

PROPERTY = "C23"
HX = ("model", "util", "heur", "log")
FLAVOUR = "asan"
RULE = ("The repository's C++ and the harness bindings are built with AddressSanitizer, UndefinedBehaviorSanitizer and checked standard "
        "containers; a sanitizer report, a signal or no result within the CPU limit is a violation, any Python exception is not. "
        "degenerate solves and degenerate heuristics: graphs of 1 to 7 vertices with no edges, isolated vertices, no cycle, self loops on "
        "all, some or no vertices, zero prizes, quotas below, at and above the total prize up to 2^31-1, any warm start list (also of "
        "vertices and edges that are not there), any settings, limits of time and nodes, partial maps of paths; tours that are empty, of "
        "one vertex, open, not simple, not walks or of unknown vertices. reused parts: the generated inputs of the other checks of compiled "
        "code (their verdicts are not judged here). Non-trivial: the compiled function returned or raised from inside; distinct by the case.")
ASSUMPTIONS = ["SCIP itself is not instrumented", "sums of costs and of prizes are below 2^31",
               "leaks are not looked for", "CPU limit of a case 60 s or that of the reused part, with instrumentation"]
REUSED = [("c03", "assignments", 320), ("c03", "two cycles", 160), ("c03", "stored", 240), ("c03", "simple cycle", 800),
          ("c20", "subtours", 480), ("c20", "cycle cover", 240), ("c20", "cost cover", 480), ("c20", "tailing off", 320), ("c20", "cuts", 480),
          ("c22", "walk", 800), ("c22", "tour", 480), ("c22", "subset", 800), ("c22", "search", 800),
          ("c07", "collapse", 800), ("c07", "big", 80), ("c08", "extend", 800), ("c08", "big", 80), ("c09", "step", 800), ("c09", "run", 480),
          ("c09", "big", 80), ("c01", "solve", 240), ("c01", "basic", 80), ("c05", "solve", 120), ("c05", "files", 240),
          ("c24", "search", 160), ("c24", "files", 160), ("c24", "times", 240), ("c06", "rename", 480), ("c02", "covers", 120),
          ("c21", "solver", 80), ("c21", "heuristics", 240), ("c27", "native", 80), ("c04", "stop", 120)]
BIG = (1 << 31) - 1


def setup():
    global A, L
    repo.FLAVOUR = FLAVOUR
    solve.setup(FLAVOUR)
    import pctsp.algorithms as A
    import pctsp.libpypctsp as L
    for m in {m for m, _, _ in REUSED}:
        mod = load_check(m)
        if hasattr(mod, "setup"):
            mod.setup()


def reuse(m, name, n):
    mod = load_check(m)
    p = next(p for p in mod.PARTS if p.name == name)

    def run(case):
        try:
            return p.run(case)
        except Violation:
            return ["judged elsewhere"]
    return Part(f"{m} {name}", p.strategy, run, n, n * 30, case_cpu=p.case_cpu * 2, budget={"quick": 5})


# ---------------------------------------------------------------- degenerate inputs
@st.composite
def graph_of(draw):
    g = draw(gen.graphs(1, 7, shapes=("mask", "dense", "complete", "cycle", "sparse", "path", "twoblocks"), prizes=("small", "zero", "pos")))
    if draw(st.integers(0, 3)) == 0:
        g["v"] = [[v, 0] for v, _ in g["v"]]
    lp = draw(st.sampled_from(["none", "none", "all", "some", "dear"]))
    for v, _ in g["v"]:
        if lp == "all" or (lp in ("some", "dear") and draw(st.booleans())):
            g["e"].append([v, v, draw(st.integers(0, 9)) if lp == "dear" else 0])
    if draw(st.integers(0, 9)) == 0:
        g["e"] = []
    top = BIG - 1 - sum(p for _, p in g["v"]) if draw(st.booleans()) else 5
    g["quota"] = draw(st.sampled_from([0, 1, g["quota"], sum(p for _, p in g["v"]), sum(p for _, p in g["v"]) + 1, top, -1, -top]))
    if draw(st.integers(0, 15)) == 0:
        g["root"] = draw(st.integers(0, 99))
    return g


def pick(draw, g):
    vs = [v for v, _ in g["v"]] + [g["root"], g["root"]]
    return st.sampled_from(vs) if draw(st.integers(0, 7)) else st.one_of(st.sampled_from(vs), st.integers(0, 99))


def edge_list(draw, g):
    kind = draw(st.sampled_from(["none", "edges", "walk", "any"]))
    es = [e[:2] for e in g["e"]]
    if kind == "none" or not es:
        return []
    if kind == "edges":
        return [draw(st.sampled_from(es)) for _ in range(draw(st.integers(0, 8)))]
    x = pick(draw, g)
    if kind == "any":
        return [[draw(x), draw(x)] for _ in range(draw(st.integers(0, 6)))]
    return steps(walk(draw, g))


def steps(t):
    return [[t[i], t[i + 1]] for i in range(len(t) - 1)]


def walk(draw, g):
    ad = gen.adj(g)
    t = [g["root"] if draw(st.integers(0, 4)) else draw(st.sampled_from(sorted(ad)))]
    for _ in range(draw(st.integers(0, 7))):
        nb = sorted(ad.get(t[-1], ()))
        if not nb:
            break
        t.append(draw(st.sampled_from(nb)))
        if t[-1] == t[0] and draw(st.booleans()):
            break
    return t


@st.composite
def solves(draw):
    g = draw(graph_of())
    s = draw(solve.settings("any"))
    s["sec_lp_gap_improvement_threshold"] = draw(st.sampled_from([0.01, 0.0, 1.0, -1.0, 1e9]))
    s["branching_max_depth"] = draw(st.sampled_from([-1, 0, 1, 3, 100]))
    case = {"g": g, "s": s, "heur": edge_list(draw, g), "how": draw(st.sampled_from(["full", "full", "full", "basic", "bind"])),
            "limit": draw(st.sampled_from([20, 20, 20, 20, 0, 1e-9])), "nodes": draw(st.sampled_from([-1, -1, -1, 0, 1, 2])),
            "level": draw(st.sampled_from([0, 10, 20, 40, 50])),
            "disjoint": [[v, draw(st.sampled_from([0, 1, 7, 1000, BIG, -1]))] for v, _ in g["v"] if draw(st.booleans())]}
    if draw(st.integers(0, 9)) == 0:
        case["disjoint"].append([draw(st.integers(0, 99)), 3])
    return case


def run_solve(case):
    g, s = case["g"], case["s"]
    heur = [tuple(e) for e in case["heur"]]
    params = {"timing/clocktype": 1, "limits/nodes": case["nodes"]}
    r = {}
    ix = {v: i for i, (v, _) in enumerate(g["v"])}
    full = case["how"] == "full" or {x for e in g["e"] for x in e[:2]} != set(ix) or g["root"] not in ix or any(x not in ix for e in heur for x in e)
    if full:
        r = solve.solve(g, s, heur, params=params, disjoint=dict(map(tuple, case["disjoint"])), time_limit=case["limit"], level=case["level"])
    else:
        from pyscipopt import Model
        M = Model(problemName="m", createscip=True, defaultPlugins=False)
        M.hideOutput()
        params["limits/time"] = 20
        for k, v in params.items():
            M.setParam(k, v)
        es = [(ix[u], ix[v]) for u, v, _ in g["e"]]
        costs = {(ix[u], ix[v]): c for u, v, c in g["e"]}
        if case["how"] == "basic":
            costs.update({(ix[v], ix[u]): c for u, v, c in g["e"]})
        try:
            r["edges"] = L.basic_solve_pctsp_bind(M, es, [(ix[u], ix[v]) for u, v in heur], costs, {ix[v]: p for v, p in g["v"]}, g["quota"],
                                                  ix[g["root"]], "x")
        except Exception as e:  # noqa
            r["exc"] = e
        del M
    return [type(r["exc"]).__name__ if "exc" in r else "tour" if r["edges"] else "empty", "full" if full else "basic"]


@st.composite
def heurs(draw):
    g = draw(graph_of())
    kind = draw(st.sampled_from(["empty", "one", "walk", "walk", "closed", "simple", "simple", "any"]))
    r = g["root"]
    if kind == "empty":
        t = []
    elif kind == "one":
        t = [r] * draw(st.integers(1, 3))
    elif kind == "any":
        t = draw(st.lists(pick(draw, g), max_size=8))
    else:
        t = walk(draw, g)
        if kind == "closed":
            t = t + [t[0]]
        if kind == "simple":
            t = list(dict.fromkeys(t))
            t += [t[0]]
    return {"g": g, "tour": t, "fn": draw(st.integers(0, 8)), "paths": draw(st.booleans()), "drop": draw(st.integers(0, 9)) == 0,
            "step": draw(st.sampled_from([1, 2, 3, 10, 0, -1, 100])), "depth": draw(st.sampled_from([1, 2, 3, 50, 0, -1])),
            "level": draw(st.sampled_from([10, 30, 50]))}


def run_heur(case):
    g, t, q, r, k, lv = case["g"], list(case["tour"]), case["g"]["quota"], case["g"]["root"], case["fn"], case["level"]
    es = [tuple(e[:2]) for e in g["e"]]
    costs = {}
    for u, v, c in g["e"][1 if case["drop"] else 0:]:
        costs[(u, v)] = costs[(v, u)] = c
    prizes = dict(map(tuple, g["v"][1 if case["drop"] else 0:]))
    try:
        if k == 0:
            out = L.collapse_bind(es, t, costs, prizes, q, r, case["paths"], lv)
        elif k == 1:
            out = L.extension_unitary_gain_bind(es, t, costs, prizes, lv)
        elif k == 2:
            out = L.extension_until_prize_feasible_bind(es, t, costs, prizes, q)
        elif k == 3:
            out = L.path_extension_bind(es, t, costs, prizes, r, case["step"], case["depth"], lv)
        elif k == 4:
            out = L.path_extension_until_prize_feasible_bind(es, t, costs, prizes, r, q, case["step"], case["depth"], lv)
        elif k == 5:
            out = L.path_extension_collapse_bind(es, t, costs, prizes, r, q, case["paths"], case["depth"], case["step"], lv)
        else:
            G = gen.to_nx(g)
            if k == 6:
                out = A.collapse(G, t, q, r, collapse_shortest_paths=case["paths"], logging_level=lv)
            elif k == 7:
                out = A.path_extension_collapse(G, t, r, q, collapse_shortest_paths=case["paths"], path_depth_limit=case["depth"],
                                                step_size=case["step"], logging_level=lv)
            else:
                out = A.extension_unitary_gain(G, t, logging_level=lv)
        return ["tour" if out else "empty", f"fn{k}"]
    except Exception as e:  # noqa
        return [type(e).__name__, f"fn{k}"]


i32 = st.one_of(st.integers(-5, 5), st.integers(-BIG - 1, BIG))


def run_ratio(case):
    k, a = case
    try:
        (L.unitary_gain if k else L.unitary_loss)(*a)
    except Exception as e:  # noqa
        return [type(e).__name__]
    return ["ok"]


small = st.integers(-(1 << 29), 1 << 29)
PARTS = [Part("degenerate solves", solves(), run_solve, 800, 40000, budget={"quick": 12}),
         Part("degenerate heuristics", heurs(), run_heur, 4000, 200000, budget={"quick": 8}),
         Part("ratios", st.tuples(st.integers(0, 1), st.tuples(small, small, small, small).map(list)).map(list), run_ratio, 400, 10000)]
PARTS += [reuse(*x) for x in REUSED]
