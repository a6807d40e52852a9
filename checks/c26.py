"""Plots of graphs, tours and heuristics, read back from the figure."""
import contextlib
import importlib
import io
import math
import os
import shutil
import tempfile
from collections import Counter
from pathlib import Path

from hypothesis import strategies as st

import gen
import repo
from harness import Part, check, sut

PROPERTY = "C26"
HX = None
RULE = ("graph: drawn graphs with a tour, integer or real coordinates (also equal ones), names of columns and further columns and arguments; the lines "
        "of the figure are split at their gaps into segments. Non-trivial: two edges or more that do not form a path in the given order. heuristics: "
        "tables of heuristics of drawn groups; the boxes of every figure against the rows. Non-trivial: two cost functions and two algorithms.")
ALGS = {"bfs_extension_collapse": "BFS-EC", "bfs_path_extension_collapse": "BFS-PEC", "suurballes_extension_collapse": "SBL-EC",
        "suurballes_path_extension_collapse": "SBL-PEC"}


def setup():
    global PL, PA, go, pd
    repo.stub()
    import logging
    import pandas as pd
    import plotly.graph_objects as go
    PL = importlib.import_module("pctsp.plot")
    PA = importlib.import_module("pctsp.apps.plot_app")
    logging.disable(logging.CRITICAL)


@st.composite
def case_of(draw):
    g = draw(gen.toured(3, 9, costs=("small",)))
    xy = st.one_of(st.integers(-50, 50), st.floats(-1e4, 1e4), st.integers(0, 2))
    return {"g": {k: g[k] for k in ("v", "e", "tour")}, "xy": [[draw(xy), draw(xy)] for _ in g["v"]],
            "cols": draw(st.sampled_from([["source", "target", "x", "y", "prize"], ["source", "target", "x", "y", "prize"], ["u", "v", "lon", "lat", "demand"],
                                          ["target", "source", "y", "x", "cost"]])),
            "edges": draw(st.integers(0, 2**40)), "index": draw(st.booleans()), "extra": draw(st.booleans()), "tour": draw(st.sampled_from(["tour", "tour", "turned", "part"]))}


def segments(trace):
    """The segments that a line trace draws, as a multiset of pairs of points."""
    check(trace.mode == "lines", "lines are drawn in mode %s", trace.mode)
    check(not trace.connectgaps, "gaps are connected")
    xs, ys = list(trace.x if trace.x is not None else ()), list(trace.y if trace.y is not None else ())
    check(len(xs) == len(ys), "%d x for %d y", len(xs), len(ys))

    def gap(z):
        return z is None or isinstance(z, float) and math.isnan(z)
    out = Counter()
    for i in range(len(xs) - 1):
        if not any(gap(z) for z in (xs[i], ys[i], xs[i + 1], ys[i + 1])):
            out[frozenset([(float(xs[i]), float(ys[i])), (float(xs[i + 1]), float(ys[i + 1]))])] += 1
    return out


def run(case):
    g, (s, t, x, y, p) = case["g"], case["cols"]
    edges = [e for k, e in enumerate(g["e"]) if case["edges"] >> k & 1 or case["edges"] == 0]
    default = case["cols"][0] == "source"
    at = {v: tuple(map(float, c)) for (v, _), c in zip(g["v"], case["xy"])}
    vdf = pd.DataFrame({x: [c[0] for c in case["xy"]], y: [c[1] for c in case["xy"]], p: [q for _, q in g["v"]]}, index=[v for v, _ in g["v"]])
    edf = pd.DataFrame({s: [e[0] for e in edges], t: [e[1] for e in edges]})
    if case["extra"]:
        edf.insert(0, "weight", [e[2] for e in edges])
        vdf.insert(0, "name", [f"v{v}" for v, _ in g["v"]])
    if case["index"]:
        edf.index = [f"e{3 * i}" for i in range(len(edges))]
    vb, eb = vdf.copy(), edf.copy()
    names = dict(source=s, target=t, x_name=x, y_name=y)

    def want(es):
        return Counter(frozenset([at[u], at[v]]) for u, v, *_ in es)
    tr = sut(PL.edge_scatter, edf, vdf, **({} if default else names))
    check(segments(tr) == want(edges), "edges %s are drawn as the segments %s", edges, show(segments(tr)))
    tr2 = sut(PL.edge_scatter, edf, vdf, line={"width": 7}, name="roads", **names)
    check(segments(tr2) == want(edges) and tr2.line.width == 7 and tr2.name == "roads", "a given line width or name is not used")
    vt = sut(PL.vertex_scatter, vdf, **({} if default and p == "prize" else dict(color=p, x_name=x, y_name=y)))
    markers(vt, g, at)
    if default:
        ts = sut(PL.graph_trace, edf, vdf)
        lines = [z for z in ts if z.mode == "lines"]
        dots = [z for z in ts if z.mode != "lines"]
        check(sum((segments(z) for z in lines), Counter()) == want(edges), "the graph's edges are drawn as %s", [show(segments(z)) for z in lines])
        check(len(dots) == 1, "the graph's vertices are drawn in %d traces", len(dots))
        markers(dots[0], g, at)
        sut(go.Figure, data=ts, layout=sut(PL.graph_layout))
    tour = list(g["tour"])
    if case["tour"] == "turned":
        tour = [tour[0]] + tour[1:-1][::-1] + [tour[0]]
    elif case["tour"] == "part":
        tour = tour[:-1][1:] + tour[1:2]
    on = {frozenset(tour[i:i + 2]) for i in range(len(tour) - 1)}
    sub = [e for e in edges if frozenset(e[:2]) in on]
    tt = sut(PL.tour_edges_trace, tour, edf, vdf, **({} if default else names))
    check(segments(tt) == want(sub), "the tour %s with edges %s is drawn as %s", tour, sub, show(segments(tt)))
    check(tt.line.color == "red", "the tour is drawn in %s", tt.line.color)
    tt = sut(PL.tour_edges_trace, tour, edf, vdf, color="blue", **names)
    check(tt.line.color == "blue" and segments(tt) == want(sub), "a tour asked for in blue is drawn in %s", tt.line.color)
    check(vdf.equals(vb) and edf.equals(eb), "the caller's tables were changed")
    tags = ["tour edges" if sub else "no tour edges"]
    if any(edges[i][1] != edges[i + 1][0] for i in range(len(edges) - 1)):
        tags.append("nontrivial")
    return tags


def show(c):
    return [tuple(sorted(k)) for k in c.elements()]


def markers(tr, g, at):
    check("markers" in tr.mode and "lines" not in tr.mode, "vertices are drawn in mode %s", tr.mode)
    got = [(float(a), float(b)) for a, b in zip(tr.x, tr.y)]
    check(len(tr.x) == len(tr.y) and len(got) == len(g["v"]), "%d markers for %d vertices", len(got), len(g["v"]))
    col = tr.marker.color
    check(Counter((c, float(q)) for c, q in zip(got, col)) == Counter((at[v], float(q)) for v, q in g["v"]), "markers %s with prizes %s for vertices %s at %s",
          got, list(col), g["v"], at)
    check(len(col) == len(got), "%d prizes for %d markers", len(col), len(got))


# ---------------------------------------------------------------- box plots of heuristics
@st.composite
def heur_case(draw):
    rows = []
    for i in range(draw(st.integers(1, 5))):
        kappa, fn = draw(st.sampled_from([5, 10, 25])), draw(st.sampled_from(["EUC_2D", "MST"]))
        lb = draw(st.integers(1, 500))
        for a in draw(st.lists(st.sampled_from(sorted(ALGS)), min_size=1, max_size=4, unique=True)):
            rows.append({"i": i, "graph": draw(st.sampled_from(["st70", "eil51"])), "kappa": kappa, "fn": fn, "lb": lb, "alg": a,
                         "obj": draw(st.one_of(st.none(), st.integers(lb, 2000)))})
    return rows


def heur_run(rows):
    from typer.testing import CliRunner
    import plotly.basedatatypes as bd
    main = importlib.import_module("pctsp.apps.main_app")
    work = Path(tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"]))
    saved = {}
    old = bd.BaseFigure.write_image
    try:
        bd.BaseFigure.write_image = lambda fig, file, *a, **k: saved.__setitem__(Path(file).name, fig)
        heads = ["dataset", "graph_name", "quota", "root", "generation", "kappa", "cost_function"]
        for ds in ("tspwplib", "londonaq"):
            key = {r["i"]: [ds, r["graph"] if ds == "tspwplib" else "laqbbA", 10 + r["i"], 1, "gen1", r["kappa"], r["fn"]] for r in rows}
            h = pd.DataFrame([key[r["i"]] + [r["alg"], 2, 1, False, r["obj"]] for r in rows],
                             columns=heads + ["algorithm", "path_depth_limit", "step_size", "collapse_paths", "objective"])
            e = pd.DataFrame([k + [True, next(r["lb"] for r in rows if r["i"] == i), 10**4] for i, k in key.items()],
                             columns=heads + ["cost_cover_disjoint_paths", "lower_bound", "upper_bound"])
            for name, df in (("compare_heuristics", h), ("cost_cover", e)):
                (work / ds / name).mkdir(parents=True)
                df.to_csv(work / ds / name / f"{ds}_{name}.csv")
        with contextlib.redirect_stderr(io.StringIO()):
            r = CliRunner().invoke(main.app, ["plot", "heuristics", str(work / "fig"), "--lab-dir", str(work)])
        check(r.exit_code == 0, "pctsp plot heuristics failed: %r", r.exception)
        for fn in ("EUC_2D", "MST"):
            fig = [f for n, f in saved.items() if fn in n]
            check(len(fig) == 1, "%d figures for cost function %s", len(fig), fn)
            for row in ("y", "y2"):
                got = Counter()
                for tr in fig[0].data:
                    if (tr.yaxis or "y") == row:
                        for k, gap in zip(tr.x if tr.x is not None else (), tr.y if tr.y is not None else ()):
                            if gap is not None and not math.isnan(gap):
                                got[str(getattr(tr.name, "value", tr.name)), int(k), round(float(gap), 9)] += 1
                want = Counter()
                per = {r["i"]: r for r in rows}
                for r in rows:
                    if per[r["i"]]["fn"] == fn and r["obj"] is not None:
                        g0 = next(q for q in rows if q["i"] == r["i"])
                        want[ALGS[r["alg"]], g0["kappa"], round((r["obj"] - g0["lb"]) / g0["lb"], 9)] += 1
                check(got == want, "%s: the boxes in row %s hold %s instead of %s", fn, row, sorted(got.elements()), sorted(want.elements()))
        tags = ["figures"]
        if len({r["fn"] for r in rows}) == 2 and len({r["alg"] for r in rows}) > 1:
            tags.append("nontrivial")
        return tags
    finally:
        bd.BaseFigure.write_image = old
        shutil.rmtree(work, ignore_errors=True)


PARTS = [
    Part("graph", case_of(), run, 1600, 30000, budget={"quick": 15}),
    Part("heuristics", heur_case(), heur_run, 96, 2000, case_cpu=120, budget={"quick": 15}),
]
