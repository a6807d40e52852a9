"""Runs pctsp.algorithms.solve_pctsp on a case and collects everything that can be observed."""
import ctypes
import json
import logging
import os
import shutil
import tempfile
from pathlib import Path

from hypothesis import strategies as st

import gen
import oracle
import repo

SETTINGS = dict(branching_max_depth=-1, branching_strategy=0, cost_cover_disjoint_paths=False,
                cost_cover_shortest_path=False, cycle_cover=False, sec_disjoint_tour=True,
                sec_lp_gap_improvement_threshold=0.01, sec_maxflow_mincut=True, sec_max_tailing_off_iterations=-1,
                sec_sepafreq=1, simple_rules_only=False)


@st.composite
def settings(draw, separators="some", **fixed):
    """A solver setting; separators: 'some' = at least one subtour separator."""
    s = {
        "branching_max_depth": draw(st.sampled_from([-1, -1, 0, 1, 2, 5])),
        "branching_strategy": draw(st.integers(0, 4)),
        "cost_cover_disjoint_paths": draw(st.booleans()),
        "cost_cover_shortest_path": draw(st.booleans()),
        "cycle_cover": draw(st.booleans()),
        "sec_lp_gap_improvement_threshold": draw(st.sampled_from([0.01, 0.0, 0.001, 0.1, 0.5])),
        "sec_max_tailing_off_iterations": draw(st.sampled_from([-1, -1, 0, 1, 2, 3, 5])),
        "sec_sepafreq": draw(st.sampled_from([1, 1, 1, 2, 3, 0, -1])),
        "simple_rules_only": draw(st.booleans()),
    }
    k = draw(st.integers(0, 2 if separators == "some" else 3))
    s["sec_disjoint_tour"] = k in (0, 1)
    s["sec_maxflow_mincut"] = k in (0, 2)
    s.update(fixed)
    return s


@st.composite
def clusters(draw, nmin=6, nmax=9):
    """Clusters of vertices that are cheap inside and dear between: the relaxation has subtours."""
    n = draw(st.integers(nmin, nmax))
    k = draw(st.integers(2, max(2, n // 3)))
    where = [i * k // n for i in range(n)]
    lab = draw(gen.labels_of(n))
    hi = draw(st.sampled_from([1, 3, 9, 60]))
    far = draw(st.sampled_from([3, 10, 40, 300]))
    drop = draw(st.sampled_from([0, 0, 4, 2]))
    es = []
    for i in range(n):
        for j in range(i + 1, n):
            same = where[i] == where[j]
            if drop and not same and draw(st.integers(0, drop)) == 0:
                continue
            es.append([lab[i], lab[j], draw(st.integers(0 if hi == 3 else 1, hi)) if same else far + draw(st.integers(0, far))])
    es = draw(st.permutations(es)) if draw(st.booleans()) else es
    pz = gen.ints(draw, 0, 9, n)
    tot = sum(pz)
    q = draw(st.one_of(st.integers(tot // 2, max(1, tot)), st.integers(0, tot + 1)))
    return {"v": [[lab[i], pz[i]] for i in range(n)], "e": [list(e) for e in es], "root": lab[draw(st.integers(0, n - 1))],
            "quota": q, "shape": "clusters"}


@st.composite
def fractional(draw, nmin=6, nmax=9):
    """Sparse graphs of triangles joined by paths: the relaxation has half-integral vertices."""
    n = draw(st.integers(nmin, nmax))
    lab = draw(gen.labels_of(n))
    a, b, c = sorted(draw(st.permutations(list(range(n))))[:3])
    es = {}
    order = draw(st.permutations(list(range(n))))
    for i in range(n):
        es[frozenset((order[i], order[(i + 1) % n]))] = draw(st.integers(1, 30))
    for _ in range(draw(st.integers(2, n + 3))):
        i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        if i != j:
            es.setdefault(frozenset((i, j)), draw(st.integers(1, 30)))
    pz = gen.ints(draw, 0, 9, n)
    tot = sum(pz)
    return {"v": [[lab[i], pz[i]] for i in range(n)], "e": [[*(lab[x] for x in sorted(k)), c] for k, c in es.items()],
            "root": lab[draw(st.integers(0, n - 1))], "quota": draw(st.integers(tot // 3, max(1, tot))), "shape": "fractional"}


def instances(nmin=3, nmax=9):
    g = gen.graphs(nmin=nmin, nmax=nmax, isolated=False,
                   shapes=("mask", "dense", "complete", "cycle", "sparse", "wheel", "twoblocks"))
    k = min(6, nmax)
    return st.one_of(clusters(nmin=k, nmax=nmax), g, fractional(nmin=k, nmax=nmax), clusters(nmin=k, nmax=nmax))


_dir = None
_lib = None


def setup(flavour="rel"):
    global _lib, solve_pctsp, Model
    repo.native(flavour)
    _lib = ctypes.CDLL(str(repo.VERIF / "build" / (repo.FLAVOUR or flavour) / "libpypctsp.so"))
    _lib.vp_spy_json.restype = ctypes.c_char_p
    _lib.vp_last_callback_exception.restype = ctypes.c_char_p
    _lib.vp_callback_exceptions.restype = ctypes.c_long
    _lib.vp_solve_rc.restype = ctypes.c_long
    _lib.vp_spy_created.restype = ctypes.c_long
    from pyscipopt import Model
    from pctsp.algorithms import solve_pctsp
    logging.disable(logging.CRITICAL)


def scratch():
    global _dir
    if _dir is None or not os.path.isdir(_dir):
        _dir = tempfile.mkdtemp(prefix="solve-")
    d = Path(_dir) / "s"
    if d.exists():
        shutil.rmtree(d)
    return d


def disjoint_costs(g):
    """Cost of the cheapest pair of disjoint paths from the root to every vertex that has one."""
    adj = gen.adj(g)
    if g["root"] not in adj:
        return {}
    best = {}
    if len(adj) > 13:
        arcs = [((v, 0), (v, 1), 0) for v in adj] + [((u, 1), (v, 0), c) for u in adj for v, c in adj[u].items()]
        d = oracle.min_cost_two_flow([(v, h) for v in adj for h in (0, 1)], arcs, (g["root"], 1))
        return {t: c for (t, h), c in d.items() if h == 0 and t != g["root"]}
    for s, (c, _) in oracle.tours_by_set(adj, g["root"]).items():
        for v in s:
            if v != g["root"] and c < best.get(v, 1 << 60):
                best[v] = c
    return best


def solve(g, s, heur=(), spy=False, params=None, disjoint=None, time_limit=14400.0, mid=None, level=logging.ERROR, first=None):
    """-> dict(edges | exc, ...). params: SCIP parameters to set before the solve."""
    G = gen.to_nx(g)
    M = Model(problemName="m", createscip=True, defaultPlugins=False)
    M.hideOutput()
    d = scratch()
    r = {"dir": d}
    for k, v in (params or {}).items():
        M.setParam(k, v)
    if first:
        first(M)
    if disjoint is None:
        disjoint = disjoint_costs(g) if s["cost_cover_disjoint_paths"] else {}
    if spy:
        _lib.vp_spy_start()
    before = _lib.vp_callback_exceptions()
    try:
        r["edges"] = [tuple(e) for e in solve_pctsp(
            M, G, [tuple(e) for e in heur], g["quota"], g["root"], disjoint_paths_cost=disjoint, logging_level=level,
            name="inst", solver_dir=d, time_limit=time_limit, **s)]
    except Exception as e:  # noqa
        r["exc"] = e
    r["callback_exceptions"] = _lib.vp_callback_exceptions() - before
    if r["callback_exceptions"]:
        r["callback_exception"] = _lib.vp_last_callback_exception().decode()
    if spy:
        r["rc"] = _lib.vp_solve_rc()
        r["created"] = _lib.vp_spy_created()
        r["spy"] = json.loads(_lib.vp_spy_json())
        _lib.vp_spy_stop()
    if "exc" not in r:
        r["status"] = M.getStatus()
        r["lb"], r["ub"] = M.getDualbound(), M.getPrimalbound()
        r["nodes"] = M.getNNodes()
        r["nsols"] = M.getNSols()
        if mid:
            mid(M, r)
    try:
        M.freeProb()
    except Exception as e:  # noqa
        r.setdefault("exc", e)
    del M
    return r


def heuristic_edges(g, kind):
    """The edge list of a warm start; kind = ["none"], ["best"], ["tour", k], ["edges", mask], ["cycle", k]"""
    adj = gen.adj(g)
    prize = dict(map(tuple, g["v"]))
    if kind[0] == "none" or g["root"] not in adj:
        return []
    if kind[0] == "best":
        b = oracle.best_tour(adj, prize, g["root"], g["quota"])
        t = b[1] if b else ()
    elif kind[0] == "edges":
        return [tuple(e[:2]) for k, e in enumerate(g["e"]) if kind[1] >> k & 1]
    elif kind[0] in ("tour", "feasible"):
        ts = sorted(x for _, x in oracle.tours_by_set(adj, g["root"]).values())
        if kind[0] == "feasible":
            ts = [t for t in ts if sum(prize[v] for v in t[:-1]) >= g["quota"]]
        t = ts[kind[1] % len(ts)] if ts else ()
    else:  # a cycle avoiding the root
        rest = {v: {w: c for w, c in a.items() if w != g["root"]} for v, a in adj.items() if v != g["root"]}
        ts = []
        for v in sorted(rest):
            ts += [x for _, x in oracle.tours_by_set(rest, v).values()]
            if len(ts) > 40:
                break
        t = ts[kind[1] % len(ts)] if ts else ()
    return [(t[i], t[i + 1]) for i in range(len(t) - 1)]


def warm_starts():
    k = st.integers(0, 200)
    return st.one_of(st.just(["none"]), st.just(["best"]), st.tuples(st.just("feasible"), k).map(list),
                     st.tuples(st.just("tour"), k).map(list))


def ordered(edges, root):
    """The edges of a cycle in the order in which they are walked from the root."""
    left = [tuple(e) for e in edges]
    out, at = [], root
    while left:
        k = next((k for k, e in enumerate(left) if at in e), None)
        if k is None:
            return out
        u, v = left.pop(k)
        nxt = v if u == at else u
        out.append((at, nxt))
        at = nxt
    return out
