"""What the separators find at a given point."""
import json

import numpy as np
from hypothesis import strategies as st

import gen
import oracle
import repo
from harness import Part, check, sut

PROPERTY = "C20"
HX = ("model",)
RULE = ("points on graphs of 4-10 and (large) 10-60 vertices (sums of closed walks and cycles with weights in 64ths, so that every vertex has degree "
        "twice its value, and half-integral points on odd cycles joined by paths), separated by the disjoint tour, max-flow and "
        "cycle cover separation inside SCIP; cuts against exact minimum cuts. Non-trivial: some subtour inequality is violated.")
ASSUMPTIONS = ["SCIP counts a cut with at most 60 terms as efficacious when its violation is above 0.005"]
EPS = 1e-6
LEAST = 0.005  # violations the separator must notice


def setup():
    global hx
    repo.native("rel")
    hx = repo.hx("model")


def min_cut(n, x, s, t):
    """Exact minimum cut over integer capacities (units of 1/D): (value, maximal target side)."""
    cap = {}
    for (u, v), w in x.items():
        if u != v and w:
            cap[(u, v)] = cap.get((u, v), 0) + w
            cap[(v, u)] = cap.get((v, u), 0) + w
    nb = {}
    for u, v in cap:
        nb.setdefault(u, set()).add(v)
    flow = 0
    while True:
        par = {s: None}
        todo = [s]
        while todo and t not in par:
            a = todo.pop(0)
            for b in nb.get(a, ()):
                if b not in par and cap[(a, b)] > 0:
                    par[b] = a
                    todo.append(b)
        if t not in par:
            return flow, set(par)
        path = []
        v = t
        while par[v] is not None:
            path.append((par[v], v))
            v = par[v]
        f = min(cap[e] for e in path)
        for a, b in path:
            cap[(a, b)] -= f
            cap[(b, a)] += f
        flow += f


def components(n, x):
    p = list(range(n))

    def find(a):
        while p[a] != a:
            a = p[a]
        return a
    for (u, v), w in x.items():
        if w:
            p[find(u)] = find(v)
    out = {}
    for v in range(n):
        out.setdefault(find(v), set()).add(v)
    return list(out.values())


def rows_of(js):
    out = []
    for ev in json.loads(js):
        if ev["kind"] != "row":
            continue
        d = {}
        for u, v, c in ev["terms"]:
            k = (min(u, v), max(u, v))
            d[k] = d.get(k, 0.0) + c
        out.append((ev["lhs"], ev["rhs"], {k: c for k, c in d.items() if c}))
    return out


def target_of(d, root):
    """The vertex whose value bounds the inequality x(E(S)) <= y(S) - y_t."""
    if (root, root) in d:
        pos = [u for (u, v), c in d.items() if u == v and c > 0]
        return pos[0] if len(pos) == 1 else None
    ends = {x for (u, v), c in d.items() if u != v for x in (u, v)}
    rest = ends - {u for (u, v), c in d.items() if u == v}
    return rest.pop() if len(rest) == 1 else None


def run(case):
    n, root, D = case["n"], case["root"], case["D"]
    ps = [tuple(p) for p in case["e"]]
    prizes, quota = case["prize"], case["quota"]
    edges = [(u, v, 1) for u, v in ps]
    points, ints = [], []
    for pt in case["points"]:
        x = {p: w for p, w in zip(ps, pt) if w}
        y = {}
        for (u, v), w in x.items():
            y[u] = y.get(u, 0) + w
            y[v] = y.get(v, 0) + w
        if y.get(root, 0) != 2 * D or any(w > D for w in x.values()) or any(w > 2 * D for w in y.values()):
            continue
        ints.append((x, {v: w / (2 * D) for v, w in y.items()}))
        points.append([(u, v, w / D) for (u, v), w in x.items()] + [(v, v, w / (2 * D)) for v, w in y.items()])
    if not points:
        return None
    what, dis, mf = case["what"]
    got = sut(hx.separate, n, edges, prizes, quota, root, what, dis, mf, points)
    none, sep, cut = hx.result_codes()
    adj = {v: {} for v in range(n)}
    for u, v in ps:
        adj[u][v] = adj[v][u] = 1
    tours = None
    tags = set()
    for (x, y), (js, res) in zip(ints, got):
        rows = rows_of(js)
        val = {(min(u, v), max(u, v)): w / D for (u, v), w in x.items()}
        val.update({(v, v): w for v, w in y.items()})
        for lhs, rhs, d in rows:
            a = sum(c * val.get(k, 0.0) for k, c in d.items())
            check(a > rhs + EPS or (lhs is not None and a < lhs - EPS),
                  "the row %s in [%s, %s] was added but the point %s satisfies it", d, lhs, rhs, val)
        check(res in ((sep, cut) if rows else (none,)), "result code %s with %s rows at %s", res, len(rows), val)
        if rows and (n <= 8 or "tours" in case):
            if tours is None:
                tours = case["tours"] if "tours" in case else oracle.all_tours(adj, root)
            for t in tours:
                if what == 1 and sum(prizes[v] for v in t[:-1]) < quota:
                    continue
                z = {(min(t[i], t[i + 1]), max(t[i], t[i + 1])): 1 for i in range(len(t) - 1)}
                z.update({(v, v): 1 for v in t[:-1]})
                for lhs, rhs, d in rows:
                    a = sum(c * z.get(k, 0) for k, c in d.items())
                    check(a <= rhs + EPS and (lhs is None or a >= lhs - EPS), "the row %s <= %s cuts off the tour %s", d, rhs, t)
        comps = components(n, x)
        rc = next(c for c in comps if root in c)
        if what == 1:
            if sum(prizes[v] for v in rc) < quota:
                # the edges of the component are exactly what its vertices allow
                check(rows, "no inequality for the root component %s with prize below %s at %s", rc, quota, val)
                tags.add("component below the quota")
            else:
                check(not rows, "an inequality although the root component %s reaches the quota", rc)
            continue
        targets = {target_of(d, root) for _, _, d in rows}
        others = [c for c in comps if root not in c and len(c) >= 2]
        if dis:
            for c in others:
                for t in c:
                    check(t in targets, "the component %s without the root %s: no inequality for vertex %s at %s", c, root, t, val)
            if others:
                tags.add("components")
        inside = False
        flows = {}
        for t in sorted(rc - {root}):
            flows[t] = min_cut(n, x, root, t)[0]
        if mf:
            low = max([f for f in flows.values() if f < 2 * D], default=0)  # any of these cuts may be the one found for t
            for t, f in flows.items():
                short = y[t] - f / (2 * D)
                if short > LEAST:
                    inside = True
                    if y[t] - low / (2 * D) > LEAST:
                        check(t in targets, "vertex %s of value %s is joined to the root by %s only: no inequality at %s", t, y[t], f / D, val)
                        tags.add("weakly joined")
        elif not others:
            check(not rows, "rows %s though every vertex is in the root component", rows)
        violated = (dis and others) or inside
        if not violated and not any(y[t] - flows[t] / (2 * D) > 1e-9 for t in flows) and not others:
            check(not rows, "rows %s at a point that satisfies every subtour inequality", rows)
            tags.add("satisfied")
    t = {"components", "weakly joined", "component below the quota"} & tags
    return sorted(tags) if t else None


def _add(pt, ix, path, w, n):
    for i in range(len(path) - 1):
        pt[ix[(min(path[i], path[i + 1]), max(path[i], path[i + 1]))]] += w


WEIGHTS = {1: [[64]],
           2: [[32, 32], [16, 48], [48, 16], [63, 1], [1, 63], [62, 2], [61, 3], [36, 28], [28, 36]],
           3: [[16, 16, 32], [32, 16, 16], [62, 1, 1], [1, 1, 62], [20, 21, 23], [2, 30, 32]],
           4: [[16, 16, 16, 16], [1, 1, 31, 31], [61, 1, 1, 1], [13, 17, 15, 19]]}


@st.composite
def cases(draw, nmin=4, nmax=9, what=None):
    n = draw(st.integers(nmin, nmax))
    root = draw(st.integers(0, n - 1))
    walks = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(["covers", "half", "whole"]))
        if k in ("covers", "whole"):
            # each layer: disjoint cycles, one through the root
            lay = []
            for _ in range(1 if k == "whole" else draw(st.integers(2, 4))):
                p = [v for v in draw(st.permutations(list(range(n)))) if v != root]
                seq = [root] + p
                cyc = []
                pos = 0
                while n - pos >= 3:
                    ln = draw(st.integers(3 if k == "whole" else 2, n - pos))
                    if pos == 0 or draw(st.integers(0, 2)):
                        cyc.append(seq[pos:pos + ln])
                    pos += ln
                lay.append(cyc)
            ws = draw(st.sampled_from(WEIGHTS[len(lay)]))
            walks.append([(c + c[:1], w) for cyc, w in zip(lay, ws) for c in cyc])  # of two vertices: there and back
        else:
            # two odd cycles joined by a path (or touching), in halves; plus further half cycles elsewhere
            p = draw(st.permutations(list(range(n))))
            i = p.index(root)
            p = p[i:] + p[:i]
            a = 3
            if n < 6:
                walks.append([(p[:3] + p[:1], 64)])
                continue
            gap = draw(st.integers(0, n - 6))
            c1, path, c2 = p[:a], p[a - 1:a + gap + 1], p[a + gap:a + gap + 3]
            r = draw(st.integers(0, len(c1 + path) - 1))
            w = [(c1 + c1[:1], 32), (path, 64), (c2 + c2[:1], 32)]
            walks.append(w)
            # the root must have value one: it is on the path between the triangles
            ends = path
            sw = draw(st.integers(0, len(ends) - 1))
            m = {root: ends[sw], ends[sw]: root}
            walks[-1] = [([m.get(v, v) for v in c], x) for c, x in w]
    es = set()
    for w in walks:
        for c, _ in w:
            es |= {(min(c[i], c[i + 1]), max(c[i], c[i + 1])) for i in range(len(c) - 1)}
    extra = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), max_size=4))
    es |= {(min(e), max(e)) for e in extra if e[0] != e[1]}
    es = sorted(es)
    es = draw(st.permutations(es))
    ix = {e: i for i, e in enumerate(es)}
    pts = []
    for w in walks:
        pt = [0] * len(es)
        for c, x in w:
            _add(pt, ix, c, x, n)
        pts.append(pt)
    if len(pts) >= 2 and draw(st.booleans()):  # mean of the first two
        pts.append([a + b for a, b in zip(pts[0], pts[1])])
        pts = [[2 * a for a in p] for p in pts[:-1]] + pts[-1:]
        D = 128
    else:
        D = 64
    pz = gen.ints(draw, 0, 5, n)
    if what is None:
        what = draw(st.sampled_from([(0, True, True), (0, True, False), (0, False, True)]))
    else:
        what = what
    return {"n": n, "root": root, "D": D, "e": [list(e) for e in es], "points": pts, "prize": pz,
            "quota": draw(st.integers(0, max(1, sum(pz))) if what[0] == 0 else st.integers(sum(pz) // 3, sum(pz) + 1)), "what": list(what)}


def large_case(n, seed, what):
    """A point on up to sixty vertices: layers of disjoint cycles, most of them inside clusters of the vertices."""
    import random
    rng = random.Random(seed)
    order = list(range(n))
    rng.shuffle(order)
    root = order[0]
    cl, pos = [], 0
    while n - pos >= 3:
        ln = rng.randint(3, min(n - pos, rng.choice([4, 8, 20])))
        cl.append(order[pos:pos + ln])
        pos += ln
    walks = []
    for _ in range(rng.randint(1, 3)):
        lay = []
        for _ in range(rng.randint(1, 4)):
            cyc = []
            for i, c in enumerate(cl):
                if cyc and rng.random() < rng.choice([0.1, 0.4]):  # one cycle through this and the cluster before
                    c, i = cyc.pop() + c, i - 1 if len(cyc) == 0 else i
                elif i and rng.random() < 0.15:
                    continue  # not visited
                c = list(c)
                if root in c:
                    rest = [v for v in c if v != root]
                    rng.shuffle(rest)
                    c = [root] + rest[:rng.randint(max(2, len(rest) // 2), len(rest))]
                else:
                    rng.shuffle(c)
                cyc.append(c)
            lay.append(cyc)
        ws = rng.choice(WEIGHTS[len(lay)])
        walks.append([(c + c[:1], w) for cyc, w in zip(lay, ws) for c in cyc])
    es = {(min(a, b), max(a, b)) for w in walks for c, _ in w for a, b in zip(c, c[1:])}
    for _ in range(rng.choice([0, 5, n])):
        a, b = rng.sample(range(n), 2)
        es.add((min(a, b), max(a, b)))
    es = sorted(es)
    rng.shuffle(es)
    ix = {e: i for i, e in enumerate(es)}
    pts = []
    for w in walks:
        pt = [0] * len(es)
        for c, x in w:
            _add(pt, ix, c, x, n)
        pts.append(pt)
    D = 64
    if len(pts) >= 2 and rng.random() < 0.5:
        pts = [[2 * a for a in p] for p in pts] + [[a + b for a, b in zip(pts[0], pts[1])]]
        D = 128
    pz = [rng.randint(0, 5) for _ in range(n)]
    tours = [c for w in walks for c, _ in w if c[0] == root and len(c) > 3]
    return {"n": n, "root": root, "D": D, "e": [list(e) for e in es], "points": pts, "prize": pz, "tours": tours,
            "quota": rng.randint(0, sum(pz)) if what[0] == 0 else rng.randint(0, sum(pz) // 2), "what": what}


def run_large(case):
    return run(large_case(case["n"], case["seed"], case["what"]))


@st.composite
def large_cases(draw):
    return {"n": draw(st.integers(10, 60)), "seed": draw(st.integers(0, 10 ** 9)), "what": list(draw(st.sampled_from([(0, True, True), (0, False, True), (0, True, False), (1, False, False)])))}


# ---------------------------------------------------------------- cost cover
def run_cover(case):
    g = case["g"]
    ix = {v: i for i, (v, _) in enumerate(g["v"])}
    n = len(ix)
    edges = [(ix[u], ix[v], c) for u, v, c in g["e"]]
    adj = gen.adj(g)
    dist = oracle.distances(adj, g["root"])
    got = sut(hx.cover_distances, n, edges, ix[g["root"]])
    check(len(got) == n, "%s distances for %s vertices", len(got), n)
    for v, i in ix.items():
        if v in dist:
            check(got[i] == 2 * dist[v], "twice the distance of %s is %s, not %s", v, 2 * dist[v], got[i])
        else:
            check(got[i] > 2 * sum(dist.values()), "vertex %s cannot be reached but has the distance %s", v, got[i])
    ds = [case["d"][i % len(case["d"])] for i in range(n)]
    b = case["bound"]
    dear = sut(hx.too_dear, n, edges, ds, b)
    check(sorted(dear) == [i for i in range(n) if ds[i] > b], "vertices dearer than %s in %s: %s", b, ds, dear)
    return ["reachable" if len(dist) == n else "unreachable"] if len(dist) > 1 else None


@st.composite
def cover_cases(draw):
    g = draw(gen.graphs(nmin=2, nmax=9, quota=False))
    return {"g": g, "d": draw(st.lists(st.integers(0, 30), min_size=1, max_size=9)), "bound": draw(st.integers(0, 30))}


# ---------------------------------------------------------------- tailing off, residual reachability, cuts
def run_tail(case):
    gs, th, k = case["gaps"], case["threshold"], case["k"]
    got = sut(hx.tailing, gs, th, k)
    off = False
    for i, (window, ans) in enumerate(got):
        want = gs[max(0, i + 1 - k):i + 1] if k >= 1 else []
        check(window == want, "after the gaps %s the last %s are %s", gs[:i + 1], k, window)
        exp = k >= 2 and i + 1 >= k and want[0] - want[-1] < th
        check(ans == exp, "gaps %s, threshold %s, %s iterations: tailing off is %s", gs[:i + 1], th, k, ans)
        off |= exp
    return ["tailing off"] if off else (["not"] if k >= 2 and len(gs) >= k else None)


@st.composite
def tail_cases(draw):
    q = st.integers(0, 16).map(lambda a: a / 8)
    gs = draw(st.lists(q, min_size=1, max_size=9))
    if draw(st.booleans()):
        gs = sorted(gs, reverse=True)
    return {"gaps": gs, "threshold": draw(st.integers(-4, 12)) / 8 + 1 / 16, "k": draw(st.integers(-1, 5))}


def run_reach(case):
    n, s = case["n"], case["s"]
    arcs = [tuple(a) for a in case["arcs"]]
    a, b = sut(hx.reach, n, arcs, s)
    seen, todo = {s}, [s]
    while todo:
        v = todo.pop()
        for x, y, w in arcs:
            if x == v and w > 0 and y not in seen:
                seen.add(y)
                todo.append(y)
    check(sorted(a) == sorted(seen), "reachable from %s by positive arcs of %s: %s", s, arcs, a)
    check(sorted(b) == sorted(set(range(n)) - seen), "unreachable from %s by positive arcs of %s: %s", s, arcs, b)
    und = sorted({(min(x, y), max(x, y)) for x, y, _ in arcs if x != y})
    side = case["side"]
    got = sut(hx.cut_edges, n, [(x, y, 1) for x, y in und], side)
    check(sorted((min(p), max(p)) for p in got) == [e for e in und if side[e[0]] != side[e[1]]], "edges of the cut %s of %s: %s", side, und, got)
    return ["cut"] if 1 < len(seen) < n else None


@st.composite
def reach_cases(draw):
    n = draw(st.integers(2, 8))
    v = st.integers(0, n - 1)
    arcs = draw(st.lists(st.tuples(v, v, st.sampled_from([0, 0, 1, 1, 7])), max_size=20))
    return {"n": n, "s": draw(v), "arcs": [list(a) for a in arcs], "side": gen.ints(draw, 0, 1, n)}


PARTS = [Part("large", large_cases(), run_large, 1600, 40000, budget={"quick": 12}),
         Part("subtours", cases(), run, 4000, 120000, budget={"quick": 12}),
         Part("cycle cover", cases(what=(1, False, False)), run, 1600, 40000, budget={"quick": 6}),
         Part("cost cover", cover_cases(), run_cover, 2400, 60000, budget={"quick": 5}),
         Part("tailing off", tail_cases(), run_tail, 3200, 100000, budget={"quick": 4}),
         Part("cuts", reach_cases(), run_reach, 2400, 80000, budget={"quick": 4})]
