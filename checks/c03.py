"""Which 0/1 assignments the built problem accepts."""
from hypothesis import strategies as st

import gen
import oracle
import repo
from harness import Part, check, sut

PROPERTY = "C03"
HX = ("model",)
RULE = ("0/1 assignments of edges and vertices on graphs of 3-8 and (large) 7-50 vertices (tours, prize-infeasible tours, cycles without the root, "
        "unions of disjoint cycles, tours with a vertex or an edge changed, wrong vertices, arbitrary subsets; on graphs of up to 5 "
        "vertices all edge subsets), with and without the cycle cover handler. Non-trivial: some assignment is a prize-feasible tour "
        "or some wrong one satisfies the degree, root and prize constraints.")


def setup():
    global hx
    repo.native("rel")
    hx = repo.hx("model")


def index(g):
    """Vertices as 0..n-1."""
    ix = {v: i for i, (v, _) in enumerate(g["v"])}
    return len(ix), [(ix[u], ix[v], c) for u, v, c in g["e"]], [p for _, p in g["v"]], ix[g["root"]]


def is_tour(edges, loops, prizes, root, quota):
    if oracle.is_cycle_edges(edges) is not None:
        return False
    vs = {x for e in edges for x in e}
    return root in vs and set(loops) == vs and sum(prizes[v] for v in vs) >= quota


def degree_ok(edges, loops, prizes, root, quota):
    deg = {}
    for u, v in edges:
        deg[u] = deg.get(u, 0) + 1
        deg[v] = deg.get(v, 0) + 1
    return root in loops and all(deg.get(v, 0) == (2 if v in loops else 0) for v in range(len(prizes))) and \
        sum(prizes[v] for v in loops) >= quota


def cycles_of(n, edges, limit=400):
    """Simple cycles as vertex tuples."""
    adj = {v: {} for v in range(n)}
    for u, v, c in edges:
        adj[u][v] = adj[v][u] = c
    out = []
    for r in range(n):
        sub = {v: {w: c for w, c in a.items() if w >= r} for v, a in adj.items() if v >= r}
        out += [t[:-1] for t in oracle.all_tours(sub, r)]
        if len(out) > limit:
            break
    return out


def edges_of(c):
    return [(c[i], c[(i + 1) % len(c)]) for i in range(len(c))]


def materialise(case):
    n, edges, prizes, root = index(case["g"])
    ps = [(u, v) for u, v, _ in edges]
    cyc = case["cyc"] if "cyc" in case else cycles_of(n, edges) if n <= 7 or len(edges) <= 16 else []
    out = []
    for a in case["a"]:
        kind = a[0]
        if kind == "mask":
            es = [p for k, p in enumerate(ps) if a[1] >> k & 1]
        elif kind == "cycles":
            es, used = [], set()
            for k in a[1]:
                if not cyc:
                    break
                c = cyc[k % len(cyc)]
                if used & set(c):  # look for a disjoint one
                    rest = [x for x in cyc if not used & set(x)]
                    if not rest:
                        continue
                    c = rest[k % len(rest)]
                used |= set(c)
                es += edges_of(c)
        else:
            rooted = [c for c in cyc if root in c]
            es = edges_of(rooted[a[1] % len(rooted)]) if rooted else []
        if kind != "mask" and a[2] is not None and ps:  # flip one edge
            p = ps[a[2] % len(ps)]
            q = [e for e in es if set(e) != set(p)]
            es = q if len(q) < len(es) else es + [p]
        norm = {frozenset(p): p for p in ps}
        es = [norm[frozenset(e)] for e in es]
        vs = {x for e in es for x in e}
        if a[3] is not None:
            vs ^= {a[3] % n}
        out.append((es, sorted(vs)))
    if case.get("all"):
        for m in range(1 << len(ps)):
            es = [p for k, p in enumerate(ps) if m >> k & 1]
            out.append((es, sorted({x for e in es for x in e})))
    return n, edges, prizes, root, out


def run(case):
    n, edges, prizes, root, asg = materialise(case)
    q = case["g"]["quota"]
    got = sut(hx.accepts, n, edges, prizes, q, root, *case["flags"], asg)
    tour = wrong = two = short = False
    for (es, vs), ok in zip(asg, got):
        want = is_tour(es, vs, prizes, root, q)
        check(ok == want, "edges %s, vertices %s (root %s, prizes %s, quota %s): accepted is %s, is a prize-feasible tour is %s",
              es, vs, root, prizes, q, ok, want)
        tour |= want
        if not want and degree_ok(es, vs, prizes, root, q):
            wrong = True
            two |= root in {x for e in es for x in e}
    tags = []
    if tour and wrong:
        tags.append("tour and several cycles")
    elif wrong:
        tags.append("several cycles")
    elif tour:
        tags.append("tour")
    else:
        return None
    return tags


flags = st.tuples(st.booleans(), st.booleans(), st.booleans(), st.booleans()).map(list)
big = st.integers(0, 10 ** 6)


@st.composite
def cases(draw):
    g = draw(gen.graphs(nmin=6, nmax=8, isolated=True, shapes=("dense", "complete", "wheel", "twoblocks", "sparse", "mask")))
    if draw(st.booleans()):
        g["quota"] = draw(st.integers(0, 6))
    opt = st.one_of(st.none(), st.none(), st.none(), big)
    cyc = st.tuples(st.just("cycles"), st.lists(big, min_size=1, max_size=3), opt, opt)
    tour = st.tuples(st.just("tour"), big, opt, opt)
    mask = st.tuples(st.just("mask"), st.integers(0, (1 << max(1, len(g["e"]))) - 1), st.none(), opt)
    a = draw(st.lists(st.one_of(cyc, tour, cyc, mask), min_size=4, max_size=14))
    return {"g": g, "flags": draw(flags), "a": [list(x) for x in a]}


@st.composite
def two_cycle_cases(draw):
    """Two disjoint cycles are planted, one through the root."""
    k1, k2 = draw(st.integers(3, 4)), draw(st.integers(3, 4))
    n = k1 + k2 + draw(st.integers(0, 1))
    lab = draw(gen.labels_of(n))
    p = draw(st.permutations(list(range(n))))
    es = {frozenset((p[i], p[(i + 1) % k1])) for i in range(k1)} | {frozenset((p[k1 + i], p[k1 + (i + 1) % k2])) for i in range(k2)}
    for i in range(n):
        for j in range(i):
            if draw(st.integers(0, 2)) == 0:
                es.add(frozenset((i, j)))
    es = sorted(tuple(sorted(e)) for e in es)
    pz = gen.ints(draw, 0, 6, n)
    g = {"v": [[lab[i], pz[i]] for i in range(n)], "e": [[lab[i], lab[j], draw(st.integers(0, 20))] for i, j in es],
         "root": lab[p[0]], "quota": draw(st.integers(0, sum(pz[i] for i in p[:k1 + k2])))}
    opt = st.one_of(st.none(), st.none(), st.none(), big)
    cyc = st.tuples(st.just("cycles"), st.lists(big, min_size=1, max_size=2), opt, opt)
    a = draw(st.lists(cyc, min_size=8, max_size=16))
    return {"g": g, "flags": draw(flags), "a": [list(x) for x in a]}


@st.composite
def small_cases(draw):
    g = draw(gen.graphs(nmin=3, nmax=5))
    return {"g": g, "flags": draw(flags), "a": [], "all": True}


def run_small(case):
    n, edges, prizes, root, asg = materialise(case)
    q = case["g"]["quota"]
    got = sut(hx.accepts, n, edges, prizes, q, root, *case["flags"], asg)
    t = 0
    for (es, vs), ok in zip(asg, got):
        want = is_tour(es, vs, prizes, root, q)
        check(ok == want, "edges %s, vertices %s (root %s, prizes %s, quota %s): accepted is %s, is a prize-feasible tour is %s",
              es, vs, root, prizes, q, ok, want)
        t += want
    return ["some tour", "several tours"][:min(t, 2)] if t else None


def large_case(n, seed, flags):
    """Disjoint cycles, one through the root, and other edges on up to fifty vertices."""
    import random
    rng = random.Random(seed)
    lab = rng.sample(range(4 * n), n)
    order = rng.sample(range(n), n)
    cyc, pos = [], 0
    while n - pos >= 3 and len(cyc) < rng.choice([1, 2, 2, 3, 9]):
        ln = rng.randint(3, n - pos)
        cyc.append(order[pos:pos + ln])
        pos += ln
    es = {frozenset(e) for c in cyc for e in edges_of(c)}
    # other cycles: a stretch of a cycle closed by a chord, two cycles joined by two edges
    for c in list(cyc):
        if len(c) >= 4:
            k = rng.randint(3, len(c) - 1)
            cyc.append(c[:k])
    if len(cyc) >= 2 and not set(cyc[0]) & set(cyc[1]):
        cyc.append(cyc[0] + cyc[1])
    es |= {frozenset(e) for c in cyc for e in edges_of(c)}
    for _ in range(rng.choice([0, n, 3 * n])):
        es.add(frozenset(rng.sample(range(n), 2)))
    pz = [rng.randint(0, rng.choice([1, 9, 1000])) for _ in range(n)]
    root = order[0]
    tot = sum(pz)
    q = rng.choice([0, sum(pz[v] for v in cyc[0]), sum(pz[v] for v in cyc[-1]), rng.randint(0, tot)])
    g = {"v": [[lab[i], pz[i]] for i in range(n)], "e": [[lab[i], lab[j], rng.randint(0, 1000)] for i, j in (sorted(e) for e in sorted(es, key=sorted))], "root": lab[root], "quota": q}
    opt = lambda: rng.choice([None, None, None, rng.randrange(10 ** 6)])
    a = [["cycles", [rng.randrange(10 ** 6) for _ in range(rng.randint(1, 4))], opt(), opt()] if rng.random() < 0.7 else ["tour", rng.randrange(10 ** 6), opt(), opt()] for _ in range(16)]
    return {"g": g, "flags": flags, "a": a, "cyc": [tuple(c) for c in cyc]}


def run_large(case):
    return run(large_case(case["n"], case["seed"], case["flags"]))


large_cases = st.fixed_dictionaries({"n": st.integers(7, 50), "seed": st.integers(0, 10 ** 9), "flags": flags})


# ---------------------------------------------------------------- warm starts as stored solutions
def run_stored(case):
    g = case["g"]
    n, edges, prizes, root = index(g)
    ix = {v: i for i, (v, _) in enumerate(g["v"])}
    adj = {v: {} for v in range(n)}
    for u, v, c in edges:
        adj[u][v] = adj[v][u] = c
    tours = sorted(oracle.all_tours(adj, root))
    ok = [t for t in tours if sum(prizes[v] for v in t[:-1]) >= g["quota"]]
    if not ok:
        return None
    ws = [list(ok[k % len(ok)]) for k in case["picks"]]
    if case["kind"] == 0:
        ws = ws[:1]
    if case["reverse"]:
        ws = [w[::-1] for w in ws]
    got = sut(hx.stored, n, edges, prizes, g["quota"], root, case["kind"], ws)
    want = {frozenset(frozenset((w[i], w[i + 1])) for i in range(len(w) - 1)): oracle.walk_cost(adj, w) for w in ws}
    seen = set()
    for cost, es, vs in got:
        s = frozenset(map(frozenset, es))
        check(s in want, "a solution with the edges %s is stored, only %s were added", es, ws)
        check(abs(cost - want[s]) < 1e-6, "the tour %s costs %s but is stored with %s", es, want[s], cost)
        check(sorted(vs) == sorted({x for e in es for x in e}), "the tour %s is stored with the vertices %s", es, vs)
        seen.add(s)
    check(seen == set(want), "the tours %s were added but %s are stored", ws, [g[1] for g in got])
    return ["one" if len(want) == 1 else "several"]


@st.composite
def stored_cases(draw):
    g = draw(gen.toured(nmin=3, nmax=7))
    return {"g": g, "kind": draw(st.integers(0, 2)), "picks": draw(st.lists(st.integers(0, 60), min_size=1, max_size=5, unique=True)), "reverse": draw(st.booleans())}


# ---------------------------------------------------------------- the test for a simple cycle itself
def run_cycle(case):
    n, edges = case["n"], [tuple(e) + (1,) for e in case["e"]]
    subsets = [[tuple(case["e"][k]) for k in s] for s in case["subsets"]]
    got = sut(hx.simple_cycle_edges, n, edges, subsets)
    pos = neg = False
    for s, ok in zip(subsets, got):
        want = oracle.is_cycle_edges(s) is None
        check(ok == want, "isSimpleCycle(%s) is %s", s, ok)
        pos |= want
        neg |= not want and bool(s)
    g = subsets[0]
    vs = sorted({x for e in g for x in e})
    m = len(vs) + case["extra"]
    ix = {v: i for i, v in enumerate(vs)}
    es = [(ix[u], ix[v], 1) for u, v in g]
    want = oracle.is_cycle_edges(g) is None and m == len(vs)
    if not any(u == v for u, v in g):
        ok = sut(hx.simple_cycle_graph, m, es)
        check(ok == want, "isGraphSimpleCycle of %s with %s vertices is %s", es, m, ok)
    return ["both"] if pos and neg else ["cycle"] if pos else None


@st.composite
def cycle_cases(draw):
    n = draw(st.integers(3, 9))
    p = draw(st.permutations(list(range(n))))
    k = draw(st.integers(3, n))
    es = {tuple(sorted((p[i], p[(i + 1) % k]))) for i in range(k)}
    if n - k >= 3:
        es |= {tuple(sorted((p[k + i], p[k + (i + 1) % (n - k)]))) for i in range(n - k)}
    es |= {tuple(sorted(e)) for e in draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), max_size=5)) if e[0] != e[1]}
    es = sorted(es)
    loops = draw(st.lists(st.integers(0, n - 1), max_size=1))
    es += [(v, v) for v in loops]
    es = draw(st.permutations(es))
    cyc = {tuple(sorted((p[i], p[(i + 1) % k]))) for i in range(k)}
    main = [i for i, e in enumerate(es) if tuple(e) in cyc]
    rest = [i for i in range(len(es)) if i not in main]
    subs = [main, main + rest, rest]
    subs += draw(st.lists(st.lists(st.integers(0, len(es) - 1), unique=True), max_size=4))
    if draw(st.booleans()):
        subs = subs[1:] + subs[:1]
    return {"n": n, "e": [list(e) for e in es], "subsets": [list(s) for s in subs], "extra": draw(st.sampled_from([0, 0, 0, 1]))}


PARTS = [Part("assignments", cases(), run, 1600, 60000, budget={"quick": 12}),
         Part("two cycles", two_cycle_cases(), run, 1200, 40000, budget={"quick": 8}),
         Part("large", large_cases, run_large, 800, 30000, budget={"quick": 8}),
         Part("all subsets", small_cases(), run_small, 800, 20000, budget={"quick": 8}),
         Part("stored", stored_cases(), run_stored, 1600, 40000, budget={"quick": 8}),
         Part("simple cycle", cycle_cases(), run_cycle, 4000, 200000, budget={"quick": 5})]
