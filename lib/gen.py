"""Generators of graphs and of their encodings as JSON cases."""
from hypothesis import strategies as st


def ints(draw, lo, hi, n):
    return draw(st.lists(st.integers(lo, hi), min_size=n, max_size=n))


COST = {"small": (0, 4), "pos": (1, 20), "mid": (1, 200), "big": (1, 100000), "huge": (1, 10 ** 8), "unit": (1, 1)}


@st.composite
def pairs_of(draw, n, shapes=("mask", "dense", "complete", "cycle", "sparse", "path", "wheel", "twoblocks")):
    """Edges of a simple graph on 0..n-1 as index pairs."""
    allp = [(i, j) for i in range(n) for j in range(i + 1, n)]
    if not allp:
        return [], "mask"
    shape = draw(st.sampled_from(shapes))
    m = len(allp)
    full = (1 << m) - 1

    def mask(x):
        return [p for k, p in enumerate(allp) if x >> k & 1]

    if shape == "mask":
        return mask(draw(st.integers(0, full))), shape
    if shape == "dense":
        return mask(full & ~(draw(st.integers(0, full)) & draw(st.integers(0, full)))), shape
    if shape == "complete":
        return allp, shape
    base = set()
    if shape == "cycle":
        base = {(i, i + 1) for i in range(n - 1)} | ({(0, n - 1)} if n >= 3 else set())
    elif shape == "path":
        base = {(i, i + 1) for i in range(n - 1)}
    elif shape == "wheel":
        base = {(0, i) for i in range(1, n)} | {(i, i + 1) for i in range(1, n - 1)}
    elif shape == "twoblocks":
        k = draw(st.integers(1, max(1, n - 2)))
        base = {(i, i + 1) for i in range(n - 1)}
        if k >= 2:
            base |= {(0, k)}
        if n - 1 - k >= 2:
            base |= {(k, n - 1)}
    extra = draw(st.integers(0, full)) & draw(st.integers(0, full))
    if shape != "sparse":
        extra &= draw(st.integers(0, full))
    base |= set(mask(extra))
    return sorted(base), shape


@st.composite
def labels_of(draw, n, big=60):
    kind = draw(st.sampled_from(["id", "shuffled", "offset", "sparse"]))
    if kind == "id":
        return list(range(n))
    if kind == "shuffled":
        return draw(st.permutations(list(range(n))))
    if kind == "offset":
        a, b = draw(st.integers(1, 9)), draw(st.integers(1, 4))
        return [a + b * i for i in draw(st.permutations(list(range(n))))]
    return draw(st.lists(st.integers(0, max(big, 3 * n)), min_size=n, max_size=n, unique=True))


@st.composite
def graphs(draw, nmin=3, nmax=8, costs=("small", "pos", "mid", "big", "unit"), prizes=("small", "zero", "pos", "wide"),
           shapes=("mask", "dense", "complete", "cycle", "sparse", "path", "wheel", "twoblocks"), labels=True,
           isolated=True, quota=True, loops=False):
    """{"v": [[label, prize]...], "e": [[u, v, cost]...], "root": label, "quota": q}"""
    n = draw(st.integers(nmin, nmax))
    prs, shape = draw(pairs_of(n, shapes))
    lab = draw(labels_of(n)) if labels else list(range(n))
    perm = draw(st.permutations(list(range(n)))) if labels else list(range(n))
    ck = draw(st.sampled_from(costs))
    lo, hi = COST[ck]
    cs = ints(draw, lo, hi, len(prs)) if lo < hi else [lo] * len(prs)
    pk = draw(st.sampled_from(prizes))
    pz = {"small": lambda: ints(draw, 0, 6, n), "pos": lambda: ints(draw, 1, 40, n),
          "zero": lambda: [x if x > 3 else 0 for x in ints(draw, 0, 8, n)], "one": lambda: [1] * n, "wide": lambda: ints(draw, 0, 100000, n)}[pk]()
    flips = draw(st.integers(0, (1 << len(prs)) - 1)) if labels and prs else 0
    es = []
    for k, (i, j) in enumerate(prs):
        i, j = perm[i], perm[j]
        if flips >> k & 1:
            i, j = j, i
        es.append([lab[i], lab[j], cs[k]])
    if labels and len(es) > 1 and draw(st.booleans()):
        es = draw(st.permutations(es))
    if not isolated:
        used = {x for e in es for x in e[:2]}
        keep = [i for i in range(n) if lab[i] in used] or [0]
    else:
        keep = list(range(n))
    if loops:
        for i in keep:
            if draw(st.integers(0, 5)) == 0:
                es.append([lab[i], lab[i], draw(st.integers(0, 5))])
    vs = [[lab[i], pz[i]] for i in keep]
    g = {"v": vs, "e": [list(e) for e in es], "root": lab[keep[draw(st.integers(0, len(keep) - 1))]], "shape": shape}
    if quota:
        tot = sum(p for _, p in vs)
        g["quota"] = draw(st.one_of(st.integers(0, tot + 2), st.integers(tot // 3, max(1, tot)), st.just(1)))
    return g


def to_nx(g, weight="cost", prize="prize"):
    import networkx as nx
    G = nx.Graph()
    for v, p in g["v"]:
        G.add_node(v, **{prize: p})
    for u, v, c in g["e"]:
        G.add_edge(u, v, **{weight: c})
    return G


def adj(g):
    a = {v: {} for v, _ in g["v"]}
    for u, v, c in g["e"]:
        if u != v:
            a[u][v] = c
            a[v][u] = c
    return a


@st.composite
def toured(draw, nmin=4, nmax=11, kmax=None, costs=("small", "pos", "mid", "big", "unit", "metric"), prizes=("small", "zero", "pos", "one", "wide"),
           quota="tour"):
    """A graph with a known tour from the root (closed, root first): {"v", "e", "root", "tour", "quota"}.
    quota: 'tour' = about what the tour collects, 'more' = usually above it."""
    n = draw(st.integers(nmin, nmax))
    k = draw(st.integers(3, min(n, kmax or n)))
    lab = draw(labels_of(n))
    order = draw(st.permutations(list(range(n))))
    t = order[:k]
    ck = draw(st.sampled_from(costs))
    if ck == "metric":
        xy = [(draw(st.integers(0, 40)), draw(st.integers(0, 40))) for _ in range(n)]

        def cost(i, j):
            return abs(xy[i][0] - xy[j][0]) + abs(xy[i][1] - xy[j][1])
    else:
        lo, hi = COST[ck]

        def cost(i, j):
            return draw(st.integers(lo, hi)) if lo < hi else lo
    es = {}
    for i in range(k):
        es[frozenset((t[i], t[(i + 1) % k]))] = None
    allp = [(i, j) for i in range(n) for j in range(i + 1, n)]
    m = len(allp)
    full = (1 << m) - 1
    dens = draw(st.sampled_from([1, 1, 2, 3, 0]))
    mask = full if dens == 0 else draw(st.integers(0, full))
    if dens == 2:
        mask |= draw(st.integers(0, full))
    if dens == 3:
        mask &= draw(st.integers(0, full))
    for b, (i, j) in enumerate(allp):
        if mask >> b & 1:
            es.setdefault(frozenset((i, j)), None)
    el = []
    keys = sorted(tuple(sorted(x)) for x in es)
    if draw(st.booleans()):
        keys = draw(st.permutations(keys))
    flip = draw(st.integers(0, (1 << len(keys)) - 1))
    for b, (i, j) in enumerate(keys):
        c = cost(i, j)
        el.append([lab[j], lab[i], c] if flip >> b & 1 else [lab[i], lab[j], c])
    pk = draw(st.sampled_from(prizes))
    pz = {"small": lambda: ints(draw, 0, 6, n), "pos": lambda: ints(draw, 1, 40, n),
          "zero": lambda: [x if x > 3 else 0 for x in ints(draw, 0, 8, n)], "one": lambda: [1] * n, "wide": lambda: ints(draw, 0, 100000, n)}[pk]()
    pt, tot = sum(pz[i] for i in t), sum(pz)
    if quota == "tour":
        q = draw(st.one_of(st.integers(0, pt), st.integers(pt // 2, pt), st.integers(0, pt + 2), st.integers(0, tot + 1)))
    else:
        q = draw(st.one_of(st.integers(pt, tot + 1), st.integers(0, tot + 1), st.integers((pt + tot) // 2, tot + 1), st.just(pt + 1)))
    return {"v": [[lab[i], pz[i]] for i in range(n)], "e": el, "root": lab[t[0]],
            "tour": [lab[i] for i in t] + [lab[t[0]]], "quota": q, "shape": ck}


def make_large(n, seed, dense, few):
    """A large toured graph made by a pseudo-random generator (only n and the seeds are drawn, and shrunk)."""
    import random
    r = random.Random(seed)
    lab = r.sample(range(n + r.choice([0, 1, 7])), n) if r.random() < 0.5 else r.sample(range(100 * n), n)
    k = min(n, few) if few else r.randint(3, n)
    t = r.sample(range(n), k)
    es = {frozenset((t[i], t[(i + 1) % k])) for i in range(k)}
    rest = [i for i in range(n) if i not in set(t)]
    for i in rest:  # usually everything is connected
        if r.random() < 0.95:
            for j in r.sample([x for x in range(n) if x != i], r.randint(1, 2)):
                es.add(frozenset((i, j)))
    m = n * (n - 1) // 2
    for _ in range([0, n // 2, 2 * n, m // 4, 3 * m][dense]):
        es.add(frozenset(r.sample(range(n), 2)))
    xy = [(r.randint(0, 1000), r.randint(0, 1000)) for _ in range(n)]
    metric = r.random() < 0.5
    top = r.choice([30, 1000, 10 ** 6])
    el = []
    for i, j in sorted(map(sorted, es)):
        c = abs(xy[i][0] - xy[j][0]) + abs(xy[i][1] - xy[j][1]) if metric else r.randint(1, top)
        el.append([lab[i], lab[j], c] if r.random() < 0.5 else [lab[j], lab[i], c])
    if r.random() < 0.5:
        r.shuffle(el)
    pm = r.choice([1, 10, 100, 10 ** 5])
    pz = [r.randint(0, pm) for _ in range(n)]
    pt, tot = sum(pz[i] for i in t), sum(pz)
    q = r.choice([pt, pt + 1, r.randint(0, pt), r.randint(pt // 2, pt), r.randint(pt, tot), r.randint(0, tot + 1)])
    return {"v": [[lab[i], pz[i]] for i in range(n)], "e": el, "root": lab[t[0]], "tour": [lab[i] for i in t] + [lab[t[0]]],
            "quota": q, "shape": "large"}


def large(nmin=20, nmax=70, dense=4, few=(0,)):
    return st.builds(make_large, st.integers(nmin, nmax), st.integers(0, 10 ** 9), st.integers(0, dense), st.sampled_from(few))


def rooted(g):
    """The same graphs, half of them with any vertex as the root."""
    return st.builds(lambda x, k: dict(x, root=x["v"][k % len(x["v"])][0]) if k else x, g, st.one_of(st.just(0), st.integers(0, 10 ** 6)))
