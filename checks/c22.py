"""Graph and walk utilities agree with their definitions."""
import math

from hypothesis import strategies as st

import gen
import repo
from harness import Part, check, sut

PROPERTY = "C22"
HX = ("util",)
FLAVOUR = "rel"
RULE = ("Random graphs of 1-10 and (part large) 11-220 vertices (with and without self loops and isolated vertices), walks, cycles, vertex and edge subsets; the "
        "textbook value is computed from the drawn edge list. Non-trivial: the graph has a cycle and the drawn subset or walk has at least three entries.")


def setup():
    global U
    repo.native(FLAVOUR)
    U = repo.hx("util")


def graph_of(draw, nmin=1, nmax=10, loops=False, costs=(0, 9)):
    n = draw(st.integers(nmin, nmax))
    prs, _ = draw(gen.pairs_of(n))
    es = []
    for i, j in prs:
        if draw(st.booleans()):
            i, j = j, i
        es.append([i, j, draw(st.integers(*costs))])
    if loops:
        kind = draw(st.sampled_from(["none", "some", "all"]))
        for v in range(n):
            if kind == "all" or kind == "some" and draw(st.booleans()):
                es.append([v, v, draw(st.integers(0, 5))])
        if es and draw(st.booleans()):
            es = [list(e) for e in draw(st.permutations(es))]
    return n, es


def adjacency(n, es):
    a = {v: {} for v in range(n)}
    for u, v, c in es:
        a[u][v] = a[v][u] = c
    return a


def cyclic(n, es):
    p = list(range(n))

    def f(x):
        while p[x] != x:
            x = p[x]
        return x
    for u, v, _ in es:
        if u != v:
            if f(u) == f(v):
                return True
            p[f(u)] = f(v)
    return False


def T(es):
    return [tuple(e) for e in es]


def same_edges(got, want, what):
    k = lambda x: sorted(tuple(sorted(e)) for e in x)
    check(k(got) == k(want), "%s: %s, expected %s", what, k(got), k(want))


# ---------------------------------------------------------------- walks
@st.composite
def walk_case(draw):
    n, es = graph_of(draw, 1, 9, loops=draw(st.booleans()), costs=draw(st.sampled_from([(0, 9), (1, 100000), (-5, 5), (10 ** 8, 17 * 10 ** 7)])))
    a = adjacency(n, es)
    k = draw(st.integers(0, 12))
    w = []
    if k:
        w = [draw(st.integers(0, n - 1))]
        while len(w) < k:
            nb = sorted(a[w[-1]])
            if nb and draw(st.integers(0, 15)) != 0:
                w.append(nb[draw(st.integers(0, len(nb) - 1))])
            elif not nb or draw(st.booleans()):
                w.append(draw(st.integers(0, n - 1)))
    p = gen.ints(draw, *draw(st.sampled_from([(0, 6), (0, 100000)])), n)
    return {"n": n, "e": es, "w": w, "p": p, "q": draw(st.integers(0, 2)), "x": draw(st.integers(0, n - 1))}


def walk_run(case):
    n, es, w, p, x = case["n"], case["e"], case["w"], case["p"], case["x"]
    a = adjacency(n, es)
    steps = list(zip(w, w[1:]))
    broken = [s for s in steps if s[1] not in a[s[0]]]
    if broken:
        try:
            r = U.walk(n, T(es), w)
        except RuntimeError:
            r = None
        check(r is None, "walk %s uses %s which are no edges, result %s", w, broken, r)
    else:
        prs, c1, c2, c3 = sut(U.walk, n, T(es), w)
        check([set(e) for e in prs] == [set(e) for e in steps], "edges of %s: %s", w, prs)
        want = sum(a[u][v] for u, v in steps)
        check((c1, c2, c3) == (want,) * 3, "cost of %s: %s, expected %s", w, (c1, c2, c3), want)
    tot = sum(p[v] for v in w)
    got = tuple(sut(U.prizes, p, w))
    check(got == (tot, tot, sum(p[v] for v in w[:-1]), sum(p)), "prizes of %s with %s: %s", w, p, got)
    for q in {tot - 1, tot, tot + 1, 0}:
        if q >= 0:
            check(sut(U.prize_feasible, p, w, q) == (tot >= q), "prize %s, quota %s", tot, q)
    s = sut(U.walk_string, w)
    check([int(y) for y in s.split(", ") if y.strip()] == w, "walk %s written as %r", w, s)
    if len(w) >= 2:
        check(sut(U.internal, w, x) == (x in w[1:-1]), "%s internal in %s", x, w)
    return len(w) >= 3 and cyclic(n, es) and ["broken" if broken else "walk"]


# ---------------------------------------------------------------- tours
@st.composite
def tour_case(draw):
    k = draw(st.integers(2, 9))
    lab = draw(gen.labels_of(k))
    c = list(lab) + [lab[0]]
    return {"c": c, "r": draw(st.integers(0, k - 1)), "i": draw(st.integers(0, k - 1)), "j": draw(st.integers(0, k)),
            "new": draw(st.integers(0, 4)), "at": draw(st.integers(0, 4))}


def tour_run(case):
    c = case["c"]
    k = len(c) - 1
    r = c[case["r"]]
    got = sut(U.reorder, c, r)
    want = c[case["r"]:k] + c[:case["r"]] + [r]
    check(got == want, "tour %s from %s: %s, expected %s", c, r, got, want)
    i, j = case["i"], case["j"]
    want = [c[i]]
    x = i
    if i <= j:
        want = c[i:j + 1]
    else:
        want = c[i:k] + c[:j + 1]
    got = sut(U.subpath, c, i, j)
    check(got == want, "stretch %s to %s of %s: %s, expected %s", i, j, c, got, want)
    # replace a stretch of the tour by another path between its ends
    if k >= 3 and i != j:
        fresh = [max(c) + 1 + y for y in range(case["new"])]
        first, last = c[i], c[j % k]
        if i < j:
            path = [first] + fresh + [last]
            want = c[:i] + path + c[j + 1:]
            got = sut(U.swap_paths, c, path, i, j)
            check(got == want, "%s with %s..%s replaced by %s: %s, expected %s", c, i, j, path, got, want)
        elif j >= 1:  # the stretch runs through the root, which the new path keeps
            cut = min(case["at"], len(fresh))
            path = [first] + fresh[:cut] + [c[0]] + fresh[cut:] + [last]
            want = [c[0]] + fresh[cut:] + [last] + c[j + 1:i] + [first] + fresh[:cut] + [c[0]]
            got = sut(U.swap_paths, c, path, i, j)
            check(got == want, "%s with %s..%s (over the root) replaced by %s: %s, expected %s", c, i, j, path, got, want)
    return k >= 3 and ["wrap" if i > j else "straight"]


# ---------------------------------------------------------------- subsets of a graph
@st.composite
def subset_case(draw):
    n, es = graph_of(draw, 1, 10, loops=True)
    m = len(es)
    return {"n": n, "e": es, "es": draw(st.integers(0, (1 << m) - 1)), "vs": draw(st.permutations(list(range(n))))[:draw(st.integers(0, n))],
            "mark": draw(st.lists(st.booleans(), min_size=n, max_size=n)), "bad": draw(st.one_of(st.none(), st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)))),
            "p": gen.ints(draw, 0, 20, n), "u": draw(st.integers(0, n - 1)), "v": draw(st.integers(0, n - 1)),
            "flip": draw(st.integers(0, (1 << m) - 1))}


def subset_run(case):
    n, es, vs, mark, p = case["n"], case["e"], case["vs"], case["mark"], case["p"]
    a = adjacency(n, es)
    E = T(es)
    some = [((v, u) if case["flip"] >> k & 1 else (u, v)) for k, (u, v, _) in enumerate(E) if case["es"] >> k & 1]
    got = sut(U.from_pairs, n, E, some)
    check([set(x) for x in got] == [set(x) for x in some], "edges of the pairs %s: %s", some, got)
    check(sut(U.vertices_of, n, E, some) == sorted({x for e in some for x in e}), "vertices of %s: %s", some, U.vertices_of(n, E, some))
    if case["bad"] is not None and case["bad"][1] not in a[case["bad"][0]]:
        bad = some[:1] + [tuple(case["bad"])] + some[1:]
        for fn in (U.from_pairs, U.vertices_of):
            try:
                r = fn(n, E, bad)
            except RuntimeError:
                r = None
            check(r is None, "pair %s is no edge, result %s", case["bad"], r)
    if some:
        e1, e2, cnt = sut(U.added, some)
        same_edges(e1, some, "edges added to a graph")
        check(e1 == e2, "two lists of the edges of a graph differ: %s %s", e1, e2)
        check(cnt == max(max(e) for e in some) + 1, "%s vertices for %s", cnt, some)
    same_edges(sut(U.induced, n, E, vs), [(u, v) for u, v, _ in E if u != v and u in vs and v in vs], "edges induced by %s" % vs)
    if all(v in a[v] for v in vs):
        check(sut(U.loops, n, E, vs) == [(v, v) for v in vs], "self loops of %s: %s", vs, U.loops(n, E, vs))
    else:
        try:
            r = U.loops(n, E, vs)
        except RuntimeError:
            r = None
        check(r is None, "self loops of %s although some have none: %s", vs, r)
    fv, fe = sut(U.filtered, n, E, mark)
    check(sorted(fv) == [v for v in range(n) if mark[v]], "vertices left by the filter %s: %s", mark, fv)
    same_edges(fe, [(u, v) for u, v, _ in E if mark[u] and mark[v]], "edges left by the filter")
    check(sut(U.filtered_edges, n, E, mark) == sum(1 for u, v, _ in E if mark[u] or mark[v]), "edges at marked vertices %s: %s", mark, U.filtered_edges(n, E, mark))
    if E:
        gone = case["u"] % (2 * len(E))  # the edge whose variable is missing, if there is one of this number
        a_, b_ = sut(U.missing_variables, n, E, gone)
        check(a_ == (gone < len(E)), "edge %s of %s has no variable: exception %s", gone, len(E), a_)
        check(b_, "no exception for the name of a missing variable")
    k, l = case["u"], case["v"]
    got = sut(U.signs, k, l)
    check(got == (list(range(k + l)), [1.0] * k + [-1.0] * l), "%s positive and %s negative variables: %s", k, l, got)
    # components
    comp = {}
    for s in range(n):
        if s in comp:
            continue
        comp[s] = s
        todo = [s]
        while todo:
            for y in a[todo.pop()]:
                if y not in comp:
                    comp[y] = s
                    todo.append(y)
    want = sorted(sorted(v for v in range(n) if comp[v] == s) for s in set(comp.values()))
    al, non, same = sut(U.components, n, E)
    check(sorted(sorted(x) for x in al) == want, "components %s, expected %s", al, want)
    want = [x for x in want if len(x) > 1]
    check(sorted(sorted(x) for x in non) == want and sorted(sorted(x) for x in same) == want, "components of more than one vertex %s %s, expected %s", non, same, want)
    # self loops
    simple = not any(u == v for u, v, _ in E)
    had, has, w = sut(U.with_loops, n, E, p, simple)
    check(had == all(v in a[v] for v in range(n)), "all vertices have a self loop: %s", had)
    check(has == (had or simple), "all vertices have a self loop in the end: %s", has)
    for u, v, c, x in w:
        if u == v:
            check(x == p[u], "self loop of %s carries %s, prize %s", u, x, p[u])
            check(c == 0, "self loop of %s costs %s", u, c)
        else:
            check(x == 0 and c == a[u][v], "edge %s carries prize %s, cost %s", (u, v), x, c)
    same_edges([(u, v) for u, v, _, _ in w if u != v], [(u, v) for u, v, _ in E if u != v], "edges after adding self loops")
    check(len(w) == len(E) + (n if simple else 0), "%s edges after adding self loops to %s", len(w), len(E))
    if simple:
        got = sut(U.common_neighbours, n, E, case["u"], case["v"])
        check(got == sorted(set(a[case["u"]]) & set(a[case["v"]])), "common neighbours of %s and %s: %s", case["u"], case["v"], got)
    return cyclic(n, es) and (len(vs) >= 3 or len(some) >= 3) and (["bad pair"] if case["bad"] is not None else ["ok"])


# ---------------------------------------------------------------- searches
@st.composite
def search_case(draw):
    n, es = graph_of(draw, 1, 10, loops=draw(st.booleans()), costs=draw(st.sampled_from([(0, 9), (1, 9), (1, 1), (0, 100000)])))
    mark = draw(st.one_of(st.just([False] * n), st.lists(st.booleans(), min_size=n, max_size=n), st.lists(st.sampled_from([False, False, False, True]), min_size=n, max_size=n)))
    return {"n": n, "e": es, "s": draw(st.integers(0, n - 1)), "t": draw(st.integers(0, n - 1)), "mark": mark, "depth": draw(st.integers(0, n))}


def levels(a, s, blocked, cost=None):
    d = {s: 0}
    q = [s]
    for u in q:
        for v in a[u]:
            if v not in d and not blocked[v]:
                d[v] = d[u] + 1
                q.append(v)
    return d


def search_run(case):
    n, es, s, t, mark, depth = case["n"], case["e"], case["s"], case["t"], case["mark"], case["depth"]
    a = adjacency(n, es)
    E = T(es)
    d = levels(a, s, mark)
    m, par = sut(U.search, n, E, s, mark, depth, True)
    want = [mark[v] or v in d and d[v] <= depth or v == s for v in range(n)]
    check(list(m) == want, "breadth first from %s to depth %s past %s: reached %s", s, depth, mark, m)
    for v in range(n):
        if v in d and d[v] <= depth:
            if depth > 0 or v != s:
                check(par[v] == s if v == s else (d.get(par[v]) == d[v] - 1 and v in a[par[v]]), "parent of %s is %s", v, par[v])
        elif v != s:
            check(par[v] == n, "vertex %s was not reached but has parent %s", v, par[v])
    if t in d and d[t] <= depth:
        path = sut(U.tree_path, par, s, t)
        check(path[0] == s and path[-1] == t and len(path) == d[t] + 1 and all(y in a[x] for x, y in zip(path, path[1:]))
              and not any(mark[v] for v in path[1:]), "path in the tree from %s to %s: %s", s, t, path)
    # depth first: everything within reach when the depth is no limit, and never anything further than the depth
    for dl in {depth, n}:
        m, par = sut(U.search, n, E, s, mark, dl, False)
        for v in range(n):
            if dl >= n:
                check(m[v] == (mark[v] or v in d), "depth first from %s past %s: reached %s", s, mark, m)
            elif m[v] and not mark[v] and v != s:
                check(v in d and d[v] <= dl, "depth first from %s to depth %s reached %s at distance %s", s, dl, v, d.get(v))
            if m[v] and not mark[v] and v != s:
                x, k = v, 0
                while x != s and k <= n:
                    check(x in a[par[x]], "parent of %s is %s", x, par[x])
                    x = par[x]
                    k += 1
                check(x == s and k <= dl, "vertex %s is %s steps deep in a search of depth %s", v, k, dl)
            if m[v] and (v == s or not mark[v]):  # a vertex reached above the limit has its neighbours visited
                x, k = v, 0
                while x != s and k <= n:
                    x = par[x]
                    k += 1
                check(k >= dl or all(m[y] for y in a[v]), "depth first from %s to depth %s: %s is %s steps deep but one of %s was not visited", s, dl, v, k, sorted(a[v]))
    # shortest path past the marked vertices
    dist = {s: 0}
    done = set()
    while len(done) < len(dist):
        u = min((x for x in dist if x not in done), key=lambda x: dist[x])
        done.add(u)
        for v, c in a[u].items():
            if not mark[v] and dist[u] + c < dist.get(v, math.inf):
                dist[v] = dist[u] + c
    found, path, got = sut(U.shortest, n, E, s, t, mark)
    check(found == (t in dist), "path from %s to %s past %s: found %s", s, t, mark, found)
    if found:
        check(path[0] == s and path[-1] == t and all(y in a[x] for x, y in zip(path, path[1:])) and not any(mark[v] for v in path[1:])
              and len(set(path)) == len(path), "shortest path %s from %s to %s past %s", path, s, t, mark)
        check(got == dist[t] == sum(a[x][y] for x, y in zip(path, path[1:])), "path %s of length %s, shortest is %s", path, got, dist[t])
    return cyclic(n, es) and len(d) >= 3 and ["marked" if any(mark) else "open"]


# ---------------------------------------------------------------- the same of up to two hundred vertices, pseudo-random from a drawn seed
def big_graph(n, rng, loops):
    """Sparse, dense, a grid, a path, a tree with a few more edges, or several of those side by side."""
    kind = rng.choice(["sparse", "sparse", "dense", "grid", "path", "tree", "two"])
    prs = set()
    if kind == "dense":
        n = min(n, 40)
        prs = {(i, j) for i in range(n) for j in range(i + 1, n) if rng.random() < 0.7}
    elif kind == "grid":
        w = max(2, int(n ** 0.5))
        prs = {(i, i + 1) for i in range(n - 1) if (i + 1) % w} | {(i, i + w) for i in range(n - w)}
    elif kind == "path":
        prs = {(i, i + 1) for i in range(n - 1)}
    elif kind == "tree":
        prs = {(rng.randrange(max(0, i - 5), i), i) for i in range(1, n)} | {tuple(sorted(rng.sample(range(n), 2))) for _ in range(3)}
    else:
        h = n // 2 if kind == "two" else n
        for _ in range(2 * n):
            i, j = rng.randrange(n), rng.randrange(n)
            if i != j and (i < h) == (j < h):
                prs.add((min(i, j), max(i, j)))
    lab = list(range(n))
    if rng.random() < 0.7:
        rng.shuffle(lab)
    es = [[lab[i], lab[j], rng.randint(0, 30)] if rng.random() < 0.5 else [lab[j], lab[i], rng.randint(0, 30)] for i, j in sorted(prs)]
    if rng.random() < 0.5:
        rng.shuffle(es)
    if loops:
        some = rng.choice([0, 0.5, 1])
        es += [[v, v, rng.randint(0, 5)] for v in range(n) if rng.random() < some]
    return n, es


def big_case(what, n, seed):
    import random
    rng = random.Random(seed)
    if what == "tour":
        k = max(3, n)
        c = rng.sample(range(10 * k), k)
        return {"c": c + [c[0]], "r": rng.randrange(k), "i": rng.randrange(k), "j": rng.randrange(k + 1), "new": rng.randrange(30), "at": rng.randrange(30)}
    n, es = big_graph(n, rng, what == "subset" or what == "walk" and rng.random() < 0.3)
    a = adjacency(n, es)
    bits = lambda: rng.getrandbits(len(es)) if es else 0
    if what == "walk":
        w = [rng.randrange(n)]
        while len(w) < 2 * n and a[w[-1]] and rng.random() > 0.002:
            w.append(rng.choice(sorted(a[w[-1]])))
        return {"n": n, "e": es, "w": w, "p": [rng.randint(0, 100000) for _ in range(n)], "q": 0, "x": rng.randrange(n)}
    if what == "subset":
        mark = rng.choice([0.1, 0.5, 0.9])
        return {"n": n, "e": es, "es": bits() & (bits() if rng.random() < 0.5 else -1), "vs": rng.sample(range(n), rng.randint(0, n)), "mark": [rng.random() < mark for _ in range(n)],
                "bad": rng.choice([None, None, (rng.randrange(n), rng.randrange(n))]), "p": [rng.randint(0, 1000) for _ in range(n)],
                "u": rng.randrange(n), "v": rng.randrange(n), "flip": bits()}
    mark = rng.choice([0, 0.05, 0.2])
    return {"n": n, "e": es, "s": rng.randrange(n), "t": rng.randrange(n), "mark": [rng.random() < mark for _ in range(n)], "depth": rng.choice([n, n, rng.randint(0, n), rng.randint(0, 12)])}


def big_run(case):
    return {"walk": walk_run, "tour": tour_run, "subset": subset_run, "search": search_run}[case["what"]](big_case(case["what"], case["n"], case["seed"])) and [case["what"]]


PARTS = [Part("large", st.fixed_dictionaries({"what": st.sampled_from(["walk", "tour", "subset", "search"]), "n": st.integers(11, 220), "seed": st.integers(0, 10 ** 9)}), big_run, 2000, 60000),
         Part("walk", walk_case(), walk_run, 4000, 150000),
         Part("tour", tour_case(), tour_run, 2500, 60000),
         Part("subset", subset_case(), subset_run, 4000, 150000),
         Part("search", search_case(), search_run, 4000, 150000)]
