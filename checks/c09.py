"""Path extension: single steps against the definition, whole runs against every run the definition allows."""
import networkx as nx
import numpy as np
from hypothesis import strategies as st

import gen
import oracle
import repo
from harness import Part, check, sut

PROPERTY = "C09"
HX = ()
RULE = ("graphs of 4-13 vertices with a known tour, step sizes 1-4, depth limits 2-8. 'step' asks for one more unit of prize, so that "
        "at most one stretch is replaced, and compares with all candidate paths; 'run' with depth limit 2 must be reachable by steps of "
        "smallest loss; deeper runs are checked for what every run guarantees. Non-trivial: the tour was changed.")
EPS = 1e-5


def setup():
    global A, L
    repo.native()
    import pctsp.algorithms as A
    import pctsp.libpypctsp as L
    np.seterr(all="ignore")


def stretch(tour, i, step):
    """Vertices from position i over step edges of the closed tour."""
    k = len(tour) - 1
    return [tour[(i + j) % k] for j in range(step + 1)]


def hops(adj, s, inside, limit):
    """Distance in edges from s through vertices outside the tour, and the number of shortest paths and one of them."""
    d, cnt, path = {s: 0}, {s: 1}, {s: [s]}
    level = [s]
    while level and d[level[0]] < limit:
        nxt = []
        for u in level:
            for v in adj[u]:
                if v in inside:
                    continue
                if v not in d:
                    d[v], cnt[v], path[v] = d[u] + 1, cnt[u], path[u] + [v]
                    nxt.append(v)
                elif d[v] == d[u] + 1:
                    cnt[v] += cnt[u]
        level = nxt
    return d, cnt, path


def candidates(adj, prize, root, tour, step, depth):
    """(sure, possible): the extension paths that any search must consider as {(i, path)}; whether anything else may be."""
    k = len(tour) - 1
    inside = set(tour)
    sure, unsure = [], []
    for i in range(k):
        inner = stretch(tour, i, step)
        if root in inner[1:-1]:
            continue  # the root is never removed
        vi, vj = inner[0], inner[-1]
        pin = sum(prize[v] for v in inner[1:-1])
        cin = oracle.walk_cost(adj, inner)
        if depth == 2:
            for u in adj[vi]:
                if u in adj[vj] and u not in inside and prize[u] > pin:
                    sure.append((i, (vi, u, vj), (adj[vi][u] + adj[u][vj] - cin) / (prize[u] - pin)))
        else:
            d, cnt, path = hops(adj, vi, inside, depth - 1)
            for u in adj[vj]:
                if u in inside or u not in d:
                    continue
                if cnt[u] == 1:
                    p = tuple(path[u]) + (vj,)
                    pp = sum(prize[v] for v in p[1:-1])
                    if pp > pin:
                        sure.append((i, p, (oracle.walk_cost(adj, p) - cin) / (pp - pin)))
                else:
                    unsure.append((i, u, d[u], pin, cin))
                    if prize[u] > pin:
                        sure.append((i, None, None))  # whatever the path, it is an extension
    return sure, unsure


def replace(tour, i, step, path):
    """The tour with the stretch from i over step edges replaced, starting at the same vertex."""
    k = len(tour) - 1
    if i + step <= k:
        return tour[:i] + tuple(path) + tour[i + step + 1:]
    raise AssertionError("the stretch passes the root")


def close(a, b):
    return abs(a - b) <= EPS * max(abs(a), abs(b)) + 1e-12


def common(adj, prize, root, tour, t, name):
    check(oracle.is_tour(adj, root, t) is None, "%s gives %s, which is no tour: %s", name, t, oracle.is_tour(adj, root, t))
    check(sum(prize[v] for v in t[:-1]) >= sum(prize[v] for v in tour[:-1]), "%s lost prize: %s", name, t)


def run_step(case):
    G = gen.to_nx(case)
    adj = gen.adj(case)
    prize = dict(map(tuple, case["v"]))
    tour, root, step, depth = case["tour"], case["root"], case["step"], case["depth"]
    p0 = sum(prize[v] for v in tour[:-1])
    f = A.path_extension_until_prize_feasible
    for q in (p0, max(0, p0 - 1)):
        t = sut(f, G, list(tour), root, q, step_size=step, path_depth_limit=depth, logging_level=50)
        check(t == tour, "a tour that meets the quota was changed to %s", t)
    t = sut(f, G, list(tour), root, p0 + 1, step_size=step, path_depth_limit=depth, logging_level=50)
    common(adj, prize, root, tour, t, "one path extension")
    sure, unsure = candidates(adj, prize, root, tour, step, depth) if step < len(tour) - 1 else ([], [])
    if t == tour:
        check(not sure, "not extended although %s is an extension of %s", sure[:1], tour)
        return None
    # find what was replaced
    k = len(tour) - 1
    for i in range(k - step + 1):
        rest = k - step - i  # edges kept at the end
        if t[:i + 1] == tour[:i + 1] and t[len(t) - 1 - rest:] == tour[k - rest:]:
            p = t[i:len(t) - rest]
            inner = stretch(tour, i, step)
            pin, pp = sum(prize[v] for v in inner[1:-1]), sum(prize[v] for v in p[1:-1])
            if 2 <= len(p) - 1 <= depth and pp > pin and not set(p[1:-1]) & set(tour) and len(set(p)) == len(p) and root not in inner[1:-1]:
                loss = (oracle.walk_cost(adj, p) - oracle.walk_cost(adj, inner)) / (pp - pin)
                break
    else:
        check(False, "%s is not %s with a stretch of %s edges replaced by a path of at most %s edges outside the tour with more prize", t, tour, step, depth)
    for j, q, x in sure:
        if x is not None:
            check(loss <= x or close(loss, x), "replaced %s by %s with loss %s, but %s at %s has loss %s", inner, p, loss, q, j, x)
    if depth == 2:
        check(any(j == i and list(q) == list(p) for j, q, _ in sure), "%s is no candidate of %s", p, tour)
    tags = ["step"]
    if len(p) > 3:
        tags.append("long path")
    if step > 1:
        tags.append("stretch removed")
    if i + step == k:
        tags.append("last stretch")
    return tags


def explain(adj, prize, root, start, end, step, stop, limit):
    """Depth limit 2: is end reachable by steps of smallest loss?"""
    start, end = tuple(start), tuple(end)
    seen, todo = set(), [(start, 0)]
    first, _ = candidates(adj, prize, root, list(start), step, 2) if step < len(start) - 1 else ([], [])
    per = {}
    for i, _, x in first:
        per[i] = min(per.get(i, x), x)
    avg = sum(per.values()) / len(per) if per else None
    while todo:
        t, it = todo.pop()
        if (t, it) in seen:
            continue
        seen.add((t, it))
        if len(seen) > 1500:
            return True
        cand = candidates(adj, prize, root, list(t), step, 2)[0] if step < len(t) - 1 else []
        per = {}
        for i, _, x in cand:
            per[i] = min(per.get(i, x), x)
        low = min(per.values(), default=None)
        s = "must" if low is None or it >= limit else stop(t, it, low, len(per), avg)
        if s != "no" and t == end:
            return True
        if s == "must":
            continue
        for i, p, x in cand:
            if x <= low or close(x, low):
                todo.append((replace(t, i, step, p), it + 1))
    return False


def run_whole(case):
    G = gen.to_nx(case)
    adj = gen.adj(case)
    prize = dict(map(tuple, case["v"]))
    tour, root, step, depth, q = case["tour"], case["root"], case["step"], case["depth"], case["quota"]
    n = sum(1 for v in adj if adj[v])
    before = nx.to_dict_of_dicts(G)
    tags = set()
    t = sut(A.path_extension, G, list(tour), root, path_depth_limit=depth, step_size=step, logging_level=50)
    common(adj, prize, root, tour, t, "path_extension")
    if t != tour:
        tags.add("extended")
    if step >= len(tour) - 1:
        check(t == tour, "the step size %s is the whole tour %s, but it was changed to %s", step, tour, t)
    if depth == 2:
        def stop(x, it, low, num, avg):
            if num == 1 and it == 0:
                return "no"
            if close(low, avg):
                return "may"
            return "no" if low < avg else "must"
        check(explain(adj, prize, root, tour, t, step, stop, n), "no run of smallest losses below the average leads from %s to %s", tour, t)
        if step == 1:
            check(sut(A.extension_unitary_loss, G, list(tour), root, logging_level=50) == t, "extension_unitary_loss differs from path_extension")
    elif t == tour and step < len(tour) - 1:
        sure, unsure = candidates(adj, prize, root, tour, step, depth)
        if not unsure and sure:
            per = {}
            for i, _, x in sure:
                per[i] = min(per.get(i, x), x)
            check(len(per) > 1 and (close(min(per.values()), max(per.values()))), "the only extensions %s were not made", sure)
    u = sut(A.path_extension_until_prize_feasible, G, list(tour), root, q, step_size=step, path_depth_limit=depth, logging_level=50)
    common(adj, prize, root, tour, u, "path_extension_until_prize_feasible")
    if u != tour:
        tags.add("until feasible")
    pu = sum(prize[v] for v in u[:-1])
    if depth == 2:
        def stop2(x, it, low, num, avg):
            return "must" if sum(prize[v] for v in x[:-1]) >= q else "no"
        check(explain(adj, prize, root, tour, u, step, stop2, n), "no run of smallest losses until the quota leads from %s to %s", tour, u)
    elif pu < q and step < len(u) - 1 and pu - sum(prize[v] for v in tour[:-1]) < n:
        # every extension adds prize, so fewer than n were made
        sure, _ = candidates(adj, prize, root, u, step, depth)
        check(not sure, "stopped at %s with prize %s below the quota %s although %s is an extension", u, pu, q, sure[:1])
    if pu < q:
        tags.add("below the quota")
    check(nx.to_dict_of_dicts(G) == before, "the caller's graph was changed")
    return sorted(tags) if tags - {"below the quota"} else None


def run_loss(case):
    a, b, c, d = case
    x = sut(L.unitary_loss, a, b, c, d)
    want = (c - d) / (a - b) if a != b else None
    if want is not None:
        check(x == want or abs(x - want) <= EPS * abs(want), "unitary_loss(%s, %s, %s, %s) = %s", a, b, c, d, x)
    return a != b and c != d


@st.composite
def cases(draw, **kw):
    g = draw(gen.toured(quota="more", **kw))
    return dict(g, step=draw(st.sampled_from([1, 1, 1, 2, 2, 3, 4])), depth=draw(st.sampled_from([2, 2, 2, 3, 4, 5, 8])))


large = st.builds(lambda g, s, d: dict(g, step=s, depth=d), gen.large(nmin=18, few=(0, 4, 8, 20)), st.sampled_from([1, 1, 2, 3, 4, 10]),
                  st.sampled_from([2, 2, 2, 3, 4, 5, 8]))
c = st.one_of(st.integers(0, 9), st.integers(0, 10 ** 6))
PARTS = [Part("step", cases(), run_step, 8000, 200000, budget={"quick": 14}),
         Part("run", cases(kmax=7), run_whole, 7000, 200000, budget={"quick": 16}),
         Part("big", cases(nmin=11, nmax=16, kmax=9), run_whole, 700, 20000, budget={"quick": 10}),
         Part("large-step", large, run_step, 900, 20000, budget={"quick": 6}),
         Part("large", large, run_whole, 900, 20000, budget={"quick": 8}),
         Part("loss", st.tuples(c, c, c, c).map(list), run_loss, 1000, 50000, budget={"quick": 3})]
