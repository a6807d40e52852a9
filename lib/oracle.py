"""Reference answers, computed from the definition."""


def tours_by_set(adj, root):
    """{frozenset of vertices: (cost, tour)}: for every set containing root that some simple cycle of at least three
    vertices through root visits exactly, the cheapest such cycle (Held-Karp)."""
    vs = [v for v in adj if v != root]
    idx = {v: i for i, v in enumerate(vs)}
    out = {}
    layer = {}
    for v, c in adj[root].items():
        layer[(1 << idx[v], v)] = (c, (root, v))
    while layer:
        nxt = {}
        for (mask, last), (c, path) in layer.items():
            if len(path) >= 3 and root in adj[last]:
                t = c + adj[last][root]
                fs = mask
                if fs not in out or t < out[fs][0]:
                    out[fs] = (t, path + (root,))
            for w, d in adj[last].items():
                if w == root:
                    continue
                b = 1 << idx[w]
                if mask & b:
                    continue
                k = (mask | b, w)
                if k not in nxt or c + d < nxt[k][0]:
                    nxt[k] = (c + d, path + (w,))
        layer = nxt
    return {frozenset([root] + [v for v in vs if m >> idx[v] & 1]): x for m, x in out.items()}


def best_tour(adj, prize, root, quota):
    """(cost, tour) of a cheapest prize-feasible tour or None."""
    best = None
    for s, (c, t) in tours_by_set(adj, root).items():
        if sum(prize[v] for v in s) >= quota and (best is None or c < best[0]):
            best = (c, t)
    return best


def all_tours(adj, root):
    """Every simple cycle through root (>= 3 vertices), each direction once."""
    out = []

    def rec(path, seen):
        last = path[-1]
        for w in adj[last]:
            if w == root and len(path) >= 3 and path[1] <= path[-1]:
                out.append(tuple(path) + (root,))
            elif w not in seen and w != root:
                seen.add(w)
                path.append(w)
                rec(path, seen)
                path.pop()
                seen.discard(w)
    rec([root], {root})
    return out


def walk_cost(adj, walk):
    return sum(adj[walk[i]][walk[i + 1]] for i in range(len(walk) - 1))


def is_tour(adj, root, tour):
    """None if tour is a closed simple cycle of at least three vertices from root, else the reason."""
    if len(tour) < 4:
        return "fewer than three vertices"
    if tour[0] != root or tour[-1] != root:
        return "does not start and end at the root"
    body = tour[:-1]
    if len(set(body)) != len(body):
        return "a vertex is visited twice"
    for i in range(len(tour) - 1):
        if tour[i] not in adj or tour[i + 1] not in adj[tour[i]]:
            return f"({tour[i]}, {tour[i + 1]}) is not an edge"
    return None


def is_cycle_edges(edges):
    """None if the edge list is the edge set of one simple cycle of >= 3 vertices, else the reason."""
    deg = {}
    seen = set()
    for u, v in edges:
        if u == v:
            return f"self loop at {u}"
        k = frozenset((u, v))
        if k in seen:
            return f"edge {u}-{v} twice"
        seen.add(k)
        deg.setdefault(u, []).append(v)
        deg.setdefault(v, []).append(u)
    if len(seen) < 3:
        return "fewer than three edges"
    for v, ns in deg.items():
        if len(ns) != 2:
            return f"vertex {v} has degree {len(ns)}"
    start = next(iter(deg))
    prev, cur, cnt = None, start, 0
    while True:
        a, b = deg[cur]
        nx = a if a != prev else b
        prev, cur = cur, nx
        cnt += 1
        if cur == start:
            break
        if cnt > len(deg):
            return "not a cycle"
    return None if cnt == len(deg) else "more than one cycle"


def min_cost_two_flow(nodes, arcs, s):
    """arcs: [(u, v, c)] with c >= 0 of a directed graph. {t: cost of the cheapest pair of arc-disjoint s-t paths}."""
    INF = float("inf")

    def shortest(res, src):
        d = {v: INF for v in nodes}
        p = {}
        d[src] = 0
        for _ in range(len(nodes)):
            ch = False
            for (u, v), lst in res.items():
                if d[u] < INF:
                    for k, c in lst:
                        if d[u] + c < d[v]:
                            d[v] = d[u] + c
                            p[v] = (u, k)
                            ch = True
            if not ch:
                break
        return d, p

    out = {}
    base = {}
    for k, (u, v, c) in enumerate(arcs):
        base.setdefault((u, v), []).append((k, c))
    d0, p0 = shortest(base, s)
    for t in nodes:
        if t == s or d0[t] == INF:
            continue
        res = {k: list(v) for k, v in base.items()}
        x = t
        while x != s:
            u, k = p0[x]
            c = arcs[k][2]
            res[(u, x)] = [z for z in res[(u, x)] if z[0] != k]
            res.setdefault((x, u), []).append((-1, -c))
            x = u
        d1, _ = shortest(res, s)
        if d1[t] < INF:
            out[t] = d0[t] + d1[t]
    return out


def distances(adj, root):
    """Cost of a cheapest path from the root to every vertex that has one."""
    dist = {root: 0}
    todo = set(adj)
    while True:
        near = [v for v in todo if v in dist]
        if not near:
            return dist
        v = min(near, key=lambda a: dist[a])
        todo.discard(v)
        for w, c in adj[v].items():
            if dist[v] + c < dist.get(w, 1 << 60):
                dist[w] = dist[v] + c
