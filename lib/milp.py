"""A second, independent solver for instances too big for dynamic programming: HiGHS (scipy) with lazy subtour elimination.

Its answer is only ever used as a witness: the tour it returns is validated here from the definition of a prize-feasible tour."""
import sys
import time

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def best_tour(adj, prize, root, quota, time_limit=3.0, objective=None, below=None):
    """A cheapest prize-feasible tour of the graph as (cost, [root, ..., root]), or None when none was found.

    With an objective {(u, v): c, (v, v): c} (u < v; the latter for visiting v) the tour of least objective instead; below:
    only tours whose cost is less than that."""
    if VT not in sys.path:
        sys.path.append(VT)
    import numpy as np
    from scipy.optimize import Bounds, LinearConstraint, milp
    vs = sorted(v for v in adj if any(u != v for u in adj[v]))
    if root not in vs:
        return None
    es = [(u, v) for u in vs for v in sorted(adj[u]) if u < v]
    n, m = len(vs), len(es)
    ix = {v: m + i for i, v in enumerate(vs)}
    rows, lo, hi = [], [], []
    for v in vs:
        r = np.zeros(m + n)
        for k, e in enumerate(es):
            if v in e:
                r[k] = 1
        r[ix[v]] = -2
        rows.append(r), lo.append(0), hi.append(0)
    r = np.zeros(m + n)
    for v in vs:
        r[ix[v]] = prize.get(v, 0)
    rows.append(r), lo.append(quota), hi.append(np.inf)
    cost = np.array([float(adj[u][v]) for u, v in es] + [0.0] * n)
    c = cost
    if objective is not None:
        c = np.array([float(objective.get(e, 0.0)) for e in es] + [float(objective.get((v, v), 0.0)) for v in vs])
    if below is not None:
        rows.append(cost), lo.append(-np.inf), hi.append(below - 0.5)
    lb = np.zeros(m + n)
    lb[ix[root]] = 1
    end = time.process_time() + time_limit
    while time.process_time() < end:
        s = milp(c, integrality=np.ones(m + n), bounds=Bounds(lb, np.ones(m + n)),
                 constraints=LinearConstraint(np.array(rows), lo, hi), options={"mip_rel_gap": 0, "time_limit": max(0.05, end - time.process_time())})
        if s.x is None:
            return None
        used = [es[k] for k in range(m) if s.x[k] > 0.5]
        nb = {}
        for u, v in used:
            nb.setdefault(u, []).append(v), nb.setdefault(v, []).append(u)
        if any(len(x) != 2 for x in nb.values()) or root not in nb:
            return None
        comps, seen = [], set()
        for a in sorted(nb):
            if a not in seen:
                comp, todo = [a], [a]
                seen.add(a)
                while todo:
                    for y in nb[todo.pop()]:
                        if y not in seen:
                            seen.add(y), comp.append(y), todo.append(y)
                comps.append(comp)
        if len(comps) == 1:
            tour, prev = [root, nb[root][0]], root
            while tour[-1] != root:
                prev, cur = tour[-2], tour[-1]
                tour.append(nb[cur][0] if nb[cur][0] != prev else nb[cur][1])
            return sum(adj[u][v] for u, v in used), tour
        for comp in comps:
            if root in comp:
                continue
            for k in comp:
                r = np.zeros(m + n)
                for i, (u, v) in enumerate(es):
                    if u in comp and v in comp:
                        r[i] = 1
                for v in comp:
                    if v != k:
                        r[ix[v]] = -1
                rows.append(r), lo.append(-np.inf), hi.append(0)
    return None


def witness(adj, prize, root, quota, time_limit=3.0, objective=None, below=None):
    """best_tour, or None when its tour is not valid or no tour was found in the time."""
    w = best_tour(adj, prize, root, quota, time_limit, objective, below)
    if w is None:
        return None
    c, t = w
    if len(t) < 4 or t[0] != root or t[-1] != root or len(set(t)) != len(t) - 1 or any(v not in adj[u] for u, v in zip(t, t[1:])):
        return None
    if sum(prize.get(v, 0) for v in t[:-1]) < quota or c != sum(adj[u][v] for u, v in zip(t, t[1:])) or (below is not None and c >= below):
        return None
    return w
