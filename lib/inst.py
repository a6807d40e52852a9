"""Instance files of the two datasets with drawn contents, written the way their libraries read them."""
import math
from pathlib import Path

from hypothesis import strategies as st


@st.composite
def oplib(draw, nmin=3, nmax=7):
    """Points in the plane, prizes, a depot and a distance function."""
    n = draw(st.integers(nmin, nmax))
    return {"xy": [[draw(st.integers(0, 20)), draw(st.integers(0, 20))] for _ in range(n)],
            "prize": [draw(st.integers(0, 30)) for _ in range(n)],
            "root": draw(st.integers(1, n)), "type": draw(st.sampled_from(["EUC_2D", "MAN_2D"]))}


def write_oplib(root, generation, name, d):
    p = Path(root) / "instances" / generation / f"{name}-{generation}-50.oplib"
    p.parent.mkdir(parents=True, exist_ok=True)
    ls = [f"NAME : {name}-{generation}-50", "COMMENT : drawn", "TYPE : OP", f"DIMENSION : {len(d['xy'])}", "COST_LIMIT : 100",
          f"EDGE_WEIGHT_TYPE : {d['type']}", "NODE_COORD_SECTION"]
    ls += [f"{i} {x} {y}" for i, (x, y) in enumerate(d["xy"], 1)]
    ls += ["NODE_SCORE_SECTION"] + [f"{i} {p_}" for i, p_ in enumerate(d["prize"], 1)]
    ls += ["DEPOT_SECTION", str(d["root"]), "-1", "EOF", ""]
    p.write_text("\n".join(ls))
    return p


def cost(d, i, j):
    (x, y), (s, t) = d["xy"][i - 1], d["xy"][j - 1]
    if d["type"] == "MAN_2D":
        return abs(x - s) + abs(y - t)
    q = (x - s) ** 2 + (y - t) ** 2
    r = math.isqrt(q)
    return r if r * r == q else r + 1


def write_londonaq(root, name, g, root_vertex=None, coords=None):
    """g in the format of gen.graphs."""
    import yaml
    p = Path(root) / name / f"{name}.yaml"
    p.parent.mkdir(parents=True, exist_ok=True)
    adj, w = {}, {}
    for u, v, c in g["e"]:
        adj.setdefault(u, []).append(v)
        w.setdefault(u, {})[v] = c
    d = dict(capacity=None, comment="drawn", demands={v: q for v, q in g["v"]}, depots=[g["root"] if root_vertex is None else root_vertex],
             dimension=len(g["v"]), display_data=None, display_data_type="NO_DISPLAY", edge_data=adj, edge_data_format="EDGE_LIST",
             edge_weights=w, edge_weight_format="FULL_MATRIX", edge_weight_type="EXPLICIT", fixed_edges={}, name=name,
             node_coords=coords, node_coord_type="TWOD_COORDS" if coords else "NO_COORDS", problem_type="PCTSP", tours=None)
    p.write_text(yaml.dump(d))
    return p
