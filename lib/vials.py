"""Drawn vials, results and experiments as plain JSON, and their construction as the repository's models."""
from datetime import datetime, timedelta, timezone

from hypothesis import strategies as st

ALGS = ["disjoint_tours_relaxation", "extension", "bfs_extension_collapse", "bfs_path_extension_collapse", "solve_pctsp",
        "suurballes_extension_collapse", "suurballes_heuristic", "suurballes_path_extension_collapse"]
EXPERIMENTS = ["baseline", "cost_cover", "disjoint_tours_vs_heuristics", "cc_londonaq_alpha", "dryrun", "compare_heuristics",
               "londonaq_alpha", "onerun", "simple_branch_cut", "tailing_off"]
COSTS = ["EXPLICIT", "EUC_2D", "GEO", "MST", "SEMI_MST", "UNIFORM_RANDOM", "CEIL_2D", "ATT"]
big = st.one_of(st.integers(-3, 100), st.integers(-2**63, 2**63), st.integers(-10**30, 10**30))
flt = st.one_of(st.floats(allow_nan=False, allow_infinity=False), st.integers(0, 10**6).map(float))


def opt(s):
    return st.one_of(st.none(), s)


@st.composite
def data_config(draw):
    ds = draw(st.sampled_from(["londonaq", "tspwplib"]))
    names = ["laqbbA", "laqidA", "laqkxA", "laqtinyA", "laqwsA"] if ds == "londonaq" else ["st70", "eil51", "a280", "pr1002", "gr666", "att48"]
    return {"dataset": ds, "cost_function": draw(st.sampled_from(COSTS)), "graph_name": draw(st.sampled_from(names)),
            "quota": draw(big), "root": draw(big), "alpha": draw(opt(big)), "generation": draw(opt(st.sampled_from(["gen1", "gen2", "gen3"]))),
            "kappa": draw(opt(big)), "triangle": draw(opt(big))}


@st.composite
def model_params(draw):
    b = opt(st.booleans())
    return {"algorithm": draw(st.sampled_from(ALGS)), "is_exact": draw(st.booleans()), "is_heuristic": draw(st.booleans()),
            "is_relaxation": draw(st.booleans()), "branching_strategy": draw(opt(st.sampled_from([0, 1, 2, 4]))),
            "branching_max_depth": draw(opt(big)), "collapse_paths": draw(b), "cost_cover_disjoint_paths": draw(b),
            "cost_cover_shortest_path": draw(b), "heuristic": draw(opt(st.sampled_from(ALGS))), "path_depth_limit": draw(opt(big)),
            "sec_disjoint_tour": draw(b), "sec_lp_gap_improvement_threshold": draw(opt(flt)), "sec_maxflow_mincut": draw(b),
            "sec_max_tailing_off_iterations": draw(opt(big)), "sec_sepafreq": draw(opt(big)), "step_size": draw(opt(big)),
            "time_limit": draw(opt(flt))}


@st.composite
def preprocessing(draw):
    return {k: draw(st.booleans()) for k in ("disjoint_path_cutoff", "remove_leaves", "remove_disconnected_components",
                                             "remove_one_connected_components", "shortest_path_cutoff")}


@st.composite
def vial(draw):
    return {"uuid": str(draw(st.uuids())), "data_config": draw(data_config()), "model_params": draw(model_params()),
            "preprocessing": draw(preprocessing())}


@st.composite
def time(draw):
    """Microseconds since 1970 and an offset in minutes, or none for a time without a zone."""
    return [draw(st.one_of(st.integers(0, 10**16), st.integers(0, 10**10).map(lambda s: s * 10**6), st.integers(-10**15, 10**17))),
            draw(opt(st.integers(-12 * 60, 14 * 60)))]


def when(t):
    d = datetime(1970, 1, 1) + timedelta(microseconds=t[0])
    return d if t[1] is None else d.replace(tzinfo=timezone(timedelta(minutes=t[1])))


@st.composite
def result(draw):
    ends = st.tuples(big, big).map(list)
    return {"objective": draw(big), "prize": draw(big), "edge_list": draw(st.lists(ends, max_size=6)),
            "start_time": draw(time()), "end_time": draw(time())}


def make_vial(V, d):
    return V.Vial(**{k: dict(v) if isinstance(v, dict) else v for k, v in d.items()})


def make_result(V, uuid, d):
    return V.Result(vial_uuid=uuid, objective=d["objective"], prize=d["prize"], edge_list=[tuple(e) for e in d["edge_list"]],
                    start_time=when(d["start_time"]), end_time=when(d["end_time"]))


def make_experiment(V, name, vials, t):
    return V.Experiment(name=name, vials=vials, timestamp=when(t))
