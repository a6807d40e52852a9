"""Writes properties.jsonl (the source of the property texts)."""
import json
from pathlib import Path

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe),
                          "hook_needed": None}})


prop("C01", "Branch and cut returns a cheapest prize-feasible tour under every setting",
     "For every undirected graph with non-negative integer costs and prizes, every quota and every root, solving to completion returns the edges of a simple cycle of at least three vertices through the root whose prize is at least the quota and whose cost is minimal, and returns no edges exactly when no such cycle exists. "
     "The answer does not depend on which separators (disjoint tour, max-flow, cycle cover, cost cover), branching strategy, tailing-off limit, separation frequency, simple rules or warm start are chosen.",
     ["inputs", "configurations"], "all graphs, costs, prizes, quotas, roots x all solver settings x all feasible warm starts",
     "The tests solve a handful of fixed instances under a few settings; a wrong cut, cutoff or check only shows on instances whose optimum happens to violate it.",
     ["src/algorithms.cpp", "src/subtour_elimination.cpp", "src/cost_cover.cpp", "src/cycle_cover.cpp", "src/solution.cpp", "include/pctsp/algorithms.hh", "pctsp/algorithms/algorithms.py", "pctsp/pypctsp.cpp"],
     [("model of degree, prize and root constraints", "include/pctsp/constraint.hh"), ("subtour elimination constraint handler", "src/subtour_elimination.cpp"), ("solve entry points", "src/algorithms.cpp")],
     ["pctsp.algorithms.solve_pctsp", "pyscipopt Model status and bounds"])
prop("C02", "Every inequality added to the model is satisfied by every tour it may not cut",
     "Every subtour elimination and cycle cover inequality the solver adds, at any point of any solve, is satisfied by every simple cycle of at least three vertices through the root whose prize is at least the quota. "
     "Every cost cover inequality is satisfied by every such cycle that is strictly cheaper than the best solution known when the inequality is added, so no inequality can cut off an optimal tour before one is known.",
     ["inputs", "configurations", "histories"], "all instances x settings x every cut generated over the history of the search",
     "An invalid cut changes the returned optimum only if it happens to remove every optimal tour; the tests look at a few cuts on fixed graphs and never at validity against all tours.",
     ["src/subtour_elimination.cpp", "src/cycle_cover.cpp", "src/cost_cover.cpp", "src/sciputils.cpp", "include/pctsp/cost_cover.hh", "include/pctsp/cycle_cover.hh"],
     [("SEC separation", "src/subtour_elimination.cpp"), ("cycle cover separation", "src/cycle_cover.cpp"), ("cost cover presolve and event handler", "src/cost_cover.cpp")],
     ["rows and constraints passed to SCIP"])
prop("C03", "An integer solution is accepted if and only if it is a prize-feasible tour",
     "A 0/1 assignment of the edges of the graph and of the vertices is accepted as a solution by the built problem exactly when the chosen edges form one simple cycle of at least three vertices through the root, the chosen vertices are the vertices of that cycle, and their prize is at least the quota. "
     "Adding a tour as a heuristic solution stores it with the cost of the tour.",
     ["inputs", "configurations"], "all graphs x all 0/1 assignments (tours, unions of disjoint cycles, short cycles, cycles avoiding the root, prize-infeasible cycles, mismatched vertices)",
     "The tests try one or two assignments on one graph; the classes of wrong assignments are exponential.",
     ["src/subtour_elimination.cpp", "src/algorithms.cpp", "include/pctsp/constraint.hh", "src/solution.cpp", "src/separation.cpp"],
     [("constraint handler's check callback", "src/subtour_elimination.cpp"), ("linear constraints", "include/pctsp/constraint.hh")],
     ["SCIP trySol"])
prop("C04", "A warm start is never worsened and an interrupted solve is still sound",
     "Given a prize-feasible tour as warm start, the returned tour is prize-feasible and never more expensive than it; given a walk from the root that is not a feasible tour the result costs the same as without it. "
     "When the search stops at a limit, the result is either empty or a prize-feasible tour, the reported lower bound is at most the optimum and the reported upper bound at least the optimum.",
     ["inputs", "histories", "fault_sequences"], "all instances x warm starts (optimal, feasible, prize-infeasible, not a tour) x limits that stop the search at any point",
     "The tests only run to completion with one heuristic; the stopping point and the warm start are unconstrained.",
     ["src/algorithms.cpp", "src/solution.cpp", "pctsp/algorithms/algorithms.py"],
     [("warm start", "src/algorithms.cpp"), ("feasibility filter of the warm start", "pctsp/algorithms/algorithms.py")],
     ["returned edges", "summary statistics"])
prop("C05", "Summary statistics report what the solver did",
     "After every solve the summary statistics file in the solver directory can be read back, its status, bounds and node count are those of the solver, the bounds equal the cost of the returned tour when the status is optimal, and the counters of a disabled separator are zero while the counters of an enabled one are at least the number of inequalities of that kind added. "
     "Statistics written to YAML by C++ and read by C++ or Python are the same field by field, for all values.",
     ["inputs", "configurations"], "all solves x all values of the statistics",
     "The tests check that the file exists and one or two fields; a swapped field passes.",
     ["src/stats.cpp", "include/pctsp/stats.hh", "pctsp/algorithms/data_structures.py", "src/algorithms.cpp"],
     [("YAML writer and reader", "src/stats.cpp"), ("reader", "pctsp/algorithms/data_structures.py")],
     ["pctsp_summary_stats.yaml"])
prop("C06", "Results do not depend on names, order or scale of the input",
     "Renaming the vertices, reordering the edge list, flipping edge endpoints or scaling all costs by a positive integer never changes the optimal cost (up to the scale) or whether an instance is feasible, and every vertex and edge an algorithm returns is one of the caller's vertices and edges. The improvement heuristics give the same tour, renamed, when the vertices are renamed and the costs multiplied by a power of two. "
     "The C++ renaming layer is a bijection: renaming a graph, its edges, vertices, tours, cost maps and prize maps and renaming them back gives the originals.",
     ["inputs"], "all instances x all relabellings, orders, orientations and scales",
     "The tests use graphs labelled 0..n-1 almost everywhere, where a lost renaming is invisible.",
     ["include/pctsp/renaming.hh", "pctsp/pypctsp.cpp", "include/pctsp/graph.hh"],
     [("renaming layer", "include/pctsp/renaming.hh"), ("Python bindings", "pctsp/pypctsp.cpp")],
     ["pctsp.algorithms functions", "renaming functions"])
prop("C07", "Collapse keeps the tour feasible and never makes it more expensive",
     "Collapsing a prize-feasible tour, with either collapse method, returns a closed simple walk along edges of the graph that starts and ends at the root, collects at least the quota, and costs as much as the cheapest of the tour itself and the tours made from it by one shortcut that keeps the root and the quota (one vertex, or for path collapse also a shortest path, that closes a stretch of the tour just below the quota). "
     "A tour with prize below the quota is returned unchanged, and so is one that no shortcut makes cheaper.",
     ["inputs"], "all graphs, tours, quotas and roots, both collapse methods",
     "The tests collapse two or three fixed tours.",
     ["include/pctsp/heuristic.hh", "src/heuristic.cpp", "pctsp/algorithms/extension_collapse.py", "pctsp/algorithms/path_extension_collapse.py"],
     [("collapse", "include/pctsp/heuristic.hh")], ["collapse", "path_collapse"])
prop("C08", "Extension with unitary gain inserts the best vertices and nothing else",
     "Extending a tour by unitary gain returns a simple closed walk along edges that visits the input tour's vertices in their cyclic order, every inserted vertex having, when inserted, the largest positive unitary gain (prize over added cost), until the largest gain is no longer above the average best gain of the vertices outside the input tour; the prize never falls. "
     "Extension until prize-feasible stops as soon as the prize reaches the quota, and only stops earlier when no vertex with positive gain can be inserted.",
     ["inputs"], "all graphs, tours and quotas",
     "The tests extend one tour on a fixed graph and check the prize grew.",
     ["include/pctsp/heuristic.hh", "src/heuristic.cpp", "pctsp/algorithms/extension_collapse.py"],
     [("extension and unitary gain", "include/pctsp/heuristic.hh")], ["extension_unitary_gain", "extension_until_prize_feasible", "unitary_gain"])
prop("C09", "Path extension only ever improves the prize of a valid tour",
     "Path extension with any step size and depth limit returns a simple closed walk along edges from the root whose prize is at least that of the input tour, made by replacing stretches of as many edges as the step size, never with the root inside, by paths of at most the depth limit outside the tour with more prize, choosing the smallest unitary loss (added cost over added prize) each time. "
     "Path extension until prize-feasible leaves a tour that already meets the quota alone and otherwise stops once the quota is met or no extension is left.",
     ["inputs"], "all graphs, tours, roots, quotas, step sizes and depth limits",
     "The tests run two step sizes on one graph.",
     ["include/pctsp/heuristic.hh", "src/heuristic.cpp", "pctsp/algorithms/path_extension_collapse.py", "pctsp/algorithms/extension_collapse.py"],
     [("path extension", "include/pctsp/heuristic.hh")], ["path_extension", "extension_unitary_loss", "path_extension_until_prize_feasible", "unitary_loss"])
prop("C10", "Heuristic solutions are prize-feasible tours or are reported as infeasible",
     "Running any heuristic (breadth-first or Suurballe start, extension-collapse or path-extension-collapse, Suurballe's heuristic) on any graph in which the root has an edge returns the edges of a simple cycle through the root or, when none was found, an empty result; a result below the quota is never taken as feasible, Suurballe's heuristic and path-extension-collapse never return one, and Suurballe starts are refused when the root is on no cycle. "
     "Extension-collapse and path-extension-collapse give what composing their documented steps gives, never end below the quota if their extended tour reached it, never cost more than the tour they collapse, and no heuristic returns a tour cheaper than the optimum.",
     ["inputs", "configurations"], "all graphs, quotas, roots x all heuristic names and parameters",
     "The tests run each heuristic on a few instances that need downloaded data.",
     ["pctsp/lab/run_algorithm.py", "pctsp/algorithms/extension_collapse.py", "pctsp/algorithms/path_extension_collapse.py", "pctsp/algorithms/heuristic.py", "include/pctsp/heuristic.hh", "src/heuristic.cpp"],
     [("run_heuristic", "pctsp/lab/run_algorithm.py"), ("pathExtensionCollapse", "include/pctsp/heuristic.hh")], ["run_heuristic", "path_extension_collapse", "extension_unitary_gain_collapse"])
prop("C11", "Suurballe's algorithm finds least-cost disjoint path pairs to every vertex",
     "For every asymmetric directed graph with non-negative costs and every source, each vertex is labelled exactly when two edge-disjoint paths from the source to it exist; the reported cost is the minimum over all such pairs and the two extracted paths are edge-disjoint paths of the graph with exactly that total cost. "
     "For an undirected graph the paths and costs mapped back to the original vertices are vertex-disjoint and of minimum total cost, with none for the root itself.",
     ["inputs"], "all directed asymmetric and undirected graphs, all costs including zeros and ties, all sources",
     "The tests check the one graph of the 1984 paper.",
     ["pctsp/suurballe/suurballe.py", "pctsp/preprocessing/preprocessing.py"],
     [("labelling of vertices and processing of non-tree edges", "pctsp/suurballe/suurballe.py"), ("mapping of split vertices back", "pctsp/preprocessing/preprocessing.py")],
     ["suurballe_shortest_vertex_disjoint_paths", "extract_suurballe_edge_disjoint_paths", "edge_disjoint_path_cost", "undirected_vertex_disjoint_paths_map", "vertex_disjoint_cost_map"])
prop("C12", "Tours built from disjoint paths are the best of the candidates",
     "A tour built from two disjoint paths goes out along the first and back along the second without changing either; pairs that share no endpoints or are too short are rejected. "
     "Suurballe's heuristic returns the cheapest simple tour among the candidates that meets the quota and nothing if there is none; the tour initialisation returns that tour, or otherwise a tour of largest prize; a random tour is one of the candidates, the same for the same seed, and is refused when every pair is too short.",
     ["inputs"], "all path maps, cost maps, prizes, quotas and seeds",
     "The tests use three hand-written maps.",
     ["pctsp/algorithms/heuristic.py"], [("suurballes_heuristic, suurballes_tour_initialization, random_tour_from_disjoint_paths_map", "pctsp/algorithms/heuristic.py")],
     ["those functions"])
prop("C13", "Initial cycles through the root are found whenever they exist",
     "The breadth-first search for a cycle returns a simple cycle of at least three vertices through the root along edges of the graph whenever the root lies on a cycle, and an empty list otherwise. "
     "A random tour of a complete graph is a simple cycle from the root with at least three vertices that reaches the quota without a surplus vertex, or uses all vertices; the same seed gives the same tour.",
     ["inputs"], "all graphs and roots; all complete graphs, quotas and seeds",
     "The tests use two graphs with an obvious cycle.",
     ["pctsp/algorithms/heuristic.py"], [("find_cycle_from_bfs, random_tour_complete_graph", "pctsp/algorithms/heuristic.py")], ["those functions"])
prop("C14", "Preprocessing removes exactly what no tour through the root can use",
     "Removing leaves returns the largest subgraph in which every vertex has at least two neighbours other than itself; removing disconnected components returns exactly the component of the given vertex; removing one-connected components keeps the root and exactly the vertices that lie on a common cycle with it. "
     "In every case the remaining graph is the induced subgraph with its costs and prizes unchanged, every tour through the root survives, and the caller's graph is not modified.",
     ["inputs"], "all undirected graphs with or without self loops, all roots, all combinations of the steps",
     "The tests count vertices on six small graphs.",
     ["pctsp/preprocessing/preprocessing.py", "pctsp/lab/run_algorithm.py"],
     [("remove_leaves, remove_components_disconnected_from_vertex, remove_one_connected_components", "pctsp/preprocessing/preprocessing.py"), ("run_preprocessing", "pctsp/lab/run_algorithm.py")], ["those functions"])
prop("C15", "Experiments, vials and results survive being written and read back",
     "Every experiment, vial and result, with any combination of settings including absent ones, is equal to itself after being written to file and read back, in its own vial's directory under its own identifier; writing to a missing directory is refused. "
     "Flattening a vial keeps every setting under its own name, and the table of a list of vials has one row per vial in order.",
     ["inputs"], "all values of every field, all experiment names",
     "The tests round-trip one vial.",
     ["pctsp/vial/result.py", "pctsp/vial/experiment.py", "pctsp/vial/vial.py", "pctsp/vial/model_params.py", "pctsp/vial/data_config.py", "pctsp/lab/lab.py"],
     [("JSON writers and readers", "pctsp/lab/lab.py"), ("Result", "pctsp/vial/result.py")], ["Lab and Result methods"])
prop("C16", "Batches partition an experiment and only unfinished vials count as missing",
     "The batches of an experiment, for any batch size, run every vial exactly once and the number of batches is the least that covers all vials; a generated cluster script schedules exactly those batches, with the resources asked for and the time a batch may take. "
     "Over any history of runs, failed vials, lost and truncated result files, a vial is missing exactly when it has no readable result, infeasible exactly when its readable result is below its quota, a vial whose preprocessing or algorithm fails never stops the others, and re-running the missing vials leaves the other results untouched.",
     ["histories", "inputs", "fault_sequences"], "all experiments, batch sizes and histories of running, failing, deleting and truncating results",
     "The tests run one small experiment to success.",
     ["pctsp/lab/lab.py", "pctsp/apps/main_app.py"],
     [("run_batch, missing_vials, infeasible_vials, get_nbatches", "pctsp/lab/lab.py"), ("commands", "pctsp/apps/main_app.py")], ["Lab methods and command line"])
prop("C17", "Experiments contain every combination of their parameters exactly once",
     "Taking the product of parameter lists gives one item per combination, each carrying exactly its own parameter values with the documented defaults elsewhere, and every vial has its own identifier; quotas, roots and cost functions are those of the instance file. "
     "Each predefined experiment contains every combination it is meant to compare once, with consistent algorithm flags.",
     ["inputs", "configurations"], "all parameter lists, instance files and predefined experiments",
     "The tests compare the lengths of a few products.",
     ["pctsp/compare/product_of_params.py", "pctsp/compare/exact_experiment.py", "pctsp/compare/heuristic_experiment.py", "pctsp/compare/dryrun_experiment.py", "pctsp/compare/relaxation_experiment.py", "pctsp/compare/params.py"],
     [("product_of_*", "pctsp/compare/product_of_params.py"), ("experiments", "pctsp/compare")], ["those functions"])
prop("C18", "Tables of results agree with the result files they summarise",
     "The summary of an experiment has one row per vial with a result, joined to the settings of the same vial, with duration the difference of its times, feasible exactly when the prize reaches the quota, and objective and overshoot blank exactly when infeasible; the branch-and-cut table adds the statistics of the same vial. "
     "The heuristic gap is relative to the lower bound of the same instance; the tables of tailing off, cost cover, heuristics and data sets give for every group of vials the means and counts over exactly its rows, making a table pretty changes names of columns and of their own values only, and zipping then unzipping experiments restores every file.",
     ["inputs"], "all sets of vials, results and statistics, including missing ones",
     "The tests check that the commands exit without error.",
     ["pctsp/apps/csv_app.py", "pctsp/apps/tables_app.py", "pctsp/apps/utils_app.py", "pctsp/vial/vial.py"],
     [("experiment_summary_df, summary_stats_df", "pctsp/apps/csv_app.py"), ("get_heuristics_df, pretty_dataframe", "pctsp/apps/tables_app.py")], ["those functions and commands"])
prop("C19", "A vial's result describes the tour that its settings produce",
     "Running a vial preprocesses the graph as its settings say, runs the algorithm it names with its own quota, root and parameters, and gives a result carrying the vial's identifier whose edges are an ordered closed tour of the preprocessed graph and whose objective and prize are the cost and prize of exactly those edges; exact algorithms give the optimum. "
     "A vial run from an instance file, by an experiment or by the command that runs one, uses that file's costs, prizes, root and the cost function and sparsity it asks for.",
     ["inputs", "configurations"], "all graphs and vials: algorithms, warm start heuristics, preprocessing flags and parameters",
     "The tests that run vials need downloaded instances and check few fields.",
     ["pctsp/lab/run_algorithm.py", "pctsp/lab/lab.py"],
     [("run_algorithm, run_preprocessing", "pctsp/lab/run_algorithm.py"), ("run_experiment_from_vial_list", "pctsp/lab/lab.py")], ["Result"])
prop("C20", "Separation finds the subtour and cut violations it is asked to find",
     "At a point satisfying the degree constraints, the disjoint tour separation finds a violated inequality for every vertex of every component that does not contain the root, the max-flow separation finds one for every vertex of the root's component whose connection to the root is weaker than that of every vertex its cut can be taken for, and the cycle cover separation finds one exactly when the root's component collects less than the quota. "
     "Every inequality found is violated by the point separated and by no tour it may not cut, and none is found for a point that satisfies all of them. "
     "The building blocks agree with their definitions: reachability, edges of a cut, the distances and the dear vertices of cost cover inequalities and the window of gaps that stops separation.",
     ["inputs"], "all graphs and all fractional and integer points",
     "The tests separate two hand-made points.",
     ["src/subtour_elimination.cpp", "include/pctsp/subtour_elimination.hh", "src/separation.cpp", "include/pctsp/graph.hh"],
     [("separateDisjointTour, separateMaxflowMincut", "src/subtour_elimination.cpp")], ["inequalities found"])
prop("C21", "Branching strategy and limits reach the solver as asked",
     "Choosing reliability branching, strong branching or strong branching at the top of the tree gives that rule the highest priority of all branching rules, with reliability branching next; strong branching at the top of the tree is limited to the chosen depth and otherwise not limited, and the default strategy changes nothing. The name, time limit, separation frequency, chosen kinds of inequalities and directory the caller gives are the ones the solver uses; with a tailing-off limit of k LPs (k at least 2) a node tails off exactly when its last k LPs improved the gap by less than the threshold. "
     "Each Python function passes each of its parameters to the parameter of the same meaning of the compiled function.",
     ["configurations", "inputs"], "all strategies, depths, limits and parameter values",
     "The tests look at two strategies and never at what reaches the solver.",
     ["src/branching.cpp", "include/pctsp/branching.hh", "src/algorithms.cpp", "pctsp/pypctsp.cpp", "pctsp/algorithms/algorithms.py", "pctsp/algorithms/extension_collapse.py", "pctsp/algorithms/path_extension_collapse.py"],
     [("setBranchingStrategy", "src/branching.cpp"), ("bindings", "pctsp/pypctsp.cpp")], ["SCIP parameters", "arguments of the compiled functions"])
prop("C22", "Graph and walk utilities agree with their definitions",
     "Prize and cost totals, edge and vertex lists of walks, reordering a tour from its root, stretches of a cycle and their replacement, connected components, induced edges, filtered graphs, self loops, common neighbours and breadth-first, depth-first and shortest path searches equal their textbook definitions on every graph. "
     "Functions that can fail (missing edge, self loop or variable, not a walk) report it with an exception and never with a wrong value.",
     ["inputs"], "all graphs, walks, edge lists and vertex sets",
     "The tests use a few fixed small graphs.",
     ["include/pctsp/graph.hh", "include/pctsp/walk.hh", "src/graph.cpp", "include/pctsp/data_structures.hh", "src/data_structures.cpp", "include/pctsp/preprocessing.hh"],
     [("graph utilities", "include/pctsp/graph.hh"), ("walk utilities", "include/pctsp/walk.hh")], ["those functions"])
prop("C23", "Memory is used safely on every accepted input",
     "No accepted input to a solver or heuristic of the Python package, including degenerate ones (no edges, isolated root, no cycle, zero prizes, quota above the total prize, empty starting tour), makes the compiled code read or write outside its objects, overflow, crash or fail to terminate; input that cannot be used is answered with an empty result or an exception.",
     ["inputs", "configurations"], "all inputs the Python functions accept, all settings",
     "The tests run without sanitizers on well-formed inputs.",
     ["src", "include/pctsp", "pctsp/pypctsp.cpp"], [("compiled code", "src")], ["sanitizer reports, signals"])
prop("C24", "Bounds and node records describe the search that happened",
     "The recorded sequence of bounds of a solve has never-increasing upper bounds and never-decreasing lower bounds with lower at most upper, its last record is consistent with the reported bounds, and both files are written in the given directory with one row per record and columns that match the header. "
     "The number of node records matches the nodes processed and every record has the node, its parent and the bounds that the search had at that moment, and counters within the totals of the summary.",
     ["inputs", "histories"], "all solves",
     "The tests check that the files exist.",
     ["src/event_handlers.cpp", "include/pctsp/event_handlers.hh", "src/stats.cpp", "include/pctsp/stats.hh"],
     [("bounds and node event handlers", "src/event_handlers.cpp")], ["CSV files of the solver directory"])
prop("C25", "Dataset statistics agree with the graph they describe",
     "The statistics of an instance are the numbers of vertices and edges, the total cost and prize, before and after preprocessing, the largest prize collected by a least-cost pair of disjoint paths from the root (its endpoints not counted twice) and the largest cost of such a pair, each equal to its definition for every graph and vertex naming.",
     ["inputs"], "all connected graphs with a root on a cycle, all vertex names",
     "There is no test of the statistics.",
     ["pctsp/apps/dataset_app.py"], [("get_graph_stats", "pctsp/apps/dataset_app.py")], ["get_graph_stats"])
prop("C26", "Plots show exactly the graph and tour they are given",
     "A plot of the edges, vertices or tour of a graph contains one segment per given edge and one marker per given vertex at that vertex's coordinates, with tour edges exactly those of the tour.",
     ["inputs"], "all graphs with coordinates and tours", "There is no test of the plots.",
     ["pctsp/plot/plot_edges.py", "pctsp/plot/plot_graph.py", "pctsp/plot/plot_tour.py", "pctsp/plot/plot_vertices.py"],
     [("traces", "pctsp/plot")], ["plotly figure data"])
prop("C27", "Logging shows what the chosen level asks for",
     "A message logged by the compiled code or through a logger of this package is written once when its severity is at least the chosen level and not at all otherwise, for each of Python's standard levels; the level names map to the same severities in both, choosing a level for one call holds for that call, and asking again for a logger only changes its level.",
     ["inputs", "histories"], "all levels and sequences of levels and messages", "The tests set a few levels once.",
     ["src/logger.cpp", "include/pctsp/logger.hh", "pctsp/utils/utils.py", "pctsp/pypctsp.cpp"],
     [("PyLoggingLevels mapping", "src/logger.cpp")], ["log output"])

if __name__ == "__main__":
    out = Path(__file__).resolve().parent.parent / "properties.jsonl"
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        assert p["statement"].count(". ") <= 2
    out.write_text("".join(json.dumps(p) + "\n" for p in P))
    print(len(P))
