/* Harness entry points around the model and its separators: C03, C20, C24. */
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include "pctsp/algorithms.hh"
#include "pctsp/separation.hh"
#include "pctsp/cost_cover.hh"
#include "pctsp/cycle_cover.hh"
#include "pctsp/event_handlers.hh"
#include "pctsp/stats.hh"
#include "pctsp/subtour_elimination.hh"

extern "C" { void vp_spy_start(); void vp_spy_stop(); const char* vp_spy_json(); }

typedef std::vector<std::tuple<long, long, int>> Edges;
typedef std::vector<std::pair<long, long>> Pairs;
#define CK(x) do { SCIP_RETCODE rc_ = (x); if (rc_ != SCIP_OKAY) throw std::runtime_error(std::string(#x) + " returned " + std::to_string((int) rc_)); } while (0)

namespace {
struct ScipHolder {
    SCIP* p = nullptr;
    ScipHolder() { CK(SCIPcreate(&p)); SCIPsetMessagehdlrQuiet(p, TRUE); SCIPsetIntParam(p, "display/verblevel", 0); }
    ~ScipHolder() { if (p) SCIPfree(&p); }
};
PCTSPgraph make(long n, const Edges& edges, const std::vector<int>& prizes) {
    PCTSPgraph g((size_t) n);
    auto cost = boost::get(edge_weight, g);
    auto prize = boost::get(vertex_distance, g);
    for (auto const& [u, v, c] : edges) cost[boost::add_edge(u, v, g).first] = c;
    for (long v = 0; v < n; v++) prize[v] = prizes[v];
    return g;
}
std::vector<PCTSPedge> to_edges(PCTSPgraph& g, const Pairs& ps) {
    std::vector<PCTSPedge> r;
    for (auto const& p : ps) {
        auto e = boost::edge(p.first, p.second, g);
        if (!e.second) throw std::runtime_error("harness: no such edge");
        r.push_back(e.first);
    }
    return r;
}
}

/* For every assignment (edges with value one, vertices with value one): does the problem accept it? */
std::vector<bool> accepts(long n, Edges edges, std::vector<int> prizes, int quota, long root, bool disjoint, bool maxflow, bool simple, bool cycle_cover,
                          std::vector<std::pair<Pairs, std::vector<long>>> assignments) {
    ScipHolder s;
    SCIP* scip = s.p;
    PCTSPgraph g = make(n, edges, prizes);
    EdgeCostMap cost = boost::get(edge_weight, g);
    VertexPrizeMap prize = boost::get(vertex_distance, g);
    std::vector<PCTSPedge> none;
    std::string name = "m";
    PCTSPvertex r = root;
    auto vars = modelPrizeCollectingTSP(scip, g, none, cost, prize, quota, r, name, disjoint, 0.01, maxflow, -1, 1, simple);
    if (cycle_cover) {
        CK(SCIPincludeObjConshdlr(scip, new CycleCoverConshdlr(scip), true));
        SCIP_CONS* c;
        CK(createBasicCycleCoverCons(scip, &c));
        CK(SCIPaddCons(scip, c));
        CK(SCIPreleaseCons(scip, &c));
    }
    CK(SCIPtransformProb(scip));
    std::vector<bool> out;
    for (auto const& [es, vs] : assignments) {
        SCIP_SOL* sol;
        CK(SCIPcreateSol(scip, &sol, NULL));
        for (auto const& e : to_edges(g, es)) CK(SCIPsetSolVal(scip, sol, vars[e], 1.0));
        for (long v : vs) CK(SCIPsetSolVal(scip, sol, vars[boost::edge(v, v, g).first], 1.0));
        SCIP_Bool ok = FALSE;
        CK(SCIPcheckSol(scip, sol, FALSE, TRUE, TRUE, TRUE, TRUE, &ok));
        out.push_back(ok);
        CK(SCIPfreeSol(scip, &sol));
    }
    return out;
}

/* The solver with its default settings on a graph of the library's own type: (solution edges, is the status optimal, infeasible). */
std::tuple<Pairs, bool, bool> solve_graph(long n, Edges edges, std::vector<int> prizes, int quota, long root, Pairs heuristic) {
    ScipHolder s;
    SCIP* scip = s.p;
    PCTSPgraph g = make(n, edges, prizes);
    EdgeCostMap cost = boost::get(edge_weight, g);
    VertexPrizeMap prize = boost::get(vertex_distance, g);
    auto first = to_edges(g, heuristic);
    std::string name = "m";
    PCTSPvertex r = root;
    auto es = solvePrizeCollectingTSP(scip, g, first, cost, prize, quota, r, name);
    Pairs out;
    for (auto const& e : es) out.push_back({(long) e.first, (long) e.second});
    return {out, SCIPgetStatus(scip) == SCIP_STATUS_OPTIMAL, SCIPgetStatus(scip) == SCIP_STATUS_INFEASIBLE};
}

/* Adds warm starts; -> for each stored solution its cost, edges and vertices.
 * kind 0: through the model, 1: addHeuristicEdgesToSolver, 2: addHeuristicVarsToSolver */
std::vector<std::tuple<double, Pairs, std::vector<long>>> stored(long n, Edges edges, std::vector<int> prizes, int quota, long root, int kind,
                                                                std::vector<std::vector<long>> walks) {
    ScipHolder s;
    SCIP* scip = s.p;
    PCTSPgraph g = make(n, edges, prizes);
    EdgeCostMap cost = boost::get(edge_weight, g);
    VertexPrizeMap prize = boost::get(vertex_distance, g);
    std::vector<PCTSPedge> first;
    auto pairs = [](const std::vector<long>& w) { Pairs p; for (size_t i = 0; i + 1 < w.size(); i++) p.push_back({w[i], w[i + 1]}); return p; };
    if (kind == 0) first = to_edges(g, pairs(walks.at(0)));
    std::string name = "m";
    PCTSPvertex r = root;
    auto vars = modelPrizeCollectingTSP(scip, g, first, cost, prize, quota, r, name);
    if (kind != 0) for (auto const& w : walks) {
        auto es = to_edges(g, pairs(w));
        if (kind == 1) { auto a = es.begin(), b = es.end(); CK(addHeuristicEdgesToSolver(scip, g, (SCIP_HEUR*) NULL, vars, a, b)); }
        else {
            std::vector<SCIP_VAR*> x;
            for (auto const& e : es) x.push_back(vars[e]);
            for (size_t i = 0; i + 1 < w.size(); i++) x.push_back(vars[boost::edge(w[i], w[i], g).first]);
            CK(addHeuristicVarsToSolver(scip, NULL, x));
        }
    }
    CK(SCIPtransformProb(scip));
    std::vector<std::tuple<double, Pairs, std::vector<long>>> out;
    SCIP_SOL** sols = SCIPgetSols(scip);
    for (int i = 0; i < SCIPgetNSols(scip); i++) {
        Pairs p;
        std::vector<long> vs;
        for (auto const& e : getSolutionEdges(scip, g, sols[i], vars)) p.push_back({(long) boost::source(e, g), (long) boost::target(e, g)});
        for (auto v : getSolutionVertices(scip, g, sols[i], vars)) vs.push_back(v);
        out.push_back({SCIPgetSolOrigObj(scip, sols[i]), p, vs});
    }
    return out;
}

/* isSimpleCycle on edge lists; isGraphSimpleCycle on graphs */
std::vector<bool> simple_cycle_edges(long n, Edges edges, std::vector<Pairs> subsets) {
    PCTSPgraph g = make(n, edges, std::vector<int>(n, 0));
    std::vector<bool> out;
    for (auto const& ps : subsets) { auto es = to_edges(g, ps); out.push_back(isSimpleCycle(g, es)); }
    return out;
}
bool simple_cycle_graph(long n, Edges edges) {
    PCTSPgraph g = make(n, edges, std::vector<int>(n, 0));
    std::vector<int> component(std::max(1L, n));
    return isGraphSimpleCycle(g, component);
}

namespace {
/* Separates the given points once, in the first call for an LP solution. */
struct Probe : public scip::ObjConshdlr {
    std::function<void(SCIP*, SCIP_CONSHDLR*)> job;
    std::string error;
    bool done = false;
    Probe(SCIP* scip) : ObjConshdlr(scip, "vp_probe", "", 2000000, -3000000, -3000000, 1, -1, 1, 0, FALSE, FALSE, FALSE,
        SCIP_PROPTIMING_BEFORELP, SCIP_PRESOLTIMING_FAST) {}
    SCIP_DECL_CONSCHECK(scip_check) { *result = done ? SCIP_FEASIBLE : SCIP_INFEASIBLE; return SCIP_OKAY; }
    SCIP_DECL_CONSENFOPS(scip_enfops) { *result = SCIP_FEASIBLE; return SCIP_OKAY; }
    SCIP_DECL_CONSENFOLP(scip_enfolp) { *result = SCIP_FEASIBLE; return SCIP_OKAY; }
    SCIP_DECL_CONSTRANS(scip_trans) { return SCIP_OKAY; }
    SCIP_DECL_CONSLOCK(scip_lock) { return SCIP_OKAY; }
    SCIP_DECL_CONSSEPALP(scip_sepalp) {
        if (!done) {
            done = true;
            try { job(scip, conshdlr); } catch (std::exception& e) { error = e.what(); }
            SCIPinterruptSolve(scip);
        }
        *result = SCIP_DIDNOTFIND;
        return SCIP_OKAY;
    }
};
}

/* For every point ([(u, v, value)], loops are vertices): the rows added (spy JSON) and the result code.
 * what 0: PCTSPseparateSubtour(disjoint, maxflow), 1: separateCycleCover */
std::vector<std::pair<std::string, int>> separate(long n, Edges edges, std::vector<int> prizes, int quota, long root, int what, bool disjoint, bool maxflow,
                                                  std::vector<std::vector<std::tuple<long, long, double>>> points) {
    ScipHolder s;
    SCIP* scip = s.p;
    PCTSPgraph g = make(n, edges, prizes);
    EdgeCostMap cost = boost::get(edge_weight, g);
    CK(SCIPincludeDefaultPlugins(scip));
    addSelfLoopsToGraph(g);
    assignZeroCostToSelfLoops(g, cost);
    std::map<PCTSPedge, SCIP_VAR*> vars;
    PCTSPvertex r = root;
    CK(SCIPcreateObjProb(scip, "m", new ProbDataPCTSP(&g, &r, &vars, &quota), true));
    CK(PCTSPaddEdgeVariables(scip, g, cost, vars));
    CK(SCIPsetIntParam(scip, "presolving/maxrounds", 0));
    auto* probe = new Probe(scip);
    std::vector<std::pair<std::string, int>> out;
    probe->job = [&](SCIP* sc, SCIP_CONSHDLR* hdlr) {
        for (auto const& pt : points) {
            SCIP_SOL* sol;
            CK(SCIPcreateSol(sc, &sol, NULL));
            for (auto const& [u, v, x] : pt) CK(SCIPsetSolVal(sc, sol, vars[boost::edge(u, v, g).first], x));
            SCIP_RESULT res = SCIP_DIDNOTFIND;
            vp_spy_start();
            SCIP_RETCODE rc = what == 0 ? PCTSPseparateSubtour(sc, hdlr, NULL, 0, 0, sol, &res, disjoint, maxflow) : separateCycleCover(sc, hdlr, sol, &res);
            std::string js = vp_spy_json();
            vp_spy_stop();
            CK(SCIPfreeSol(sc, &sol));
            CK(rc);
            out.push_back({js, (int) res});
        }
    };
    CK(SCIPincludeObjConshdlr(scip, probe, TRUE));
    CK(SCIPsolve(scip));
    if (!probe->error.empty()) throw std::runtime_error(probe->error);
    if (!probe->done) throw std::runtime_error("harness: separation was not called");
    return out;
}
std::vector<int> result_codes() { return {(int) SCIP_DIDNOTFIND, (int) SCIP_SEPARATED, (int) SCIP_CUTOFF}; }

/* vertices whose path distance is above the bound */
std::vector<long> too_dear(long n, Edges edges, std::vector<int> distances, int bound) {
    PCTSPgraph g = make(n, edges, std::vector<int>(n, 0));
    auto v = separateCostCoverPaths(g, distances, bound);
    return std::vector<long>(v.begin(), v.end());
}
/* the distances the shortest path cost cover uses */
std::vector<int> cover_distances(long n, Edges edges, long root) {
    ScipHolder s;
    PCTSPgraph g = make(n, edges, std::vector<int>(n, 0));
    EdgeCostMap cost = boost::get(edge_weight, g);
    PCTSPvertex r = root;
    CK(SCIPcreateProbBasic(s.p, "m"));
    CK(includeShortestPathCostCover(s.p, g, cost, r));
    return getShortestPathCostCoverEventHandler(s.p)->getPathDistances();
}

/* tailing off: the gaps of one node, pushed one at a time */
std::vector<std::tuple<std::vector<double>, bool>> tailing(std::vector<double> gaps, double threshold, int max_iter) {
    std::list<double> l;
    std::vector<std::tuple<std::vector<double>, bool>> out;
    for (double x : gaps) {
        pushIntoRollingLpGapList(l, x, max_iter);
        out.push_back({std::vector<double>(l.begin(), l.end()), isNodeTailingOff(l, threshold, max_iter)});
    }
    return out;
}

/* residual reachability and the edges of a cut */
std::pair<std::vector<long>, std::vector<long>> reach(long n, Edges arcs, long source) {
    typedef boost::adjacency_list<boost::vecS, boost::vecS, boost::directedS, boost::no_property, boost::property<edge_weight_t, int>> D;
    D g((size_t) n);
    auto w = boost::get(edge_weight, g);
    for (auto const& [u, v, c] : arcs) w[boost::add_edge(u, v, g).first] = c;
    boost::graph_traits<D>::vertex_descriptor s = source;
    auto a = getReachableVertices(g, s, w);
    auto b = getUnreachableVertices(g, s, w);
    return {std::vector<long>(a.begin(), a.end()), std::vector<long>(b.begin(), b.end())};
}
Pairs cut_edges(long n, Edges edges, std::vector<int> side) {
    PCTSPgraph g = make(n, edges, std::vector<int>(n, 0));
    auto pm = boost::make_iterator_property_map(side.begin(), boost::get(vertex_index, g));
    Pairs out;
    for (auto const& e : getEdgesFromCut(g, pm)) out.push_back({(long) boost::source(e, g), (long) boost::target(e, g)});
    return out;
}

/* ---- records of the search (C24) ---- */
static SCIP* scip_of(const pybind11::object& model) {
    auto cap = model.attr("to_ptr")(false);
    return (SCIP*) PyCapsule_GetPointer(cap.ptr(), "scip");
}
typedef std::tuple<long, long, double, double, long> B;   // start ms, end ms, lower, upper, node
static long ms(TimePointUTC t) { return (long) std::chrono::duration_cast<SubSeconds>(t.time_since_epoch()).count(); }
std::vector<B> bounds(pybind11::object model) {
    auto* h = dynamic_cast<BoundsEventHandler*>(SCIPfindObjEventhdlr(scip_of(model), "pctsp_bound_handler"));
    if (!h) throw std::runtime_error("no bounds handler");
    std::vector<B> out;
    for (auto& b : h->getBoundsVector()) out.push_back({ms(b.start_timestamp), ms(b.end_timestamp), b.lower_bound, b.upper_bound, (long) b.node_id});
    return out;
}
typedef std::tuple<double, long, std::vector<long>, long, double> N;  // lower, id, counters, parent, upper
static N tup(NodeStats& s) {
    return {s.lower_bound, (long) s.node_id, {(long) s.num_sec_disjoint_tour, (long) s.num_sec_maxflow_mincut, (long) s.num_cost_cover_disjoint_paths,
            (long) s.num_cost_cover_shortest_paths, (long) s.num_cost_cover_steiner_tree}, (long) s.parent_id, s.upper_bound};
}
std::vector<N> nodes(pybind11::object model) {
    auto* h = dynamic_cast<NodeEventhdlr*>(SCIPfindObjEventhdlr(scip_of(model), NODE_EVENTHDLR_NAME.c_str()));
    if (!h) throw std::runtime_error("no node handler");
    std::vector<N> out;
    for (auto& s : h->getNodeStatsVector()) out.push_back(tup(s));
    return out;
}
/* An event handler of our own: what the search was like at every focused node and after every LP. */
namespace {
struct Witness : public scip::ObjEventhdlr {
    std::vector<std::tuple<std::string, long, long, double, double, double>> seen;  // kind, node, parent, its bound, dual, primal
    Witness(SCIP* scip) : ObjEventhdlr(scip, "vp_witness", "") {}
    static const SCIP_EVENTTYPE what = SCIP_EVENTTYPE_NODEEVENT | SCIP_EVENTTYPE_LPSOLVED;
    SCIP_DECL_EVENTINITSOL(scip_initsol) { return SCIPcatchEvent(scip, what, eventhdlr, NULL, NULL); }
    SCIP_DECL_EVENTEXITSOL(scip_exitsol) { return SCIPdropEvent(scip, what, eventhdlr, NULL, -1); }
    SCIP_DECL_EVENTEXEC(scip_exec) {
        SCIP_NODE* node = SCIPgetCurrentNode(scip);
        SCIP_NODE* up = node ? SCIPnodeGetParent(node) : NULL;
        SCIP_EVENTTYPE t = SCIPeventGetType(event);
        seen.push_back({t == SCIP_EVENTTYPE_LPSOLVED ? "lp" : t == SCIP_EVENTTYPE_NODEFOCUSED ? "focus" : "node", node ? (long) SCIPnodeGetNumber(node) : 0,
                        up ? (long) SCIPnodeGetNumber(up) : 0, node ? SCIPretransformObj(scip, SCIPnodeGetLowerbound(node)) : 0,
                        SCIPgetDualbound(scip), SCIPgetPrimalbound(scip)});
        return SCIP_OKAY;
    }
};
}
void watch(pybind11::object model) { SCIP* scip = scip_of(model); CK(SCIPincludeObjEventhdlr(scip, new Witness(scip), TRUE)); }
std::vector<std::tuple<std::string, long, long, double, double, double>> witness(pybind11::object model) {
    auto* h = dynamic_cast<Witness*>(SCIPfindObjEventhdlr(scip_of(model), "vp_witness"));
    if (!h) throw std::runtime_error("no witness");
    return h->seen;
}
void write_recorded(pybind11::object model, std::string dir) {
    SCIP* scip = scip_of(model);
    auto* h = dynamic_cast<BoundsEventHandler*>(SCIPfindObjEventhdlr(scip, "pctsp_bound_handler"));
    auto* k = dynamic_cast<NodeEventhdlr*>(SCIPfindObjEventhdlr(scip, NODE_EVENTHDLR_NAME.c_str()));
    auto b = h->getBoundsVector();
    auto n = k->getNodeStatsVector();
    std::filesystem::path pb = std::filesystem::path(dir) / SCIP_BOUNDS_CSV, pn = std::filesystem::path(dir) / SCIP_NODE_STATS_CSV;
    writeBoundsToCSV(b, pb);
    writeNodeStatsToCSV(n, pn);
}
void write_given(std::vector<B> bs, std::vector<N> ns, std::string bpath, std::string npath) {
    std::vector<Bounds> b;
    std::vector<NodeStats> n;
    for (auto const& [s, e, l, u, i] : bs) b.push_back({TimePointUTC(SubSeconds(s)), TimePointUTC(SubSeconds(e)), l, u, (unsigned) i});
    for (auto const& [l, i, c, p, u] : ns) {
        NodeStats x{};
        x.lower_bound = l; x.node_id = i; x.parent_id = p; x.upper_bound = u;
        x.num_sec_disjoint_tour = c.at(0); x.num_sec_maxflow_mincut = c.at(1); x.num_cost_cover_disjoint_paths = c.at(2);
        x.num_cost_cover_shortest_paths = c.at(3); x.num_cost_cover_steiner_tree = c.at(4);
        n.push_back(x);
    }
    std::filesystem::path pb = bpath, pn = npath;
    writeBoundsToCSV(b, pb);
    writeNodeStatsToCSV(n, pn);
}
std::pair<long, long> totals(std::vector<N> ns) {
    std::vector<NodeStats> n;
    for (auto const& [l, i, c, p, u] : ns) { NodeStats x{}; x.num_sec_disjoint_tour = c.at(0); x.num_sec_maxflow_mincut = c.at(1); n.push_back(x); }
    return {(long) numDisjointTourSECs(n), (long) numMaxflowMincutSECs(n)};
}
std::string time_string(long millis) { TimePointUTC t{SubSeconds(millis)}; return timePointToString(t); }

/* ---- summary statistics (C05) ---- */
typedef std::tuple<int, double, double, std::vector<unsigned int>, long long> S;  // status, lower, upper, eight counters, nodes
void write_summary(S s, std::string path) {
    auto const& [st, l, u, c, n] = s;
    SummaryStats x{};
    x.status = (SCIP_Status) st; x.lower_bound = l; x.upper_bound = u;
    x.num_cost_cover_disjoint_paths = c.at(0); x.num_cost_cover_shortest_paths = c.at(1); x.nconss_presolve_disjoint_paths = c.at(2);
    x.nconss_presolve_shortest_paths = c.at(3); x.num_cycle_cover = c.at(4); x.num_nodes = n; x.num_sec_disjoint_tour = c.at(5);
    x.num_sec_maxflow_mincut = c.at(6);
    std::filesystem::path p = path;
    writeSummaryStatsToYaml(x, p);
}
static S pack(const SummaryStats& x) {
    std::vector<unsigned int> c;
    for (unsigned int v : {x.num_cost_cover_disjoint_paths, x.num_cost_cover_shortest_paths, x.nconss_presolve_disjoint_paths,
            x.nconss_presolve_shortest_paths, x.num_cycle_cover, x.num_sec_disjoint_tour, x.num_sec_maxflow_mincut}) c.push_back(v);
    int st = (int) x.status;
    double lo = x.lower_bound, up = x.upper_bound;
    long long n = x.num_nodes;
    return S(st, lo, up, c, n);
}
S read_summary(std::string path) { std::filesystem::path p = path; return pack(readSummaryStatsFromYaml(p)); }
int separation_frequency(pybind11::object model) {
    SCIP_CONSHDLR* h = SCIPfindConshdlr(scip_of(model), SEC_CONSHDLR_NAME.c_str());
    return h ? SCIPconshdlrGetSepaFreq(h) : -99;
}

PYBIND11_MODULE(hx_model, m) {
    m.def("accepts", &accepts, "");
    m.def("solve_graph", &solve_graph, "");
    m.def("stored", &stored, "");
    m.def("simple_cycle_edges", &simple_cycle_edges, "");
    m.def("simple_cycle_graph", &simple_cycle_graph, "");
    m.def("separate", &separate, "");
    m.def("result_codes", &result_codes, "");
    m.def("too_dear", &too_dear, "");
    m.def("cover_distances", &cover_distances, "");
    m.def("tailing", &tailing, "");
    m.def("reach", &reach, "");
    m.def("cut_edges", &cut_edges, "");
    m.def("bounds", &bounds, "");
    m.def("nodes", &nodes, "");
    m.def("write_recorded", &write_recorded, "");
    m.def("watch", &watch, "");
    m.def("witness", &witness, "");
    m.def("write_given", &write_given, "");
    m.def("totals", &totals, "");
    m.def("time_string", &time_string, "");
    m.def("write_summary", &write_summary, "");
    m.def("read_summary", &read_summary, "");
    m.def("separation_frequency", &separation_frequency, "");
}
