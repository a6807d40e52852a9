/* The compiled heuristics on a graph whose vertices are 0..n-1, and what a model contains: C21. */
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include <objscip/objscip.h>
#include "pctsp/heuristic.hh"
#include "pctsp/graph.hh"
#include "pctsp/walk.hh"

extern "C" {
int SCIPgetNEventhdlrs(SCIP*);
SCIP_EVENTHDLR** SCIPgetEventhdlrs(SCIP*);
const char* SCIPeventhdlrGetName(SCIP_EVENTHDLR*);
int SCIPgetNConshdlrs(SCIP*);
SCIP_CONSHDLR** SCIPgetConshdlrs(SCIP*);
const char* SCIPconshdlrGetName(SCIP_CONSHDLR*);
}
typedef std::vector<std::tuple<long, long, int>> Edges;
typedef PCTSPvertex V;
typedef std::vector<long> Tour;

namespace hxh {
struct G {
    PCTSPgraph g;
    EdgeCostMap cost;
    VertexPrizeMap prize;
    G(const Edges& edges, const std::vector<int>& p) : g(p.size()) {
        cost = boost::get(edge_weight, g);
        prize = boost::get(vertex_distance, g);
        for (auto const& [u, v, c] : edges) cost[boost::add_edge(u, v, g).first] = c;
        for (size_t v = 0; v < p.size(); v++) prize[v] = p[v];
    }
};
std::list<V> in(const Tour& t) { return std::list<V>(t.begin(), t.end()); }
Tour out(const std::list<V>& t) { return Tour(t.begin(), t.end()); }

Tour do_collapse(Edges e, std::vector<int> p, Tour tour, int quota, long root, bool paths) {
    G x(e, p); auto t = in(tour); V r = root;
    return out(collapse(x.g, t, x.cost, x.prize, quota, r, paths));
}
Tour do_gain(Edges e, std::vector<int> p, Tour tour) { G x(e, p); auto t = in(tour); extensionUnitaryGain(x.g, t, x.cost, x.prize); return out(t); }
Tour do_until(Edges e, std::vector<int> p, Tour tour, int quota) { G x(e, p); auto t = in(tour); extensionUntilPrizeFeasible(x.g, t, x.cost, x.prize, quota); return out(t); }
Tour do_path(Edges e, std::vector<int> p, Tour tour, long root, int step, int depth) {
    G x(e, p); auto t = in(tour); V r = root;
    pathExtension(x.g, t, x.cost, x.prize, r, step, depth);
    return out(t);
}
Tour do_path_until(Edges e, std::vector<int> p, Tour tour, long root, int quota, int step, int depth) {
    G x(e, p); auto t = in(tour); V r = root;
    pathExtensionUntilPrizeFeasible(x.g, t, x.cost, x.prize, r, quota, step, depth);
    return out(t);
}
Tour do_path_collapse(Edges e, std::vector<int> p, Tour tour, long root, int quota, bool paths, int depth, int step) {
    G x(e, p); auto t = in(tour); V r = root;
    return out(pathExtensionCollapse(x.g, t, x.cost, x.prize, quota, r, paths, depth, step));
}
SCIP* scip_of(pybind11::object& model) { return (SCIP*) PyCapsule_GetPointer(model.attr("to_ptr")(false).ptr(), "scip"); }
/* (event handlers, constraint handlers, [(branching rule, priority, depth limit)], frequency of the constraint handlers) */
std::tuple<std::vector<std::string>, std::vector<std::string>, std::vector<std::tuple<std::string, int, int>>, std::vector<int>> contents(pybind11::object model) {
    SCIP* s = scip_of(model);
    std::tuple<std::vector<std::string>, std::vector<std::string>, std::vector<std::tuple<std::string, int, int>>, std::vector<int>> r;
    for (int i = 0; i < SCIPgetNEventhdlrs(s); i++) std::get<0>(r).push_back(SCIPeventhdlrGetName(SCIPgetEventhdlrs(s)[i]));
    for (int i = 0; i < SCIPgetNConshdlrs(s); i++) {
        std::get<1>(r).push_back(SCIPconshdlrGetName(SCIPgetConshdlrs(s)[i]));
        std::get<3>(r).push_back(SCIPconshdlrGetSepaFreq(SCIPgetConshdlrs(s)[i]));
    }
    for (int i = 0; i < SCIPgetNBranchrules(s); i++) {
        auto b = SCIPgetBranchrules(s)[i];
        std::get<2>(r).push_back({SCIPbranchruleGetName(b), SCIPbranchruleGetPriority(b), SCIPbranchruleGetMaxdepth(b)});
    }
    return r;
}
}
PYBIND11_MODULE(hx_heur, m) {
#define D(f) m.def(#f, &hxh::f, "")
    D(do_collapse); D(do_gain); D(do_until); D(do_path); D(do_path_until); D(do_path_collapse); D(contents);
}
