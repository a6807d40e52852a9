/* Harness entry points for the graph, walk and renaming utilities: C06, C22. */
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include <boost/graph/connected_components.hpp>
#include "pctsp/graph.hh"
#include "pctsp/walk.hh"
#include "pctsp/data_structures.hh"
#include "pctsp/preprocessing.hh"
#include "pctsp/renaming.hh"
#include "pctsp/heuristic.hh"
#include "pctsp/sciputils.hh"

typedef std::vector<std::tuple<long, long, int>> Edges;
typedef std::pair<long, long> Pair;
typedef std::vector<Pair> Pairs;
typedef PCTSPvertex V;

namespace {
PCTSPgraph make(long n, const Edges& edges) {
    PCTSPgraph g((size_t) n);
    auto cost = boost::get(edge_weight, g);
    for (auto const& [u, v, c] : edges) cost[boost::add_edge(u, v, g).first] = c;
    return g;
}
std::vector<V> vs(const std::vector<long>& x) { return std::vector<V>(x.begin(), x.end()); }
std::list<V> ls(const std::vector<long>& x) { return std::list<V>(x.begin(), x.end()); }
template <class C> std::vector<long> out(const C& c) { return std::vector<long>(c.begin(), c.end()); }
Pairs pairs(PCTSPgraph& g, const std::vector<PCTSPedge>& es) {
    Pairs r;
    for (auto const& e : es) r.push_back({(long) boost::source(e, g), (long) boost::target(e, g)});
    return r;
}
Pairs pairs(const VertexPairVector& x) { Pairs r; for (auto const& p : x) r.push_back({(long) p.first, (long) p.second}); return r; }
VertexPairVector vpairs(const Pairs& x) { VertexPairVector r; for (auto const& p : x) r.push_back({(V) p.first, (V) p.second}); return r; }
std::vector<std::vector<long>> out2(const std::vector<std::vector<V>>& x) { std::vector<std::vector<long>> r; for (auto const& c : x) r.push_back(out(c)); return r; }
}

namespace hxu {
std::vector<long> reorder(std::vector<long> tour, long root) { auto t = ls(tour); return out(ReorderTourFromRoot(t, (V) root)); }
/* edges of a walk, its cost as a list, as a vector and by its edges */
std::tuple<Pairs, int, int, int> walk(long n, Edges edges, std::vector<long> w) {
    PCTSPgraph g = make(n, edges);
    auto cost = boost::get(edge_weight, g);
    auto l = ls(w);
    auto v = vs(w);
    auto first = l.begin();
    auto last = l.end();
    auto es = getEdgesInWalk(g, first, last);
    int a = totalCost(g, l, cost), b = totalCost(g, v, cost), c = totalCost(es, cost);
    std::list<PCTSPedge> el(es.begin(), es.end());
    if (totalCost(el, cost) != c) throw std::logic_error("list and vector of edges differ");
    return {pairs(g, es), a, b, c};
}
/* prize of the vertices of a list, of a vector, of a tour (last vertex not counted), of the graph */
std::tuple<int, int, int, int> prizes(std::vector<int> prize, std::vector<long> w) {
    PCTSPgraph g = make(prize.size(), {});
    auto pm = boost::get(vertex_distance, g);
    for (size_t v = 0; v < prize.size(); v++) pm[v] = prize[v];
    auto l = ls(w);
    auto v = vs(w);
    return {totalPrize(pm, l), totalPrize(pm, v), w.empty() ? 0 : totalPrizeOfTour(pm, l), totalPrizeOfGraph(g, pm)};
}
bool prize_feasible(std::vector<int> prize, std::vector<long> w, int quota) {
    auto v = vs(w);
    return isPrizeFeasible(prize, quota, v);
}
bool internal(std::vector<long> w, long x) { auto v = vs(w); V y = x; return isInternalVertexOfWalk(v, y); }
std::string walk_string(std::vector<long> w) { auto l = ls(w); return walkToString(l); }
/* (found, path, distance) */
std::tuple<bool, std::vector<long>, int> shortest(long n, Edges edges, long source, long target, std::vector<bool> mark) {
    PCTSPgraph g = make(n, edges);
    auto cost = boost::get(edge_weight, g);
    std::vector<int> d(n);
    std::vector<V> p(n);
    std::vector<boost::default_color_type> c(n);
    V s = source, t = target;
    try { dijkstraShortestPathBlacklist(g, s, t, p, d, cost, c, mark); }
    catch (TargetVertexFound&) { return {true, out(pathInTreeFromParents(p, s, t)), d[t]}; }
    return {false, {}, 0};
}
std::vector<long> vertices_of(long n, Edges edges, Pairs some) {
    PCTSPgraph g = make(n, edges);
    auto vp = vpairs(some);
    auto es = edgesFromVertexPairs(g, vp);
    auto first = es.begin();
    auto last = es.end();
    return out(getVerticesOfEdges(g, first, last));
}
Pairs from_pairs(long n, Edges edges, Pairs some) {
    PCTSPgraph g = make(n, edges);
    auto vp = vpairs(some);
    return pairs(g, edgesFromVertexPairs(g, vp));
}
/* edges and number of vertices of a graph made of the pairs: as edges and as pairs */
std::tuple<Pairs, Pairs, long> added(Pairs some) {
    PCTSPgraph g;
    auto vp = vpairs(some);
    addEdgesToGraph(g, vp);
    return {pairs(g, getEdgeVectorOfGraph(g)), pairs(getVertexPairVectorFromEdgeSubset(g, getEdgeVectorOfGraph(g))), (long) boost::num_vertices(g)};
}
Pairs loops(long n, Edges edges, std::vector<long> w) { PCTSPgraph g = make(n, edges); auto v = vs(w); return pairs(g, getSelfLoops(g, v)); }
Pairs induced(long n, Edges edges, std::vector<long> w) { PCTSPgraph g = make(n, edges); auto v = vs(w); return pairs(g, getEdgesInducedByVertices(g, v)); }
std::vector<long> subpath(std::vector<long> cycle, int i, int j) { auto l = ls(cycle); return out(getSubpathOfCycle(l, i, j)); }
/* (marked, parent) */
std::pair<std::vector<bool>, std::vector<long>> search(long n, Edges edges, long source, std::vector<bool> marked, int depth, bool breadth) {
    PCTSPgraph g = make(n, edges);
    std::vector<V> parent(n, (V) n);
    V s = source;
    if (breadth) breadthFirstSearch(g, s, marked, parent, depth);
    else depthFirstSearch(g, s, marked, parent, depth);
    return {marked, out(parent)};
}
std::vector<long> tree_path(std::vector<long> parent, long source, long target) {
    auto p = vs(parent);
    V s = source, t = target;
    return out(pathInTreeFromParents(p, s, t));
}
std::pair<std::vector<long>, Pairs> filtered(long n, Edges edges, std::vector<bool> mark) {
    PCTSPgraph g = make(n, edges);
    auto f = filterMarkedVertices(g, mark);
    std::vector<long> v;
    for (auto x : boost::make_iterator_range(boost::vertices(f))) v.push_back(x);
    Pairs e;
    for (auto x : boost::make_iterator_range(boost::edges(f))) e.push_back({(long) boost::source(x, f), (long) boost::target(x, f)});
    return {v, e};
}
int filtered_edges(long n, Edges edges, std::vector<bool> mark) {
    PCTSPgraph g = make(n, edges);
    BoolEdgeFilter<PCTSPgraph> e(g, mark);
    boost::filtered_graph<PCTSPgraph, BoolEdgeFilter<PCTSPgraph>> f(g, e);
    return numEdgesInFilteredGraph(f);
}
/* all components, those of more than one vertex (from the graph and from the components) */
std::tuple<std::vector<std::vector<long>>, std::vector<std::vector<long>>, std::vector<std::vector<long>>> components(long n, Edges edges) {
    PCTSPgraph g = make(n, edges);
    std::vector<int> id(n + 1);
    int k = boost::connected_components(g, &id[0]);
    auto all = getConnectedComponentsVectors(g, k, id);
    auto some = getNonSingularConnectedComponentVectors(g, k, id);
    auto same = getNonSingularConnectedComponentVectors(all);
    return {out2(all), out2(some), out2(same)};
}
/* (had loops on all vertices, has them afterwards, [(u, v, cost, weight)]) */
std::tuple<bool, bool, std::vector<std::tuple<long, long, int, int>>> with_loops(long n, Edges edges, std::vector<int> prize, bool add) {
    PCTSPgraph g = make(n, edges);
    auto cost = boost::get(edge_weight, g);
    bool had = hasSelfLoopsOnAllVertices(g);
    if (add) addSelfLoopsToGraph(g);
    assignZeroCostToSelfLoops(g, cost);
    std::map<PCTSPedge, int> weight;
    putPrizeOntoEdgeWeights(g, prize, weight);
    std::vector<std::tuple<long, long, int, int>> r;
    for (auto e : boost::make_iterator_range(boost::edges(g))) {
        if (!weight.count(e)) throw std::logic_error("an edge has no weight");
        r.push_back({(long) boost::source(e, g), (long) boost::target(e, g), cost[e], weight[e]});
    }
    if (weight.size() != r.size()) throw std::logic_error("a weight has no edge");
    return {had, hasSelfLoopsOnAllVertices(g), r};
}
std::vector<long> common_neighbours(long n, Edges edges, long u, long v) { PCTSPgraph g = make(n, edges); V a = u, b = v; return out(neighborIntersection(g, a, b)); }
std::vector<long> swap_paths(std::vector<long> tour, std::vector<long> path, int i, int j) { auto t = ls(tour), p = ls(path); swapPathsInTour(t, p, i, j); return out(t); }

/* edges without a variable, names of no variables: what is raised when one is missing */
std::pair<bool, bool> missing_variables(long n, Edges edges, long known) {
    PCTSPgraph g = make(n, edges);
    PCTSPedgeVariableMap vars;
    auto es = getEdgeVectorOfGraph(g);
    static char some[64];
    for (long i = 0; i < (long) es.size(); i++) if (i != known) vars[es[i]] = (SCIP_VAR*) &some[i % 64];
    bool a = false, b = false;
    try { getEdgeVariables(NULL, g, vars, es); } catch (VariableIsNullException&) { a = true; }
    std::vector<SCIP_VAR*> none = {NULL};
    try { joinVariableNames(none); } catch (VariableIsNullException&) { b = true; }
    return {a, b};
}
/* variables 0..k-1 are positive, k..k+l-1 negative: (all in order, coefficients) */
std::pair<std::vector<long>, std::vector<double>> signs(int k, int l) {
    static char some[256];
    VarVector pos(k), neg(l), all(k + l);
    std::vector<double> coefs(k + l);
    for (int i = 0; i < k + l; i++) (i < k ? pos[i] : neg[i - k]) = (SCIP_VAR*) &some[i];
    fillPositiveNegativeVars(pos, neg, all, coefs);
    std::vector<long> r;
    for (auto v : all) r.push_back((char*) v - some);
    return {r, coefs};
}

/* ---- renaming ---- */
typedef boost::bimap<V, V> Bimap;
/* vertices renamed first, then edges: (names [(new, old)], new edges, new edges by the list version, new edges by look up, old edges) */
std::tuple<Pairs, Pairs, Pairs, Pairs> rename(std::vector<long> vertices, Pairs edges, bool list) {
    Bimap m;
    auto ev = vpairs(edges);
    std::list<VertexPair> el(ev.begin(), ev.end());
    if (list) { auto l = ls(vertices); renameVertices(m, l); } else { auto v = vs(vertices); renameVertices(m, v); }
    auto ne = list ? renameEdges(m, el) : renameEdges(m, ev);
    Pairs names;
    for (auto it = m.left.begin(); it != m.left.end(); it++) names.push_back({(long) it->first, (long) it->second});
    auto by_look_up = list ? getNewEdges(m, el) : getNewEdges(m, ev);
    return {names, pairs(ne), pairs(by_look_up), pairs(getOldEdges(m, ne))};
}
/* new and old names of walks, with names from the edges */
std::tuple<std::vector<long>, std::vector<long>> rename_walk(Pairs edges, std::vector<long> walk, bool list) {
    Bimap m;
    auto ev = vpairs(edges);
    renameEdges(m, ev);
    auto l = ls(walk);
    auto v = vs(walk);
    auto nw = list ? getNewVertices(m, l) : getNewVertices(m, v);
    std::list<V> nl(nw.begin(), nw.end());
    return {out(nw), list ? out(getOldVertices(m, nl)) : out(getOldVertices(m, nw))};
}
/* costs of the renamed edges and prizes of the renamed vertices: ([(new u, new v, cost)], [prize], [old name]) */
std::tuple<Edges, std::vector<int>, std::vector<long>> rename_maps(Pairs edges, std::map<Pair, int> costs, std::map<long, int> prize) {
    Bimap m;
    auto ev = vpairs(edges);
    auto ne = renameEdges(m, ev);
    PCTSPgraph g;
    addEdgesToGraph(g, ne);
    std::map<std::pair<V, V>, int> oc;
    for (auto const& [k, c] : costs) oc[{(V) k.first, (V) k.second}] = c;
    std::map<V, int> op;
    for (auto const& [k, c] : prize) op[(V) k] = c;
    auto cost = boost::get(edge_weight, g);
    auto pm = boost::get(vertex_distance, g);
    fillCostMapFromRenamedMap(g, cost, oc, m);
    fillRenamedVertexMap(pm, op, m);
    Edges r;
    for (auto e : boost::make_iterator_range(boost::edges(g))) r.push_back({(long) boost::source(e, g), (long) boost::target(e, g), cost[e]});
    std::vector<int> p;
    std::vector<long> o;
    for (auto v : boost::make_iterator_range(boost::vertices(g))) { V x = v; p.push_back(pm[v]); o.push_back(getOldVertex(m, x)); }
    return {r, p, o};
}
long look_up(Pairs edges, long vertex, bool is_new) {
    Bimap m;
    auto ev = vpairs(edges);
    renameEdges(m, ev);
    V v = vertex;
    return is_new ? getOldVertex(m, v) : getNewVertex(m, v);
}

}

PYBIND11_MODULE(hx_util, m) {
#define D(f) m.def(#f, &hxu::f, "")
    D(reorder); D(walk); D(prizes); D(prize_feasible); D(internal); D(walk_string); D(shortest); D(vertices_of); D(from_pairs); D(added);
    D(loops); D(induced); D(subpath); D(search); D(tree_path); D(filtered); D(filtered_edges); D(components); D(with_loops);
    D(common_neighbours); D(swap_paths); D(missing_variables); D(signs); D(rename); D(rename_walk); D(rename_maps); D(look_up);
}
