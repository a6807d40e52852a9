/* Records what the code under test hands to SCIP. The library is linked with --wrap for the functions below, so that
 * calls made by the repository's objects (not those inside libscip) come through here. Off unless vp_spy_start() was called. */
#include "pctsp/algorithms.hh"
#include <cmath>
#include <map>
#include <sstream>
#include <unordered_map>

namespace pctspshim { extern long callback_exceptions; extern std::string last_callback_exception; }

namespace {
struct Lin { std::vector<std::pair<SCIP_VAR*, double>> t; double lhs = NAN, rhs = NAN; };
bool on = false;
long limit = 100000;
std::unordered_map<SCIP_ROW*, Lin> rows;
std::unordered_map<SCIP_CONS*, Lin> conss;
std::vector<std::string> events;
std::string out;
long nsolve_rc = 0;
long created = 0;  // subtour elimination rows that were created, added or not
std::map<long long, long> created_at;  // by node

long long node_of(SCIP* scip) {
    if (SCIPgetStage(scip) != SCIP_STAGE_SOLVING) return 0;
    SCIP_NODE* n = SCIPgetCurrentNode(scip);
    return n ? SCIPnodeGetNumber(n) : 0;
}

std::string num(double x) {
    if (std::isnan(x)) return "null";
    if (x >= 1e19) return "1e20";
    if (x <= -1e19) return "-1e20";
    char b[64]; snprintf(b, sizeof b, "%.17g", x); return b;
}
std::string esc(const char* s) { std::string r; for (; s && *s; s++) if (*s >= 32 && *s != '"' && *s != '\\') r += *s; return r; }

std::string incumbent(SCIP* scip) {
    switch (SCIPgetStage(scip)) {
        case SCIP_STAGE_INIT: case SCIP_STAGE_FREE: return "null";
        default: break;
    }
    if (SCIPgetNSols(scip) <= 0) return "null";
    return num(SCIPgetSolOrigObj(scip, SCIPgetBestSol(scip)));
}

/* terms as [[u, v, coef], ...]; a variable that is no edge of the model gives u = v = -1 */
std::string terms(SCIP* scip, const Lin& l) {
    ProbDataPCTSP* pd = dynamic_cast<ProbDataPCTSP*>(SCIPgetObjProbData(scip));
    std::unordered_map<SCIP_VAR*, std::pair<long, long>> m;
    if (pd) {
        auto& g = *pd->getInputGraph();
        for (auto const& kv : *pd->getEdgeVariableMap()) {
            auto p = std::make_pair((long)boost::source(kv.first, g), (long)boost::target(kv.first, g));
            m[kv.second] = p;
            SCIP_VAR* t = NULL;
            if (SCIPisTransformed(scip) && SCIPgetTransformedVar(scip, kv.second, &t) == SCIP_OKAY && t) m[t] = p;
        }
    }
    std::string s = "[";
    for (auto const& t : l.t) {
        auto it = m.find(t.first);
        auto p = it == m.end() ? std::make_pair(-1L, -1L) : it->second;
        if (s.size() > 1) s += ",";
        s += "[" + std::to_string(p.first) + "," + std::to_string(p.second) + "," + num(t.second) + "]";
    }
    return s + "]";
}
void event(SCIP* scip, const char* kind, const char* name, const Lin& l, const char* extra = "") {
    if ((long)events.size() >= limit) return;
    events.push_back(std::string("{\"kind\":\"") + kind + "\",\"name\":\"" + esc(name).substr(0, 60) + "\",\"stage\":" +
        std::to_string((int)SCIPgetStage(scip)) + ",\"node\":" + std::to_string(node_of(scip)) + ",\"incumbent\":" + incumbent(scip) + ",\"lhs\":" + num(l.lhs) + ",\"rhs\":" + num(l.rhs) +
        ",\"terms\":" + terms(scip, l) + extra + "}");
}
void instance(SCIP* scip) {
    ProbDataPCTSP* pd = dynamic_cast<ProbDataPCTSP*>(SCIPgetObjProbData(scip));
    if (!pd) return;
    auto& g = *pd->getInputGraph();
    std::string s = "{\"kind\":\"instance\",\"root\":" + std::to_string((long)*pd->getRootVertex()) + ",\"quota\":" + std::to_string((long)*pd->getQuota()) + ",\"prize\":[";
    auto pm = boost::get(vertex_distance, g);
    bool f = true;
    for (auto v : boost::make_iterator_range(boost::vertices(g))) { if (!f) s += ","; f = false; s += std::to_string((long)pm[v]); }
    s += "],\"edges\":["; f = true;
    for (auto const& kv : *pd->getEdgeVariableMap()) {
        if (!f) s += ","; f = false;
        s += "[" + std::to_string((long)boost::source(kv.first, g)) + "," + std::to_string((long)boost::target(kv.first, g)) + "," + num(SCIPvarGetObj(kv.second)) + "]";
    }
    s += "],\"incumbent\":" + incumbent(scip) + "}";
    events.push_back(s);
}
}

namespace pctspshim {
/* one enforcement of the LP solution by a constraint handler: node, its bounds, what can be branched on, children made and the result */
bool spying() { return on; }
std::string before_enforcement(SCIP* scip) {
    SCIP_NODE* n = SCIPgetCurrentNode(scip);
    int cands = SCIPgetNLPBranchCands(scip), kids = 0;
    SCIP_NODE** c = NULL;
    SCIPgetChildren(scip, &c, &kids);
    return "\"run\":" + std::to_string(SCIPgetNRuns(scip)) + ",\"node\":" + std::to_string(SCIPnodeGetNumber(n)) + ",\"lower\":" + num(SCIPnodeGetLowerbound(n)) +
        ",\"primal\":" + num(SCIPgetPrimalbound(scip)) + ",\"lp\":" + std::to_string((int)SCIPgetLPSolstat(scip)) + ",\"cands\":" + std::to_string(cands) +
        ",\"before\":" + std::to_string(kids);
}
void after_enforcement(SCIP* scip, const char* name, const std::string& pre, SCIP_RESULT result) {
    int kids = 0;
    SCIP_NODE** c = NULL;
    SCIPgetChildren(scip, &c, &kids);
    if ((long)events.size() < limit)
        events.push_back("{\"kind\":\"enfolp\",\"name\":\"" + esc(name) + "\"," + pre + ",\"after\":" + std::to_string(kids) + ",\"result\":" + std::to_string((int)result) + "}");
}
}

extern "C" {
#define REAL(f) __real_##f
SCIP_RETCODE REAL(SCIPaddVarToRow)(SCIP*, SCIP_ROW*, SCIP_VAR*, SCIP_Real);
SCIP_RETCODE REAL(SCIPaddVarsToRow)(SCIP*, SCIP_ROW*, int, SCIP_VAR**, SCIP_Real*);
SCIP_RETCODE REAL(SCIPaddRow)(SCIP*, SCIP_ROW*, SCIP_Bool, SCIP_Bool*);
SCIP_RETCODE REAL(SCIPaddPoolCut)(SCIP*, SCIP_ROW*);
SCIP_RETCODE REAL(SCIPcreateConsLinear)(SCIP*, SCIP_CONS**, const char*, int, SCIP_VAR**, SCIP_Real*, SCIP_Real, SCIP_Real, SCIP_Bool, SCIP_Bool, SCIP_Bool, SCIP_Bool, SCIP_Bool, SCIP_Bool, SCIP_Bool, SCIP_Bool, SCIP_Bool, SCIP_Bool);
SCIP_RETCODE REAL(SCIPcreateConsBasicLinear)(SCIP*, SCIP_CONS**, const char*, int, SCIP_VAR**, SCIP_Real*, SCIP_Real, SCIP_Real);
SCIP_RETCODE REAL(SCIPaddCoefLinear)(SCIP*, SCIP_CONS*, SCIP_VAR*, SCIP_Real);
SCIP_RETCODE REAL(SCIPaddCons)(SCIP*, SCIP_CONS*);
SCIP_RETCODE REAL(SCIPaddConsLocal)(SCIP*, SCIP_CONS*, SCIP_NODE*);
SCIP_RETCODE REAL(SCIPaddConsNode)(SCIP*, SCIP_NODE*, SCIP_CONS*, SCIP_NODE*);
SCIP_RETCODE REAL(SCIPsolve)(SCIP*);

SCIP_RETCODE __wrap_SCIPaddVarToRow(SCIP* s, SCIP_ROW* r, SCIP_VAR* v, SCIP_Real x) { if (on) rows[r].t.push_back({v, x}); return REAL(SCIPaddVarToRow)(s, r, v, x); }
SCIP_RETCODE __wrap_SCIPaddVarsToRow(SCIP* s, SCIP_ROW* r, int n, SCIP_VAR** v, SCIP_Real* x) { if (on) for (int i = 0; i < n; i++) rows[r].t.push_back({v[i], x[i]}); return REAL(SCIPaddVarsToRow)(s, r, n, v, x); }
static Lin row_of(SCIP_ROW* r) {
    auto it = rows.find(r);
    Lin l;
    if (it != rows.end()) { l = it->second; rows.erase(it); }
    else for (int i = 0; i < SCIProwGetNNonz(r); i++) l.t.push_back({SCIPcolGetVar(SCIProwGetCols(r)[i]), SCIProwGetVals(r)[i]});
    l.lhs = SCIProwGetLhs(r); l.rhs = SCIProwGetRhs(r);
    return l;
}
static void fresh(SCIP_ROW** r, const char* n, SCIP* s) { if (on) { rows.erase(*r); if (std::string(n).rfind("Subtour", 0) == 0) { created++; created_at[node_of(s)]++; } } }
SCIP_RETCODE __real_SCIPcreateEmptyRowConshdlr(SCIP*, SCIP_ROW**, SCIP_CONSHDLR*, const char*, SCIP_Real, SCIP_Real, SCIP_Bool, SCIP_Bool, SCIP_Bool);
SCIP_RETCODE __wrap_SCIPcreateEmptyRowConshdlr(SCIP* s, SCIP_ROW** r, SCIP_CONSHDLR* h, const char* n, SCIP_Real l, SCIP_Real u, SCIP_Bool a, SCIP_Bool b, SCIP_Bool c) {
    SCIP_RETCODE rc = REAL(SCIPcreateEmptyRowConshdlr)(s, r, h, n, l, u, a, b, c);
    fresh(r, n, s);
    return rc;
}
SCIP_RETCODE REAL(SCIPcreateEmptyRowUnspec)(SCIP*, SCIP_ROW**, const char*, SCIP_Real, SCIP_Real, SCIP_Bool, SCIP_Bool, SCIP_Bool);
SCIP_RETCODE __wrap_SCIPcreateEmptyRowUnspec(SCIP* s, SCIP_ROW** r, const char* n, SCIP_Real l, SCIP_Real u, SCIP_Bool a, SCIP_Bool b, SCIP_Bool c) {
    SCIP_RETCODE rc = REAL(SCIPcreateEmptyRowUnspec)(s, r, n, l, u, a, b, c); fresh(r, n, s); return rc;
}
SCIP_RETCODE REAL(SCIPcreateEmptyRowCons)(SCIP*, SCIP_ROW**, SCIP_CONS*, const char*, SCIP_Real, SCIP_Real, SCIP_Bool, SCIP_Bool, SCIP_Bool);
SCIP_RETCODE __wrap_SCIPcreateEmptyRowCons(SCIP* s, SCIP_ROW** r, SCIP_CONS* h, const char* n, SCIP_Real l, SCIP_Real u, SCIP_Bool a, SCIP_Bool b, SCIP_Bool c) {
    SCIP_RETCODE rc = REAL(SCIPcreateEmptyRowCons)(s, r, h, n, l, u, a, b, c); fresh(r, n, s); return rc;
}
SCIP_RETCODE REAL(SCIPaddVarsToRowSameCoef)(SCIP*, SCIP_ROW*, int, SCIP_VAR**, SCIP_Real);
SCIP_RETCODE __wrap_SCIPaddVarsToRowSameCoef(SCIP* s, SCIP_ROW* r, int n, SCIP_VAR** v, SCIP_Real x) { if (on) for (int i = 0; i < n; i++) rows[r].t.push_back({v[i], x}); return REAL(SCIPaddVarsToRowSameCoef)(s, r, n, v, x); }
SCIP_RETCODE __wrap_SCIPaddRow(SCIP* s, SCIP_ROW* r, SCIP_Bool f, SCIP_Bool* inf) {
    if (on) event(s, "row", SCIProwGetName(r), row_of(r), SCIProwIsLocal(r) ? ",\"local\":true" : "");
    return REAL(SCIPaddRow)(s, r, f, inf);
}
SCIP_RETCODE __wrap_SCIPaddPoolCut(SCIP* s, SCIP_ROW* r) { if (on) event(s, "row", SCIProwGetName(r), row_of(r), ",\"pool\":true"); return REAL(SCIPaddPoolCut)(s, r); }

static void lin(SCIP_CONS* c, int n, SCIP_VAR** v, SCIP_Real* x, double lhs, double rhs) {
    Lin l; l.lhs = lhs; l.rhs = rhs;
    for (int i = 0; i < n; i++) l.t.push_back({v[i], x[i]});
    conss[c] = l;
}
SCIP_RETCODE __wrap_SCIPcreateConsLinear(SCIP* s, SCIP_CONS** c, const char* name, int n, SCIP_VAR** v, SCIP_Real* x, SCIP_Real lhs, SCIP_Real rhs, SCIP_Bool a, SCIP_Bool b, SCIP_Bool d, SCIP_Bool e, SCIP_Bool f, SCIP_Bool g, SCIP_Bool h, SCIP_Bool i, SCIP_Bool j, SCIP_Bool k) {
    SCIP_RETCODE rc = REAL(SCIPcreateConsLinear)(s, c, name, n, v, x, lhs, rhs, a, b, d, e, f, g, h, i, j, k);
    if (on && rc == SCIP_OKAY) lin(*c, n, v, x, lhs, rhs);
    return rc;
}
SCIP_RETCODE __wrap_SCIPcreateConsBasicLinear(SCIP* s, SCIP_CONS** c, const char* name, int n, SCIP_VAR** v, SCIP_Real* x, SCIP_Real lhs, SCIP_Real rhs) {
    SCIP_RETCODE rc = REAL(SCIPcreateConsBasicLinear)(s, c, name, n, v, x, lhs, rhs);
    if (on && rc == SCIP_OKAY) lin(*c, n, v, x, lhs, rhs);
    return rc;
}
SCIP_RETCODE __wrap_SCIPaddCoefLinear(SCIP* s, SCIP_CONS* c, SCIP_VAR* v, SCIP_Real x) { if (on) conss[c].t.push_back({v, x}); return REAL(SCIPaddCoefLinear)(s, c, v, x); }
static void cons_event(SCIP* s, SCIP_CONS* c) {
    if (!on) return;
    auto it = conss.find(c);
    const char* h = SCIPconshdlrGetName(SCIPconsGetHdlr(c));
    std::string extra = std::string(",\"handler\":\"") + esc(h) + "\"";
    if (it == conss.end()) {
        Lin l;
        std::string hn = h;
        SCIP_Bool ok = FALSE;
        int n = 0;
        if (hn == "knapsack" || hn == "setppc" || hn == "logicor" || hn == "varbound") {
            if (SCIPgetConsNVars(s, c, &n, &ok) == SCIP_OKAY && ok) {
                std::vector<SCIP_VAR*> v(n); std::vector<double> x(n);
                SCIPgetConsVars(s, c, v.data(), n, &ok);
                if (ok) SCIPgetConsVals(s, c, x.data(), n, &ok);
                if (ok) { for (int i = 0; i < n; i++) l.t.push_back({v[i], x[i]}); l.lhs = SCIPconsGetLhs(s, c, &ok); l.rhs = SCIPconsGetRhs(s, c, &ok); }
            }
        }
        event(s, "cons", SCIPconsGetName(c), l, extra.c_str());
    }
    else {
        if (std::string(h) == "linear") { it->second.lhs = SCIPgetLhsLinear(s, c); it->second.rhs = SCIPgetRhsLinear(s, c); }
        event(s, "cons", SCIPconsGetName(c), it->second, extra.c_str());
        conss.erase(it);
    }
}
SCIP_RETCODE __wrap_SCIPaddCons(SCIP* s, SCIP_CONS* c) { cons_event(s, c); return REAL(SCIPaddCons)(s, c); }
SCIP_RETCODE __wrap_SCIPaddConsLocal(SCIP* s, SCIP_CONS* c, SCIP_NODE* n) { return REAL(SCIPaddConsLocal)(s, c, n); }
SCIP_RETCODE __wrap_SCIPaddConsNode(SCIP* s, SCIP_NODE* n, SCIP_CONS* c, SCIP_NODE* v) { return REAL(SCIPaddConsNode)(s, n, c, v); }
SCIP_RETCODE __wrap_SCIPsolve(SCIP* s) {
    if (on) instance(s);
    SCIP_RETCODE rc = REAL(SCIPsolve)(s);
    nsolve_rc = rc;
    return rc;
}

__attribute__((visibility("default"))) void vp_spy_start() { on = true; rows.clear(); conss.clear(); events.clear(); nsolve_rc = 1; created = 0; created_at.clear(); }
__attribute__((visibility("default"))) void vp_spy_stop() { on = false; }
__attribute__((visibility("default"))) long vp_spy_created() { return created; }
__attribute__((visibility("default"))) const char* vp_spy_json() {
    out = "[";
    for (size_t i = 0; i < events.size(); i++) { if (i) out += ",\n"; out += events[i]; }
    if (events.size()) out += ",\n";
    out += "{\"kind\":\"created\",\"at\":[";
    bool first = true;
    for (auto const& kv : created_at) { if (!first) out += ","; first = false; out += "[" + std::to_string(kv.first) + "," + std::to_string(kv.second) + "]"; }
    out += "]}]";
    return out.c_str();
}
__attribute__((visibility("default"))) long vp_callback_exceptions() { return pctspshim::callback_exceptions; }
__attribute__((visibility("default"))) const char* vp_last_callback_exception() { return pctspshim::last_callback_exception.c_str(); }
__attribute__((visibility("default"))) long vp_solve_rc() { return nsolve_rc; }
}
