#include "objscip/objscip.h"
#include <exception>
#include <cstdio>
using namespace scip;
/* exceptions must not unwind through libscip's C frames: remember and rethrow at the boundary is
 * not possible without changing call sites, so they are turned into SCIP_ERROR and remembered. */
namespace pctspshim { std::string last_callback_exception; long callback_exceptions = 0;
bool spying();
std::string before_enforcement(SCIP*);
void after_enforcement(SCIP*, const char*, const std::string&, SCIP_RESULT); }
template <typename F> static SCIP_RETCODE guard(F f) {
  try { return f(); }
  catch (const std::exception& e) { pctspshim::last_callback_exception = e.what(); pctspshim::callback_exceptions++; return SCIP_ERROR; }
}
struct CData { ObjConshdlr* obj; SCIP_Bool del; };
struct EData { ObjEventhdlr* obj; SCIP_Bool del; };
struct PData { ObjProbData* obj; SCIP_Bool del; };
static ObjConshdlr* C(SCIP_CONSHDLR* h) { return ((CData*)SCIPconshdlrGetData(h))->obj; }
static ObjEventhdlr* Ev(SCIP_EVENTHDLR* h) { return ((EData*)SCIPeventhdlrGetData(h))->obj; }
extern "C" {
static SCIP_DECL_CONSFREE(c_free) { CData* d = (CData*)SCIPconshdlrGetData(conshdlr); SCIP_RETCODE r = guard([&]{return d->obj->scip_free(scip, conshdlr);}); if (d->del) delete d->obj; delete d; return r; }
static SCIP_DECL_CONSINIT(c_init) { return guard([&]{return C(conshdlr)->scip_init(scip, conshdlr, conss, nconss);}); }
static SCIP_DECL_CONSEXIT(c_exit) { return guard([&]{return C(conshdlr)->scip_exit(scip, conshdlr, conss, nconss);}); }
static SCIP_DECL_CONSINITPRE(c_initpre) { return guard([&]{return C(conshdlr)->scip_initpre(scip, conshdlr, conss, nconss);}); }
static SCIP_DECL_CONSEXITPRE(c_exitpre) { return guard([&]{return C(conshdlr)->scip_exitpre(scip, conshdlr, conss, nconss);}); }
static SCIP_DECL_CONSINITSOL(c_initsol) { return guard([&]{return C(conshdlr)->scip_initsol(scip, conshdlr, conss, nconss);}); }
static SCIP_DECL_CONSEXITSOL(c_exitsol) { return guard([&]{return C(conshdlr)->scip_exitsol(scip, conshdlr, conss, nconss, restart);}); }
static SCIP_DECL_CONSDELETE(c_delete) { return guard([&]{return C(conshdlr)->scip_delete(scip, conshdlr, cons, consdata);}); }
static SCIP_DECL_CONSTRANS(c_trans) { return guard([&]{return C(conshdlr)->scip_trans(scip, conshdlr, sourcecons, targetcons);}); }
static SCIP_DECL_CONSINITLP(c_initlp) { return guard([&]{return C(conshdlr)->scip_initlp(scip, conshdlr, conss, nconss, infeasible);}); }
static SCIP_DECL_CONSSEPALP(c_sepalp) { return guard([&]{return C(conshdlr)->scip_sepalp(scip, conshdlr, conss, nconss, nusefulconss, result);}); }
static SCIP_DECL_CONSSEPASOL(c_sepasol) { return guard([&]{return C(conshdlr)->scip_sepasol(scip, conshdlr, conss, nconss, nusefulconss, sol, result);}); }
static SCIP_DECL_CONSENFOLP(c_enfolp) {
  if (pctspshim::spying()) {
    std::string pre = pctspshim::before_enforcement(scip);
    SCIP_RETCODE rc = guard([&]{return C(conshdlr)->scip_enfolp(scip, conshdlr, conss, nconss, nusefulconss, solinfeasible, result);});
    pctspshim::after_enforcement(scip, SCIPconshdlrGetName(conshdlr), pre, *result);
    return rc;
  }
  return guard([&]{return C(conshdlr)->scip_enfolp(scip, conshdlr, conss, nconss, nusefulconss, solinfeasible, result);}); }
static SCIP_DECL_CONSENFORELAX(c_enforelax) { return guard([&]{return C(conshdlr)->scip_enforelax(scip, sol, conshdlr, conss, nconss, nusefulconss, solinfeasible, result);}); }
static SCIP_DECL_CONSENFOPS(c_enfops) { return guard([&]{return C(conshdlr)->scip_enfops(scip, conshdlr, conss, nconss, nusefulconss, solinfeasible, objinfeasible, result);}); }
static SCIP_DECL_CONSCHECK(c_check) { return guard([&]{return C(conshdlr)->scip_check(scip, conshdlr, conss, nconss, sol, checkintegrality, checklprows, printreason, completely, result);}); }
static SCIP_DECL_CONSPROP(c_prop) { return guard([&]{return C(conshdlr)->scip_prop(scip, conshdlr, conss, nconss, nusefulconss, nmarkedconss, proptiming, result);}); }
static SCIP_DECL_CONSLOCK(c_lock) { return guard([&]{return C(conshdlr)->scip_lock(scip, conshdlr, cons, locktype, nlockspos, nlocksneg);}); }
static SCIP_DECL_CONSACTIVE(c_active) { return guard([&]{return C(conshdlr)->scip_active(scip, conshdlr, cons);}); }
static SCIP_DECL_CONSDEACTIVE(c_deactive) { return guard([&]{return C(conshdlr)->scip_deactive(scip, conshdlr, cons);}); }
static SCIP_DECL_CONSENABLE(c_enable) { return guard([&]{return C(conshdlr)->scip_enable(scip, conshdlr, cons);}); }
static SCIP_DECL_CONSDISABLE(c_disable) { return guard([&]{return C(conshdlr)->scip_disable(scip, conshdlr, cons);}); }
static SCIP_DECL_CONSDELVARS(c_delvars) { return guard([&]{return C(conshdlr)->scip_delvars(scip, conshdlr, conss, nconss);}); }
static SCIP_DECL_CONSPRINT(c_print) { return guard([&]{return C(conshdlr)->scip_print(scip, conshdlr, cons, file);}); }
static SCIP_DECL_CONSGETVARS(c_getvars) { return guard([&]{return C(conshdlr)->scip_getvars(scip, conshdlr, cons, vars, varssize, success);}); }
static SCIP_DECL_CONSGETNVARS(c_getnvars) { return guard([&]{return C(conshdlr)->scip_getnvars(scip, conshdlr, cons, nvars, success);}); }

static SCIP_DECL_EVENTFREE(e_free) { EData* d = (EData*)SCIPeventhdlrGetData(eventhdlr); SCIP_RETCODE r = guard([&]{return d->obj->scip_free(scip, eventhdlr);}); if (d->del) delete d->obj; delete d; return r; }
static SCIP_DECL_EVENTINIT(e_init) { return guard([&]{return Ev(eventhdlr)->scip_init(scip, eventhdlr);}); }
static SCIP_DECL_EVENTEXIT(e_exit) { return guard([&]{return Ev(eventhdlr)->scip_exit(scip, eventhdlr);}); }
static SCIP_DECL_EVENTINITSOL(e_initsol) { return guard([&]{return Ev(eventhdlr)->scip_initsol(scip, eventhdlr);}); }
static SCIP_DECL_EVENTEXITSOL(e_exitsol) { return guard([&]{return Ev(eventhdlr)->scip_exitsol(scip, eventhdlr);}); }
static SCIP_DECL_EVENTDELETE(e_delete) { return guard([&]{return Ev(eventhdlr)->scip_delete(scip, eventhdlr, eventdata);}); }
static SCIP_DECL_EVENTEXEC(e_exec) { return guard([&]{return Ev(eventhdlr)->scip_exec(scip, eventhdlr, event, eventdata);}); }

static SCIP_DECL_PROBDELORIG(p_delorig) { PData* d = (PData*)*probdata; SCIP_RETCODE r = d->obj->scip_delorig(scip); if (d->del) delete d->obj; delete d; *probdata = NULL; return r; }
static SCIP_DECL_PROBTRANS(p_trans) { PData* s = (PData*)sourcedata; ObjProbData* o = NULL; SCIP_Bool del = FALSE; SCIP_RETCODE r = s->obj->scip_trans(scip, &o, &del); PData* t = new PData{o, del}; *targetdata = (SCIP_PROBDATA*)t; return r; }
static SCIP_DECL_PROBDELTRANS(p_deltrans) { PData* d = (PData*)*probdata; SCIP_RETCODE r = d->obj->scip_deltrans(scip); if (d->del) delete d->obj; delete d; *probdata = NULL; return r; }
static SCIP_DECL_PROBINITSOL(p_initsol) { return ((PData*)probdata)->obj->scip_initsol(scip); }
static SCIP_DECL_PROBEXITSOL(p_exitsol) { return ((PData*)probdata)->obj->scip_exitsol(scip, restart); }
}
SCIP_RETCODE SCIPincludeObjConshdlr(SCIP* scip, ObjConshdlr* o, SCIP_Bool del) {
  CData* d = new CData{o, del};
  return SCIPincludeConshdlr(scip, o->scip_name_, o->scip_desc_, o->scip_sepapriority_, o->scip_enfopriority_, o->scip_checkpriority_, o->scip_sepafreq_, o->scip_propfreq_, o->scip_eagerfreq_, o->scip_maxprerounds_, o->scip_delaysepa_, o->scip_delayprop_, o->scip_needscons_, o->scip_proptiming_, o->scip_presoltiming_,
    NULL, c_free, c_init, c_exit, c_initpre, c_exitpre, c_initsol, c_exitsol, c_delete, c_trans, c_initlp, c_sepalp, c_sepasol, c_enfolp, c_enforelax, c_enfops, c_check, c_prop, NULL, NULL, c_lock, c_active, c_deactive, c_enable, c_disable, c_delvars, c_print, NULL, NULL, c_getvars, c_getnvars, NULL, NULL, NULL, (SCIP_CONSHDLRDATA*)d);
}
ObjConshdlr* SCIPfindObjConshdlr(SCIP* scip, const char* name) { SCIP_CONSHDLR* h = SCIPfindConshdlr(scip, name); return h ? C(h) : NULL; }
SCIP_RETCODE SCIPincludeObjEventhdlr(SCIP* scip, ObjEventhdlr* o, SCIP_Bool del) {
  EData* d = new EData{o, del};
  return SCIPincludeEventhdlr(scip, o->scip_name_, o->scip_desc_, NULL, e_free, e_init, e_exit, e_initsol, e_exitsol, e_delete, e_exec, (SCIP_EVENTHDLRDATA*)d);
}
ObjEventhdlr* SCIPfindObjEventhdlr(SCIP* scip, const char* name) { SCIP_EVENTHDLR* h = SCIPfindEventhdlr(scip, name); return h ? Ev(h) : NULL; }
SCIP_RETCODE SCIPcreateObjProb(SCIP* scip, const char* name, ObjProbData* o, SCIP_Bool del) {
  PData* d = new PData{o, del};
  return SCIPcreateProb(scip, name, p_delorig, p_trans, p_deltrans, p_initsol, p_exitsol, NULL, (SCIP_PROBDATA*)d);
}
ObjProbData* SCIPgetObjProbData(SCIP* scip) { PData* d = (PData*)SCIPgetProbData(scip); return d ? d->obj : NULL; }
scip::ObjConshdlr* SCIPgetObjConshdlr(SCIP*, SCIP_CONSHDLR* h) { return h ? C(h) : NULL; }
scip::ObjEventhdlr* SCIPgetObjEventhdlr(SCIP*, SCIP_EVENTHDLR* h) { return h ? Ev(h) : NULL; }
