/* Own implementation of the C++ wrapper classes (objscip) over the SCIP C API: same class
 * names, constructor arguments, virtual methods and free functions as upstream objscip. */
#ifndef PCTSP_SHIM_OBJSCIP_H
#define PCTSP_SHIM_OBJSCIP_H
#include "scip/scip.h"
#include <string>
/* the classes live in a namespace of their own so their mangled names differ from libscip's */
namespace pctspshim_scip {}
namespace scip = pctspshim_scip;
namespace pctspshim_scip {

class ObjCloneable { public: virtual ~ObjCloneable() {} };

class ObjConshdlr {
public:
  SCIP* scip_;
  std::string name_store_, desc_store_;
  const char* scip_name_;
  const char* scip_desc_;
  const int scip_sepapriority_, scip_enfopriority_, scip_checkpriority_, scip_sepafreq_, scip_propfreq_, scip_eagerfreq_, scip_maxprerounds_;
  const SCIP_Bool scip_delaysepa_, scip_delayprop_, scip_needscons_;
  const SCIP_PROPTIMING scip_proptiming_;
  const SCIP_PRESOLTIMING scip_presoltiming_;
  ObjConshdlr(SCIP* scip, const char* name, const char* desc, int sepapriority, int enfopriority, int checkpriority, int sepafreq, int propfreq, int eagerfreq, int maxprerounds, SCIP_Bool delaysepa, SCIP_Bool delayprop, SCIP_Bool needscons, SCIP_PROPTIMING proptiming, SCIP_PRESOLTIMING presoltiming)
  : scip_(scip), name_store_(name), desc_store_(desc), scip_name_(name_store_.c_str()), scip_desc_(desc_store_.c_str()),
    scip_sepapriority_(sepapriority), scip_enfopriority_(enfopriority), scip_checkpriority_(checkpriority), scip_sepafreq_(sepafreq), scip_propfreq_(propfreq), scip_eagerfreq_(eagerfreq), scip_maxprerounds_(maxprerounds),
    scip_delaysepa_(delaysepa), scip_delayprop_(delayprop), scip_needscons_(needscons), scip_proptiming_(proptiming), scip_presoltiming_(presoltiming) {}
  ObjConshdlr(const ObjConshdlr&) = delete;
  virtual ~ObjConshdlr() {}
  virtual SCIP_DECL_CONSFREE(scip_free) { return SCIP_OKAY; }
  virtual SCIP_DECL_CONSINIT(scip_init) { return SCIP_OKAY; }
  virtual SCIP_DECL_CONSEXIT(scip_exit) { return SCIP_OKAY; }
  virtual SCIP_DECL_CONSINITPRE(scip_initpre) { return SCIP_OKAY; }
  virtual SCIP_DECL_CONSEXITPRE(scip_exitpre) { return SCIP_OKAY; }
  virtual SCIP_DECL_CONSINITSOL(scip_initsol) { return SCIP_OKAY; }
  virtual SCIP_DECL_CONSEXITSOL(scip_exitsol) { return SCIP_OKAY; }
  virtual SCIP_DECL_CONSDELETE(scip_delete) { return SCIP_OKAY; }
  virtual SCIP_DECL_CONSTRANS(scip_trans) = 0;
  virtual SCIP_DECL_CONSINITLP(scip_initlp) { *infeasible = FALSE; return SCIP_OKAY; }
  virtual SCIP_DECL_CONSSEPALP(scip_sepalp) { *result = SCIP_DIDNOTRUN; return SCIP_OKAY; }
  virtual SCIP_DECL_CONSSEPASOL(scip_sepasol) { *result = SCIP_DIDNOTRUN; return SCIP_OKAY; }
  virtual SCIP_DECL_CONSENFOLP(scip_enfolp) = 0;
  virtual SCIP_DECL_CONSENFORELAX(scip_enforelax) { *result = SCIP_INFEASIBLE; return SCIP_OKAY; }
  virtual SCIP_DECL_CONSENFOPS(scip_enfops) = 0;
  virtual SCIP_DECL_CONSCHECK(scip_check) = 0;
  virtual SCIP_DECL_CONSPROP(scip_prop) { *result = SCIP_DIDNOTRUN; return SCIP_OKAY; }
  virtual SCIP_DECL_CONSLOCK(scip_lock) = 0;
  virtual SCIP_DECL_CONSACTIVE(scip_active) { return SCIP_OKAY; }
  virtual SCIP_DECL_CONSDEACTIVE(scip_deactive) { return SCIP_OKAY; }
  virtual SCIP_DECL_CONSENABLE(scip_enable) { return SCIP_OKAY; }
  virtual SCIP_DECL_CONSDISABLE(scip_disable) { return SCIP_OKAY; }
  virtual SCIP_DECL_CONSDELVARS(scip_delvars) { return SCIP_OKAY; }
  virtual SCIP_DECL_CONSPRINT(scip_print) { return SCIP_OKAY; }
  virtual SCIP_DECL_CONSGETVARS(scip_getvars) { *success = FALSE; return SCIP_OKAY; }
  virtual SCIP_DECL_CONSGETNVARS(scip_getnvars) { *nvars = 0; *success = FALSE; return SCIP_OKAY; }
};

class ObjEventhdlr {
public:
  SCIP* scip_;
  std::string name_store_, desc_store_;
  const char* scip_name_;
  const char* scip_desc_;
  ObjEventhdlr(SCIP* scip, const char* name, const char* desc) : scip_(scip), name_store_(name), desc_store_(desc), scip_name_(name_store_.c_str()), scip_desc_(desc_store_.c_str()) {}
  ObjEventhdlr(const ObjEventhdlr&) = delete;
  virtual ~ObjEventhdlr() {}
  virtual SCIP_DECL_EVENTFREE(scip_free) { return SCIP_OKAY; }
  virtual SCIP_DECL_EVENTINIT(scip_init) { return SCIP_OKAY; }
  virtual SCIP_DECL_EVENTEXIT(scip_exit) { return SCIP_OKAY; }
  virtual SCIP_DECL_EVENTINITSOL(scip_initsol) { return SCIP_OKAY; }
  virtual SCIP_DECL_EVENTEXITSOL(scip_exitsol) { return SCIP_OKAY; }
  virtual SCIP_DECL_EVENTDELETE(scip_delete) { return SCIP_OKAY; }
  virtual SCIP_DECL_EVENTEXEC(scip_exec) = 0;
};

class ObjProbData {
public:
  ObjProbData() {}
  virtual ~ObjProbData() {}
  virtual SCIP_RETCODE scip_delorig(SCIP*) { return SCIP_OKAY; }
  virtual SCIP_RETCODE scip_trans(SCIP*, ObjProbData** objprobdata, SCIP_Bool* deleteobject) { *objprobdata = this; *deleteobject = FALSE; return SCIP_OKAY; }
  virtual SCIP_RETCODE scip_deltrans(SCIP*) { return SCIP_OKAY; }
  virtual SCIP_RETCODE scip_initsol(SCIP*) { return SCIP_OKAY; }
  virtual SCIP_RETCODE scip_exitsol(SCIP*, SCIP_Bool) { return SCIP_OKAY; }
};
}
/* renamed so that they can never bind to (or interpose) the exported objscip functions, whose
 * class layouts differ */
#define SCIPincludeObjConshdlr pctspshim_SCIPincludeObjConshdlr
#define SCIPfindObjConshdlr pctspshim_SCIPfindObjConshdlr
#define SCIPincludeObjEventhdlr pctspshim_SCIPincludeObjEventhdlr
#define SCIPfindObjEventhdlr pctspshim_SCIPfindObjEventhdlr
#define SCIPcreateObjProb pctspshim_SCIPcreateObjProb
#define SCIPgetObjProbData pctspshim_SCIPgetObjProbData
SCIP_RETCODE SCIPincludeObjConshdlr(SCIP* scip, scip::ObjConshdlr* obj, SCIP_Bool deleteobject);
scip::ObjConshdlr* SCIPfindObjConshdlr(SCIP* scip, const char* name);
SCIP_RETCODE SCIPincludeObjEventhdlr(SCIP* scip, scip::ObjEventhdlr* obj, SCIP_Bool deleteobject);
scip::ObjEventhdlr* SCIPfindObjEventhdlr(SCIP* scip, const char* name);
SCIP_RETCODE SCIPcreateObjProb(SCIP* scip, const char* name, scip::ObjProbData* objprobdata, SCIP_Bool deleteobject);
scip::ObjProbData* SCIPgetObjProbData(SCIP* scip);
#define SCIPgetObjConshdlr pctspshim_SCIPgetObjConshdlr
#define SCIPgetObjEventhdlr pctspshim_SCIPgetObjEventhdlr
scip::ObjConshdlr* SCIPgetObjConshdlr(SCIP* scip, SCIP_CONSHDLR* conshdlr);
scip::ObjEventhdlr* SCIPgetObjEventhdlr(SCIP* scip, SCIP_EVENTHDLR* eventhdlr);
#endif
