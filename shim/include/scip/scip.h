/* Hand-written declarations for the part of the SCIP C API that pctsp uses (or could
 * reasonably use).  The sandbox ships libscip (inside the PySCIPOpt wheel) but no headers.
 * Only pointers to opaque structs and scalars cross the boundary; the enum values were read
 * back from PySCIPOpt 6.3.0 / SCIP 10.0 at authoring time (tools/check_abi.py
 * compares them again). */
#ifndef PCTSP_SHIM_SCIP_H
#define PCTSP_SHIM_SCIP_H
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cassert>
#include <cmath>
#include <cstdlib>
#include <climits>
#include <cfloat>
#include <iostream>

#define SCIP_Bool unsigned int
#define SCIP_Shortbool uint8_t
#define SCIP_Real double
#define SCIP_Longint long long
#define SCIP_MAXSTRLEN 1024
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
#ifndef MIN
#define MIN(x,y) ((x) <= (y) ? (x) : (y))
#define MAX(x,y) ((x) >= (y) ? (x) : (y))
#endif

enum SCIP_Retcode { SCIP_OKAY = 1, SCIP_ERROR = 0, SCIP_NOMEMORY = -1, SCIP_READERROR = -2,
  SCIP_WRITEERROR = -3, SCIP_NOFILE = -4, SCIP_FILECREATEERROR = -5, SCIP_LPERROR = -6,
  SCIP_NOPROBLEM = -7, SCIP_INVALIDCALL = -8, SCIP_INVALIDDATA = -9, SCIP_INVALIDRESULT = -10,
  SCIP_PLUGINNOTFOUND = -11, SCIP_PARAMETERUNKNOWN = -12, SCIP_PARAMETERWRONGTYPE = -13,
  SCIP_PARAMETERWRONGVAL = -14, SCIP_KEYALREADYEXISTING = -15, SCIP_MAXDEPTHLEVEL = -16,
  SCIP_BRANCHERROR = -17, SCIP_NOTIMPLEMENTED = -18 };
typedef enum SCIP_Retcode SCIP_RETCODE;

enum SCIP_Result { SCIP_DIDNOTRUN = 1, SCIP_DELAYED = 2, SCIP_DIDNOTFIND = 3, SCIP_FEASIBLE = 4,
  SCIP_INFEASIBLE = 5, SCIP_UNBOUNDED = 6, SCIP_CUTOFF = 7, SCIP_SEPARATED = 8, SCIP_NEWROUND = 9,
  SCIP_REDUCEDDOM = 10, SCIP_CONSADDED = 11, SCIP_CONSCHANGED = 12, SCIP_BRANCHED = 13,
  SCIP_SOLVELP = 14, SCIP_FOUNDSOL = 15, SCIP_SUSPENDED = 16, SCIP_SUCCESS = 17 };
typedef enum SCIP_Result SCIP_RESULT;

enum SCIP_Status { SCIP_STATUS_UNKNOWN = 0, SCIP_STATUS_OPTIMAL = 1, SCIP_STATUS_INFEASIBLE = 2,
  SCIP_STATUS_UNBOUNDED = 3, SCIP_STATUS_INFORUNBD = 4, SCIP_STATUS_USERINTERRUPT = 10,
  SCIP_STATUS_TERMINATE = 11, SCIP_STATUS_NODELIMIT = 20, SCIP_STATUS_TOTALNODELIMIT = 21,
  SCIP_STATUS_STALLNODELIMIT = 22, SCIP_STATUS_TIMELIMIT = 23, SCIP_STATUS_MEMLIMIT = 24,
  SCIP_STATUS_GAPLIMIT = 25, SCIP_STATUS_PRIMALLIMIT = 26, SCIP_STATUS_DUALLIMIT = 27,
  SCIP_STATUS_SOLLIMIT = 28, SCIP_STATUS_BESTSOLLIMIT = 29, SCIP_STATUS_RESTARTLIMIT = 30 };
typedef enum SCIP_Status SCIP_STATUS;

enum SCIP_Vartype { SCIP_VARTYPE_BINARY = 0, SCIP_VARTYPE_INTEGER = 1, SCIP_VARTYPE_IMPLINT = 2, SCIP_VARTYPE_CONTINUOUS = 3 };
typedef enum SCIP_Vartype SCIP_VARTYPE;
enum SCIP_Varstatus { SCIP_VARSTATUS_ORIGINAL = 0, SCIP_VARSTATUS_LOOSE = 1, SCIP_VARSTATUS_COLUMN = 2,
  SCIP_VARSTATUS_FIXED = 3, SCIP_VARSTATUS_AGGREGATED = 4, SCIP_VARSTATUS_MULTAGGR = 5, SCIP_VARSTATUS_NEGATED = 6 };
typedef enum SCIP_Varstatus SCIP_VARSTATUS;
enum SCIP_Objsense { SCIP_OBJSENSE_MAXIMIZE = -1, SCIP_OBJSENSE_MINIMIZE = 1 };
typedef enum SCIP_Objsense SCIP_OBJSENSE;
enum SCIP_LPSolStat { SCIP_LPSOLSTAT_NOTSOLVED = 0, SCIP_LPSOLSTAT_OPTIMAL = 1, SCIP_LPSOLSTAT_INFEASIBLE = 2,
  SCIP_LPSOLSTAT_UNBOUNDEDRAY = 3, SCIP_LPSOLSTAT_OBJLIMIT = 4, SCIP_LPSOLSTAT_ITERLIMIT = 5,
  SCIP_LPSOLSTAT_TIMELIMIT = 6, SCIP_LPSOLSTAT_ERROR = 7 };
typedef enum SCIP_LPSolStat SCIP_LPSOLSTAT;
enum SCIP_LockType { SCIP_LOCKTYPE_MODEL = 0, SCIP_LOCKTYPE_CONFLICT = 1 };
typedef enum SCIP_LockType SCIP_LOCKTYPE;
enum SCIP_BoundType { SCIP_BOUNDTYPE_LOWER = 0, SCIP_BOUNDTYPE_UPPER = 1 };
typedef enum SCIP_BoundType SCIP_BOUNDTYPE;
enum SCIP_Stage { SCIP_STAGE_INIT = 0, SCIP_STAGE_PROBLEM = 1, SCIP_STAGE_TRANSFORMING = 2, SCIP_STAGE_TRANSFORMED = 3,
  SCIP_STAGE_INITPRESOLVE = 4, SCIP_STAGE_PRESOLVING = 5, SCIP_STAGE_EXITPRESOLVE = 6, SCIP_STAGE_PRESOLVED = 7,
  SCIP_STAGE_INITSOLVE = 8, SCIP_STAGE_SOLVING = 9, SCIP_STAGE_SOLVED = 10, SCIP_STAGE_EXITSOLVE = 11,
  SCIP_STAGE_FREETRANS = 12, SCIP_STAGE_FREE = 13 };
typedef enum SCIP_Stage SCIP_STAGE;

typedef uint32_t SCIP_PROPTIMING;
#define SCIP_PROPTIMING_BEFORELP 0x001u
#define SCIP_PROPTIMING_DURINGLPLOOP 0x002u
#define SCIP_PROPTIMING_AFTERLPLOOP 0x004u
#define SCIP_PROPTIMING_AFTERLPNODE 0x008u
typedef uint32_t SCIP_PRESOLTIMING;
#define SCIP_PRESOLTIMING_NONE 0x002u
#define SCIP_PRESOLTIMING_FAST 0x004u
#define SCIP_PRESOLTIMING_MEDIUM 0x008u
#define SCIP_PRESOLTIMING_EXHAUSTIVE 0x010u

typedef uint64_t SCIP_EVENTTYPE;
#define SCIP_EVENTTYPE_DISABLED UINT64_C(0)
#define SCIP_EVENTTYPE_NODEFOCUSED UINT64_C(524288)
#define SCIP_EVENTTYPE_NODEFEASIBLE UINT64_C(1048576)
#define SCIP_EVENTTYPE_NODEINFEASIBLE UINT64_C(2097152)
#define SCIP_EVENTTYPE_NODEBRANCHED UINT64_C(4194304)
#define SCIP_EVENTTYPE_NODESOLVED UINT64_C(7340032)
#define SCIP_EVENTTYPE_NODEEVENT UINT64_C(7864320)
#define SCIP_EVENTTYPE_FIRSTLPSOLVED UINT64_C(33554432)
#define SCIP_EVENTTYPE_LPSOLVED UINT64_C(67108864)
#define SCIP_EVENTTYPE_LPEVENT UINT64_C(100663296)
#define SCIP_EVENTTYPE_POORSOLFOUND UINT64_C(134217728)
#define SCIP_EVENTTYPE_BESTSOLFOUND UINT64_C(268435456)
#define SCIP_EVENTTYPE_SOLFOUND UINT64_C(402653184)

typedef struct Scip SCIP;
typedef struct SCIP_Var SCIP_VAR;
typedef struct SCIP_VarData SCIP_VARDATA;
typedef struct SCIP_Cons SCIP_CONS;
typedef struct SCIP_ConsData SCIP_CONSDATA;
typedef struct SCIP_Conshdlr SCIP_CONSHDLR;
typedef struct SCIP_ConshdlrData SCIP_CONSHDLRDATA;
typedef struct SCIP_Eventhdlr SCIP_EVENTHDLR;
typedef struct SCIP_EventhdlrData SCIP_EVENTHDLRDATA;
typedef struct SCIP_Event SCIP_EVENT;
typedef struct SCIP_EventData SCIP_EVENTDATA;
typedef struct SCIP_Branchrule SCIP_BRANCHRULE;
typedef struct SCIP_BranchruleData SCIP_BRANCHRULEDATA;
typedef struct SCIP_Heur SCIP_HEUR;
typedef struct SCIP_Nodesel SCIP_NODESEL;
typedef struct SCIP_Sepa SCIP_SEPA;
typedef struct SCIP_Sol SCIP_SOL;
typedef struct SCIP_Row SCIP_ROW;
typedef struct SCIP_Col SCIP_COL;
typedef struct SCIP_Node SCIP_NODE;
typedef struct SCIP_Messagehdlr SCIP_MESSAGEHDLR;
typedef struct SCIP_ProbData SCIP_PROBDATA;
typedef struct SCIP_BdChgIdx SCIP_BDCHGIDX;
typedef struct SCIP_HashMap SCIP_HASHMAP;
typedef struct SCIP_Diveset SCIP_DIVESET;
typedef struct SYM_Graph SYM_GRAPH;

extern "C" {
void SCIPmessagePrintErrorHeader(const char* sourcefile, int sourceline);
void SCIPmessagePrintError(const char* formatstr, ...);
}
#define SCIPerrorMessage SCIPmessagePrintErrorHeader(__FILE__, __LINE__); SCIPmessagePrintError
#define SCIPwarningMessage(scip, ...) SCIPinfoMessage(scip, NULL, __VA_ARGS__)
#define SCIPdebugMessage while( false ) printf
#define SCIPdebugMsg(scip, ...) ((void)0)
#define SCIP_CALL(x) do { SCIP_RETCODE _restat_; if( (_restat_ = (x)) != SCIP_OKAY ) { \
  SCIPerrorMessage("Error <%d> in function call\n", _restat_); return _restat_; } } while( false )
#define SCIP_CALL_ABORT(x) do { SCIP_RETCODE _restat_; if( (_restat_ = (x)) != SCIP_OKAY ) { \
  SCIPerrorMessage("Error <%d> in function call\n", _restat_); abort(); } } while( false )
#define BMScheckEmptyMemory() do { } while( false )
#define SCIP_CALL_EXC(x) SCIP_CALL_ABORT(x)

/* callback signatures */
#define SCIP_DECL_PROBDELORIG(x) SCIP_RETCODE x (SCIP* scip, SCIP_PROBDATA** probdata)
#define SCIP_DECL_PROBTRANS(x) SCIP_RETCODE x (SCIP* scip, SCIP_PROBDATA* sourcedata, SCIP_PROBDATA** targetdata)
#define SCIP_DECL_PROBDELTRANS(x) SCIP_RETCODE x (SCIP* scip, SCIP_PROBDATA** probdata)
#define SCIP_DECL_PROBINITSOL(x) SCIP_RETCODE x (SCIP* scip, SCIP_PROBDATA* probdata)
#define SCIP_DECL_PROBEXITSOL(x) SCIP_RETCODE x (SCIP* scip, SCIP_PROBDATA* probdata, SCIP_Bool restart)
#define SCIP_DECL_EVENTCOPY(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr)
#define SCIP_DECL_EVENTFREE(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr)
#define SCIP_DECL_EVENTINIT(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr)
#define SCIP_DECL_EVENTEXIT(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr)
#define SCIP_DECL_EVENTINITSOL(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr)
#define SCIP_DECL_EVENTEXITSOL(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr)
#define SCIP_DECL_EVENTDELETE(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr, SCIP_EVENTDATA** eventdata)
#define SCIP_DECL_EVENTEXEC(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr, SCIP_EVENT* event, SCIP_EVENTDATA* eventdata)
#define SCIP_DECL_CONSHDLRCOPY(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_Bool* valid)
#define SCIP_DECL_CONSFREE(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr)
#define SCIP_DECL_CONSINIT(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss)
#define SCIP_DECL_CONSEXIT(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss)
#define SCIP_DECL_CONSINITPRE(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss)
#define SCIP_DECL_CONSEXITPRE(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss)
#define SCIP_DECL_CONSINITSOL(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss)
#define SCIP_DECL_CONSEXITSOL(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, SCIP_Bool restart)
#define SCIP_DECL_CONSDELETE(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* cons, SCIP_CONSDATA** consdata)
#define SCIP_DECL_CONSTRANS(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* sourcecons, SCIP_CONS** targetcons)
#define SCIP_DECL_CONSINITLP(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, SCIP_Bool* infeasible)
#define SCIP_DECL_CONSSEPALP(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nusefulconss, SCIP_RESULT* result)
#define SCIP_DECL_CONSSEPASOL(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nusefulconss, SCIP_SOL* sol, SCIP_RESULT* result)
#define SCIP_DECL_CONSENFOLP(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nusefulconss, SCIP_Bool solinfeasible, SCIP_RESULT* result)
#define SCIP_DECL_CONSENFORELAX(x) SCIP_RETCODE x (SCIP* scip, SCIP_SOL* sol, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nusefulconss, SCIP_Bool solinfeasible, SCIP_RESULT* result)
#define SCIP_DECL_CONSENFOPS(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nusefulconss, SCIP_Bool solinfeasible, SCIP_Bool objinfeasible, SCIP_RESULT* result)
#define SCIP_DECL_CONSCHECK(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, SCIP_SOL* sol, SCIP_Bool checkintegrality, SCIP_Bool checklprows, SCIP_Bool printreason, SCIP_Bool completely, SCIP_RESULT* result)
#define SCIP_DECL_CONSPROP(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nusefulconss, int nmarkedconss, SCIP_PROPTIMING proptiming, SCIP_RESULT* result)
#define SCIP_DECL_CONSPRESOL(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nrounds, SCIP_PRESOLTIMING presoltiming, int nnewfixedvars, int nnewaggrvars, int nnewchgvartypes, int nnewchgbds, int nnewholes, int nnewdelconss, int nnewaddconss, int nnewupgdconss, int nnewchgcoefs, int nnewchgsides, int* nfixedvars, int* naggrvars, int* nchgvartypes, int* nchgbds, int* naddholes, int* ndelconss, int* naddconss, int* nupgdconss, int* nchgcoefs, int* nchgsides, SCIP_RESULT* result)
#define SCIP_DECL_CONSRESPROP(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* cons, SCIP_VAR* infervar, int inferinfo, SCIP_BOUNDTYPE boundtype, SCIP_BDCHGIDX* bdchgidx, SCIP_Real relaxedbd, SCIP_RESULT* result)
#define SCIP_DECL_CONSLOCK(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* cons, SCIP_LOCKTYPE locktype, int nlockspos, int nlocksneg)
#define SCIP_DECL_CONSACTIVE(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* cons)
#define SCIP_DECL_CONSDEACTIVE(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* cons)
#define SCIP_DECL_CONSENABLE(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* cons)
#define SCIP_DECL_CONSDISABLE(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* cons)
#define SCIP_DECL_CONSDELVARS(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss)
#define SCIP_DECL_CONSPRINT(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* cons, FILE* file)
#define SCIP_DECL_CONSCOPY(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONS** cons, const char* name, SCIP* sourcescip, SCIP_CONSHDLR* sourceconshdlr, SCIP_CONS* sourcecons, SCIP_HASHMAP* varmap, SCIP_HASHMAP* consmap, SCIP_Bool initial, SCIP_Bool separate, SCIP_Bool enforce, SCIP_Bool check, SCIP_Bool propagate, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool dynamic, SCIP_Bool removable, SCIP_Bool stickingatnode, SCIP_Bool global, SCIP_Bool* valid)
#define SCIP_DECL_CONSPARSE(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** cons, const char* name, const char* str, SCIP_Bool initial, SCIP_Bool separate, SCIP_Bool enforce, SCIP_Bool check, SCIP_Bool propagate, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool dynamic, SCIP_Bool removable, SCIP_Bool stickingatnode, SCIP_Bool* success)
#define SCIP_DECL_CONSGETVARS(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* cons, SCIP_VAR** vars, int varssize, SCIP_Bool* success)
#define SCIP_DECL_CONSGETNVARS(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* cons, int* nvars, SCIP_Bool* success)
#define SCIP_DECL_CONSGETDIVEBDCHGS(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_DIVESET* diveset, SCIP_SOL* sol, SCIP_Bool* success, SCIP_Bool* infeasible)
#define SCIP_DECL_CONSGETPERMSYMGRAPH(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* cons, SYM_GRAPH* graph, SCIP_Bool* success)
#define SCIP_DECL_VARDELORIG(x) SCIP_RETCODE x (SCIP* scip, SCIP_VAR* var, SCIP_VARDATA** vardata)
#define SCIP_DECL_VARTRANS(x) SCIP_RETCODE x (SCIP* scip, SCIP_VAR* sourcevar, SCIP_VARDATA* sourcedata, SCIP_VAR* targetvar, SCIP_VARDATA** targetdata)
#define SCIP_DECL_VARDELTRANS(x) SCIP_RETCODE x (SCIP* scip, SCIP_VAR* var, SCIP_VARDATA** vardata)
#define SCIP_DECL_VARCOPY(x) SCIP_RETCODE x (SCIP* scip, SCIP* sourcescip, SCIP_VAR* sourcevar, SCIP_VARDATA* sourcedata, SCIP_HASHMAP* varmap, SCIP_HASHMAP* consmap, SCIP_VAR* targetvar, SCIP_VARDATA** targetdata, SCIP_RESULT* result)

extern "C" {
SCIP_RETCODE SCIPcreate(SCIP** scip);
SCIP_RETCODE SCIPfree(SCIP** scip);
int SCIPmajorVersion(void);
SCIP_STATUS SCIPgetStatus(SCIP* scip);
SCIP_STAGE SCIPgetStage(SCIP* scip);
SCIP_RETCODE SCIPsetMessagehdlr(SCIP* scip, SCIP_MESSAGEHDLR* messagehdlr);
SCIP_MESSAGEHDLR* SCIPgetMessagehdlr(SCIP* scip);
void SCIPsetMessagehdlrQuiet(SCIP* scip, SCIP_Bool quiet);
void SCIPsetMessagehdlrLogfile(SCIP* scip, const char* filename);
SCIP_RETCODE SCIPmessagehdlrRelease(SCIP_MESSAGEHDLR** messagehdlr);
void SCIPinfoMessage(SCIP* scip, FILE* file, const char* formatstr, ...);
void SCIPverbMessage(SCIP* scip, int msgverblevel, FILE* file, const char* formatstr, ...);

SCIP_RETCODE SCIPsetBoolParam(SCIP* scip, const char* name, SCIP_Bool value);
SCIP_RETCODE SCIPsetIntParam(SCIP* scip, const char* name, int value);
SCIP_RETCODE SCIPsetLongintParam(SCIP* scip, const char* name, SCIP_Longint value);
SCIP_RETCODE SCIPsetRealParam(SCIP* scip, const char* name, SCIP_Real value);
SCIP_RETCODE SCIPsetCharParam(SCIP* scip, const char* name, char value);
SCIP_RETCODE SCIPsetStringParam(SCIP* scip, const char* name, const char* value);
SCIP_RETCODE SCIPgetBoolParam(SCIP* scip, const char* name, SCIP_Bool* value);
SCIP_RETCODE SCIPgetIntParam(SCIP* scip, const char* name, int* value);
SCIP_RETCODE SCIPgetLongintParam(SCIP* scip, const char* name, SCIP_Longint* value);
SCIP_RETCODE SCIPgetRealParam(SCIP* scip, const char* name, SCIP_Real* value);

SCIP_RETCODE SCIPcreateProb(SCIP* scip, const char* name, SCIP_DECL_PROBDELORIG((*probdelorig)), SCIP_DECL_PROBTRANS((*probtrans)), SCIP_DECL_PROBDELTRANS((*probdeltrans)), SCIP_DECL_PROBINITSOL((*probinitsol)), SCIP_DECL_PROBEXITSOL((*probexitsol)), void* probcopy, SCIP_PROBDATA* probdata);
SCIP_RETCODE SCIPcreateProbBasic(SCIP* scip, const char* name);
SCIP_RETCODE SCIPfreeProb(SCIP* scip);
SCIP_RETCODE SCIPfreeTransform(SCIP* scip);
SCIP_RETCODE SCIPtransformProb(SCIP* scip);
SCIP_RETCODE SCIPpresolve(SCIP* scip);
SCIP_RETCODE SCIPsolve(SCIP* scip);
SCIP_PROBDATA* SCIPgetProbData(SCIP* scip);
SCIP_RETCODE SCIPsetObjsense(SCIP* scip, SCIP_OBJSENSE objsense);

SCIP_RETCODE SCIPcreateVar(SCIP* scip, SCIP_VAR** var, const char* name, SCIP_Real lb, SCIP_Real ub, SCIP_Real obj, SCIP_VARTYPE vartype, SCIP_Bool initial, SCIP_Bool removable, SCIP_DECL_VARDELORIG((*vardelorig)), SCIP_DECL_VARTRANS((*vartrans)), SCIP_DECL_VARDELTRANS((*vardeltrans)), SCIP_DECL_VARCOPY((*varcopy)), SCIP_VARDATA* vardata);
SCIP_RETCODE SCIPcreateVarBasic(SCIP* scip, SCIP_VAR** var, const char* name, SCIP_Real lb, SCIP_Real ub, SCIP_Real obj, SCIP_VARTYPE vartype);
SCIP_RETCODE SCIPaddVar(SCIP* scip, SCIP_VAR* var);
SCIP_RETCODE SCIPcaptureVar(SCIP* scip, SCIP_VAR* var);
SCIP_RETCODE SCIPreleaseVar(SCIP* scip, SCIP_VAR** var);
SCIP_RETCODE SCIPfixVar(SCIP* scip, SCIP_VAR* var, SCIP_Real fixedval, SCIP_Bool* infeasible, SCIP_Bool* fixed);
SCIP_RETCODE SCIPchgVarObj(SCIP* scip, SCIP_VAR* var, SCIP_Real newobj);
SCIP_RETCODE SCIPchgVarLb(SCIP* scip, SCIP_VAR* var, SCIP_Real newbound);
SCIP_RETCODE SCIPchgVarUb(SCIP* scip, SCIP_VAR* var, SCIP_Real newbound);
const char* SCIPvarGetName(SCIP_VAR* var);
SCIP_VARSTATUS SCIPvarGetStatus(SCIP_VAR* var);
SCIP_VARTYPE SCIPvarGetType(SCIP_VAR* var);
SCIP_Real SCIPvarGetObj(SCIP_VAR* var);
SCIP_Real SCIPvarGetLPSol(SCIP_VAR* var);
SCIP_Real SCIPvarGetLbLocal(SCIP_VAR* var);
SCIP_Real SCIPvarGetUbLocal(SCIP_VAR* var);
SCIP_Real SCIPvarGetLbGlobal(SCIP_VAR* var);
SCIP_Real SCIPvarGetUbGlobal(SCIP_VAR* var);
int SCIPvarGetIndex(SCIP_VAR* var);
int SCIPvarGetProbindex(SCIP_VAR* var);
SCIP_VAR** SCIPgetVars(SCIP* scip);
int SCIPgetNVars(SCIP* scip);
SCIP_VAR** SCIPgetOrigVars(SCIP* scip);
int SCIPgetNOrigVars(SCIP* scip);
SCIP_RETCODE SCIPgetTransformedVar(SCIP* scip, SCIP_VAR* var, SCIP_VAR** transvar);
SCIP_RETCODE SCIPgetTransformedVars(SCIP* scip, int nvars, SCIP_VAR** vars, SCIP_VAR** transvars);
SCIP_RETCODE SCIPaddVarLocks(SCIP* scip, SCIP_VAR* var, int nlocksdown, int nlocksup);
SCIP_RETCODE SCIPaddVarLocksType(SCIP* scip, SCIP_VAR* var, SCIP_LOCKTYPE locktype, int nlocksdown, int nlocksup);

SCIP_RETCODE SCIPcreateCons(SCIP* scip, SCIP_CONS** cons, const char* name, SCIP_CONSHDLR* conshdlr, SCIP_CONSDATA* consdata, SCIP_Bool initial, SCIP_Bool separate, SCIP_Bool enforce, SCIP_Bool check, SCIP_Bool propagate, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool dynamic, SCIP_Bool removable, SCIP_Bool stickingatnode);
SCIP_RETCODE SCIPcreateConsLinear(SCIP* scip, SCIP_CONS** cons, const char* name, int nvars, SCIP_VAR** vars, SCIP_Real* vals, SCIP_Real lhs, SCIP_Real rhs, SCIP_Bool initial, SCIP_Bool separate, SCIP_Bool enforce, SCIP_Bool check, SCIP_Bool propagate, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool dynamic, SCIP_Bool removable, SCIP_Bool stickingatnode);
SCIP_RETCODE SCIPcreateConsBasicLinear(SCIP* scip, SCIP_CONS** cons, const char* name, int nvars, SCIP_VAR** vars, SCIP_Real* vals, SCIP_Real lhs, SCIP_Real rhs);
SCIP_RETCODE SCIPcreateConsKnapsack(SCIP* scip, SCIP_CONS** cons, const char* name, int nvars, SCIP_VAR** vars, SCIP_Longint* weights, SCIP_Longint capacity, SCIP_Bool initial, SCIP_Bool separate, SCIP_Bool enforce, SCIP_Bool check, SCIP_Bool propagate, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool dynamic, SCIP_Bool removable, SCIP_Bool stickingatnode);
SCIP_RETCODE SCIPcreateConsBasicKnapsack(SCIP* scip, SCIP_CONS** cons, const char* name, int nvars, SCIP_VAR** vars, SCIP_Longint* weights, SCIP_Longint capacity);
SCIP_RETCODE SCIPaddCoefLinear(SCIP* scip, SCIP_CONS* cons, SCIP_VAR* var, SCIP_Real val);
SCIP_RETCODE SCIPaddCons(SCIP* scip, SCIP_CONS* cons);
SCIP_RETCODE SCIPaddConsLocal(SCIP* scip, SCIP_CONS* cons, SCIP_NODE* validnode);
SCIP_RETCODE SCIPreleaseCons(SCIP* scip, SCIP_CONS** cons);
SCIP_RETCODE SCIPdelCons(SCIP* scip, SCIP_CONS* cons);
int SCIPgetNConss(SCIP* scip);
SCIP_CONS** SCIPgetConss(SCIP* scip);
int SCIPgetNOrigConss(SCIP* scip);
SCIP_CONS** SCIPgetOrigConss(SCIP* scip);
SCIP_CONS* SCIPfindCons(SCIP* scip, const char* name);
SCIP_RETCODE SCIPgetConsVars(SCIP* scip, SCIP_CONS* cons, SCIP_VAR** vars, int varssize, SCIP_Bool* success);
SCIP_RETCODE SCIPgetConsVals(SCIP* scip, SCIP_CONS* cons, SCIP_Real* vals, int valssize, SCIP_Bool* success);
SCIP_RETCODE SCIPgetConsNVars(SCIP* scip, SCIP_CONS* cons, int* nvars, SCIP_Bool* success);
SCIP_Real SCIPconsGetRhs(SCIP* scip, SCIP_CONS* cons, SCIP_Bool* success);
SCIP_Real SCIPconsGetLhs(SCIP* scip, SCIP_CONS* cons, SCIP_Bool* success);
const char* SCIPconsGetName(SCIP_CONS* cons);
SCIP_CONSDATA* SCIPconsGetData(SCIP_CONS* cons);
SCIP_CONSHDLR* SCIPconsGetHdlr(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsInitial(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsSeparated(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsEnforced(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsChecked(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsPropagated(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsLocal(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsModifiable(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsDynamic(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsRemovable(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsStickingAtNode(SCIP_CONS* cons);
SCIP_VAR** SCIPgetVarsLinear(SCIP* scip, SCIP_CONS* cons);
SCIP_Real* SCIPgetValsLinear(SCIP* scip, SCIP_CONS* cons);
int SCIPgetNVarsLinear(SCIP* scip, SCIP_CONS* cons);

SCIP_RETCODE SCIPincludeConshdlr(SCIP* scip, const char* name, const char* desc, int sepapriority, int enfopriority, int chckpriority, int sepafreq, int propfreq, int eagerfreq, int maxprerounds, SCIP_Bool delaysepa, SCIP_Bool delayprop, SCIP_Bool needscons, SCIP_PROPTIMING proptiming, SCIP_PRESOLTIMING presoltiming,
  SCIP_DECL_CONSHDLRCOPY((*conshdlrcopy)), SCIP_DECL_CONSFREE((*consfree)), SCIP_DECL_CONSINIT((*consinit)), SCIP_DECL_CONSEXIT((*consexit)), SCIP_DECL_CONSINITPRE((*consinitpre)), SCIP_DECL_CONSEXITPRE((*consexitpre)), SCIP_DECL_CONSINITSOL((*consinitsol)), SCIP_DECL_CONSEXITSOL((*consexitsol)), SCIP_DECL_CONSDELETE((*consdelete)), SCIP_DECL_CONSTRANS((*constrans)), SCIP_DECL_CONSINITLP((*consinitlp)), SCIP_DECL_CONSSEPALP((*conssepalp)), SCIP_DECL_CONSSEPASOL((*conssepasol)), SCIP_DECL_CONSENFOLP((*consenfolp)), SCIP_DECL_CONSENFORELAX((*consenforelax)), SCIP_DECL_CONSENFOPS((*consenfops)), SCIP_DECL_CONSCHECK((*conscheck)), SCIP_DECL_CONSPROP((*consprop)), SCIP_DECL_CONSPRESOL((*conspresol)), SCIP_DECL_CONSRESPROP((*consresprop)), SCIP_DECL_CONSLOCK((*conslock)), SCIP_DECL_CONSACTIVE((*consactive)), SCIP_DECL_CONSDEACTIVE((*consdeactive)), SCIP_DECL_CONSENABLE((*consenable)), SCIP_DECL_CONSDISABLE((*consdisable)), SCIP_DECL_CONSDELVARS((*consdelvars)), SCIP_DECL_CONSPRINT((*consprint)), SCIP_DECL_CONSCOPY((*conscopy)), SCIP_DECL_CONSPARSE((*consparse)), SCIP_DECL_CONSGETVARS((*consgetvars)), SCIP_DECL_CONSGETNVARS((*consgetnvars)), SCIP_DECL_CONSGETDIVEBDCHGS((*consgetdivebdchgs)), SCIP_DECL_CONSGETPERMSYMGRAPH((*consgetpermsymgraph)), SCIP_DECL_CONSGETPERMSYMGRAPH((*consgetsignedpermsymgraph)), SCIP_CONSHDLRDATA* conshdlrdata);
SCIP_CONSHDLR* SCIPfindConshdlr(SCIP* scip, const char* name);
SCIP_CONSHDLRDATA* SCIPconshdlrGetData(SCIP_CONSHDLR* conshdlr);
const char* SCIPconshdlrGetName(SCIP_CONSHDLR* conshdlr);
int SCIPconshdlrGetSepaFreq(SCIP_CONSHDLR* conshdlr);
int SCIPconshdlrGetNConss(SCIP_CONSHDLR* conshdlr);
SCIP_Longint SCIPconshdlrGetNCutsFound(SCIP_CONSHDLR* conshdlr);

SCIP_RETCODE SCIPincludeEventhdlr(SCIP* scip, const char* name, const char* desc, SCIP_DECL_EVENTCOPY((*eventcopy)), SCIP_DECL_EVENTFREE((*eventfree)), SCIP_DECL_EVENTINIT((*eventinit)), SCIP_DECL_EVENTEXIT((*eventexit)), SCIP_DECL_EVENTINITSOL((*eventinitsol)), SCIP_DECL_EVENTEXITSOL((*eventexitsol)), SCIP_DECL_EVENTDELETE((*eventdelete)), SCIP_DECL_EVENTEXEC((*eventexec)), SCIP_EVENTHDLRDATA* eventhdlrdata);
SCIP_EVENTHDLR* SCIPfindEventhdlr(SCIP* scip, const char* name);
SCIP_EVENTHDLRDATA* SCIPeventhdlrGetData(SCIP_EVENTHDLR* eventhdlr);
SCIP_RETCODE SCIPcatchEvent(SCIP* scip, SCIP_EVENTTYPE eventtype, SCIP_EVENTHDLR* eventhdlr, SCIP_EVENTDATA* eventdata, int* filterpos);
SCIP_RETCODE SCIPdropEvent(SCIP* scip, SCIP_EVENTTYPE eventtype, SCIP_EVENTHDLR* eventhdlr, SCIP_EVENTDATA* eventdata, int filterpos);
SCIP_EVENTTYPE SCIPeventGetType(SCIP_EVENT* event);
SCIP_NODE* SCIPeventGetNode(SCIP_EVENT* event);
SCIP_SOL* SCIPeventGetSol(SCIP_EVENT* event);

SCIP_BRANCHRULE** SCIPgetBranchrules(SCIP* scip);
int SCIPgetNBranchrules(SCIP* scip);
SCIP_BRANCHRULE* SCIPfindBranchrule(SCIP* scip, const char* name);
const char* SCIPbranchruleGetName(SCIP_BRANCHRULE* branchrule);
int SCIPbranchruleGetPriority(SCIP_BRANCHRULE* branchrule);
int SCIPbranchruleGetMaxdepth(SCIP_BRANCHRULE* branchrule);
SCIP_BRANCHRULEDATA* SCIPbranchruleGetData(SCIP_BRANCHRULE* branchrule);
SCIP_RETCODE SCIPsetBranchrulePriority(SCIP* scip, SCIP_BRANCHRULE* branchrule, int priority);
SCIP_RETCODE SCIPsetBranchruleMaxdepth(SCIP* scip, SCIP_BRANCHRULE* branchrule, int maxdepth);
SCIP_RETCODE SCIPbranchLP(SCIP* scip, SCIP_RESULT* result);

SCIP_RETCODE SCIPcreateSol(SCIP* scip, SCIP_SOL** sol, SCIP_HEUR* heur);
SCIP_RETCODE SCIPcreateOrigSol(SCIP* scip, SCIP_SOL** sol, SCIP_HEUR* heur);
SCIP_RETCODE SCIPfreeSol(SCIP* scip, SCIP_SOL** sol);
SCIP_RETCODE SCIPsetSolVal(SCIP* scip, SCIP_SOL* sol, SCIP_VAR* var, SCIP_Real val);
SCIP_Real SCIPgetSolVal(SCIP* scip, SCIP_SOL* sol, SCIP_VAR* var);
SCIP_RETCODE SCIPgetSolVals(SCIP* scip, SCIP_SOL* sol, int nvars, SCIP_VAR** vars, SCIP_Real* vals);
SCIP_RETCODE SCIPaddSol(SCIP* scip, SCIP_SOL* sol, SCIP_Bool* stored);
SCIP_RETCODE SCIPaddSolFree(SCIP* scip, SCIP_SOL** sol, SCIP_Bool* stored);
SCIP_RETCODE SCIPtrySol(SCIP* scip, SCIP_SOL* sol, SCIP_Bool printreason, SCIP_Bool completely, SCIP_Bool checkbounds, SCIP_Bool checkintegrality, SCIP_Bool checklprows, SCIP_Bool* stored);
SCIP_RETCODE SCIPtrySolFree(SCIP* scip, SCIP_SOL** sol, SCIP_Bool printreason, SCIP_Bool completely, SCIP_Bool checkbounds, SCIP_Bool checkintegrality, SCIP_Bool checklprows, SCIP_Bool* stored);
SCIP_RETCODE SCIPcheckSol(SCIP* scip, SCIP_SOL* sol, SCIP_Bool printreason, SCIP_Bool completely, SCIP_Bool checkbounds, SCIP_Bool checkintegrality, SCIP_Bool checklprows, SCIP_Bool* feasible);
SCIP_SOL* SCIPgetBestSol(SCIP* scip);
SCIP_SOL** SCIPgetSols(SCIP* scip);
int SCIPgetNSols(SCIP* scip);
SCIP_Real SCIPgetSolOrigObj(SCIP* scip, SCIP_SOL* sol);

SCIP_RETCODE SCIPcreateEmptyRowConshdlr(SCIP* scip, SCIP_ROW** row, SCIP_CONSHDLR* conshdlr, const char* name, SCIP_Real lhs, SCIP_Real rhs, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool removable);
SCIP_RETCODE SCIPcacheRowExtensions(SCIP* scip, SCIP_ROW* row);
SCIP_RETCODE SCIPflushRowExtensions(SCIP* scip, SCIP_ROW* row);
SCIP_RETCODE SCIPaddVarToRow(SCIP* scip, SCIP_ROW* row, SCIP_VAR* var, SCIP_Real val);
SCIP_RETCODE SCIPaddVarsToRow(SCIP* scip, SCIP_ROW* row, int nvars, SCIP_VAR** vars, SCIP_Real* vals);
SCIP_RETCODE SCIPaddRow(SCIP* scip, SCIP_ROW* row, SCIP_Bool forcecut, SCIP_Bool* infeasible);
SCIP_RETCODE SCIPreleaseRow(SCIP* scip, SCIP_ROW** row);
SCIP_RETCODE SCIPaddPoolCut(SCIP* scip, SCIP_ROW* row);
SCIP_Bool SCIPisCutEfficacious(SCIP* scip, SCIP_SOL* sol, SCIP_ROW* cut);
SCIP_Real SCIPgetCutEfficacy(SCIP* scip, SCIP_SOL* sol, SCIP_ROW* cut);
const char* SCIProwGetName(SCIP_ROW* row);
SCIP_Real SCIPgetRowSolActivity(SCIP* scip, SCIP_ROW* row, SCIP_SOL* sol);
SCIP_Real SCIProwGetLhs(SCIP_ROW* row);
SCIP_Real SCIProwGetRhs(SCIP_ROW* row);
SCIP_Real SCIProwGetConstant(SCIP_ROW* row);
int SCIProwGetNNonz(SCIP_ROW* row);
SCIP_COL** SCIProwGetCols(SCIP_ROW* row);
SCIP_Real* SCIProwGetVals(SCIP_ROW* row);
SCIP_VAR* SCIPcolGetVar(SCIP_COL* col);
int SCIPgetNCuts(SCIP* scip);
SCIP_ROW** SCIPgetCuts(SCIP* scip);

SCIP_NODE* SCIPgetCurrentNode(SCIP* scip);
SCIP_NODE* SCIPgetRootNode(SCIP* scip);
SCIP_NODE* SCIPgetFocusNode(SCIP* scip);
SCIP_NODE* SCIPnodeGetParent(SCIP_NODE* node);
SCIP_Longint SCIPnodeGetNumber(SCIP_NODE* node);
int SCIPnodeGetDepth(SCIP_NODE* node);
SCIP_Real SCIPnodeGetLowerbound(SCIP_NODE* node);
SCIP_RETCODE SCIPgetChildren(SCIP* scip, SCIP_NODE*** children, int* nchildren);
int SCIPgetDepth(SCIP* scip);
SCIP_Longint SCIPgetNNodes(SCIP* scip);
SCIP_Longint SCIPgetNTotalNodes(SCIP* scip);
SCIP_LPSOLSTAT SCIPgetLPSolstat(SCIP* scip);
SCIP_Real SCIPgetLPObjval(SCIP* scip);
SCIP_Real SCIPgetPrimalbound(SCIP* scip);
SCIP_Real SCIPgetDualbound(SCIP* scip);
SCIP_Real SCIPretransformObj(SCIP* scip, SCIP_Real obj);
SCIP_Real SCIPgetUpperbound(SCIP* scip);
SCIP_Real SCIPgetLowerbound(SCIP* scip);
SCIP_Real SCIPgetGap(SCIP* scip);
SCIP_Real SCIPcomputeGap(SCIP_Real eps, SCIP_Real inf, SCIP_Real primalbound, SCIP_Real dualbound);
SCIP_RETCODE SCIPprintStatistics(SCIP* scip, FILE* file);
SCIP_RETCODE SCIPprintBestSol(SCIP* scip, FILE* file, SCIP_Bool printzeros);
SCIP_RETCODE SCIPwriteOrigProblem(SCIP* scip, const char* filename, const char* extension, SCIP_Bool genericnames);
SCIP_RETCODE SCIPwriteTransProblem(SCIP* scip, const char* filename, const char* extension, SCIP_Bool genericnames);

SCIP_Real SCIPinfinity(SCIP* scip);
SCIP_Real SCIPepsilon(SCIP* scip);
SCIP_Real SCIPfeastol(SCIP* scip);
SCIP_Bool SCIPisInfinity(SCIP* scip, SCIP_Real val);
SCIP_Bool SCIPisEQ(SCIP* scip, SCIP_Real a, SCIP_Real b);
SCIP_Bool SCIPisLT(SCIP* scip, SCIP_Real a, SCIP_Real b);
SCIP_Bool SCIPisLE(SCIP* scip, SCIP_Real a, SCIP_Real b);
SCIP_Bool SCIPisGT(SCIP* scip, SCIP_Real a, SCIP_Real b);
SCIP_Bool SCIPisGE(SCIP* scip, SCIP_Real a, SCIP_Real b);
SCIP_Bool SCIPisZero(SCIP* scip, SCIP_Real val);
SCIP_Bool SCIPisPositive(SCIP* scip, SCIP_Real val);
SCIP_Bool SCIPisNegative(SCIP* scip, SCIP_Real val);
SCIP_Bool SCIPisIntegral(SCIP* scip, SCIP_Real val);
SCIP_Bool SCIPisFeasEQ(SCIP* scip, SCIP_Real a, SCIP_Real b);
SCIP_Bool SCIPisFeasLT(SCIP* scip, SCIP_Real a, SCIP_Real b);
SCIP_Bool SCIPisFeasLE(SCIP* scip, SCIP_Real a, SCIP_Real b);
SCIP_Bool SCIPisFeasGT(SCIP* scip, SCIP_Real a, SCIP_Real b);
SCIP_Bool SCIPisFeasGE(SCIP* scip, SCIP_Real a, SCIP_Real b);
SCIP_Bool SCIPisFeasZero(SCIP* scip, SCIP_Real val);
SCIP_Bool SCIPisFeasPositive(SCIP* scip, SCIP_Real val);
SCIP_Bool SCIPisFeasNegative(SCIP* scip, SCIP_Real val);
SCIP_Bool SCIPisFeasIntegral(SCIP* scip, SCIP_Real val);
SCIP_Real SCIPround(SCIP* scip, SCIP_Real val);
SCIP_Real SCIPfloor(SCIP* scip, SCIP_Real val);
SCIP_Real SCIPceil(SCIP* scip, SCIP_Real val);
SCIP_Real SCIPfeasFloor(SCIP* scip, SCIP_Real val);
SCIP_Real SCIPfeasCeil(SCIP* scip, SCIP_Real val);
/* not used by pctsp now, but likely in a change of it */
SCIP_Real SCIPgetSolTransObj(SCIP* scip, SCIP_SOL* sol);
SCIP_Real SCIPgetSolTime(SCIP* scip, SCIP_SOL* sol);
SCIP_Longint SCIPgetSolNodenum(SCIP* scip, SCIP_SOL* sol);
SCIP_HEUR* SCIPsolGetHeur(SCIP_SOL* sol);
const char* SCIPheurGetName(SCIP_HEUR* heur);
SCIP_Real SCIPgetVarSol(SCIP* scip, SCIP_VAR* var);
SCIP_Bool SCIPvarIsTransformed(SCIP_VAR* var);
SCIP_Bool SCIPvarIsOriginal(SCIP_VAR* var);
SCIP_Bool SCIPvarIsBinary(SCIP_VAR* var);
SCIP_Bool SCIPvarIsActive(SCIP_VAR* var);
SCIP_Real SCIPvarGetLbOriginal(SCIP_VAR* var);
SCIP_Real SCIPvarGetUbOriginal(SCIP_VAR* var);
SCIP_Bool SCIPisTransformed(SCIP* scip);
SCIP_Bool SCIPhasCurrentNodeLP(SCIP* scip);
SCIP_Bool SCIPisStopped(SCIP* scip);
SCIP_Bool SCIPinProbing(SCIP* scip);
SCIP_Real SCIPgetCutoffbound(SCIP* scip);
SCIP_Real SCIPgetDualboundRoot(SCIP* scip);
SCIP_Real SCIPgetLowerboundRoot(SCIP* scip);
SCIP_Real SCIPgetAvgDualbound(SCIP* scip);
SCIP_Real SCIPgetTransGap(SCIP* scip);
SCIP_Real SCIPgetSolvingTime(SCIP* scip);
SCIP_Real SCIPgetTotalTime(SCIP* scip);
SCIP_Real SCIPgetLocalLowerbound(SCIP* scip);
SCIP_Real SCIPgetLocalDualbound(SCIP* scip);
SCIP_Longint SCIPgetNLPs(SCIP* scip);
SCIP_Longint SCIPgetNLPIterations(SCIP* scip);
SCIP_Longint SCIPgetNSolsFound(SCIP* scip);
SCIP_Longint SCIPgetNBestSolsFound(SCIP* scip);
int SCIPgetNNodesLeft(SCIP* scip);
int SCIPgetNLeaves(SCIP* scip);
int SCIPgetNChildren(SCIP* scip);
int SCIPgetNSiblings(SCIP* scip);
int SCIPgetMaxDepth(SCIP* scip);
int SCIPgetPlungeDepth(SCIP* scip);
int SCIPgetNRuns(SCIP* scip);
int SCIPgetNBinVars(SCIP* scip);
int SCIPgetNLPBranchCands(SCIP* scip);
SCIP_Bool SCIPnodeIsActive(SCIP_NODE* node);
SCIP_Real SCIPnodeGetEstimate(SCIP_NODE* node);
SCIP_RETCODE SCIPinterruptSolve(SCIP* scip);
SCIP_RETCODE SCIPcutoffNode(SCIP* scip, SCIP_NODE* node);
SCIP_RETCODE SCIPaddConsNode(SCIP* scip, SCIP_NODE* node, SCIP_CONS* cons, SCIP_NODE* validnode);
SCIP_RETCODE SCIPcreateRowConshdlr(SCIP* scip, SCIP_ROW** row, SCIP_CONSHDLR* conshdlr, const char* name, int len, SCIP_COL** cols, SCIP_Real* vals, SCIP_Real lhs, SCIP_Real rhs, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool removable);
SCIP_Bool SCIProwIsLocal(SCIP_ROW* row);
SCIP_Bool SCIProwIsInLP(SCIP_ROW* row);
SCIP_Real SCIPgetRowActivity(SCIP* scip, SCIP_ROW* row);
SCIP_Real SCIPgetRowFeasibility(SCIP* scip, SCIP_ROW* row);
SCIP_Real SCIPgetRowSolFeasibility(SCIP* scip, SCIP_ROW* row, SCIP_SOL* sol);
SCIP_RETCODE SCIPprintRow(SCIP* scip, SCIP_ROW* row, FILE* file);
SCIP_RETCODE SCIPprintSol(SCIP* scip, SCIP_SOL* sol, FILE* file, SCIP_Bool printzeros);
SCIP_RETCODE SCIPprintCons(SCIP* scip, SCIP_CONS* cons, FILE* file);
SCIP_Bool SCIPsolIsOriginal(SCIP_SOL* sol);
SCIP_RETCODE SCIPincSolVal(SCIP* scip, SCIP_SOL* sol, SCIP_VAR* var, SCIP_Real incval);
SCIP_Real SCIPgetRhsLinear(SCIP* scip, SCIP_CONS* cons);
SCIP_Real SCIPgetLhsLinear(SCIP* scip, SCIP_CONS* cons);
const char* SCIPgetProbName(SCIP* scip);
SCIP_Bool SCIPisSumEQ(SCIP* scip, SCIP_Real a, SCIP_Real b);
SCIP_Bool SCIPisRelEQ(SCIP* scip, SCIP_Real a, SCIP_Real b);
SCIP_Bool SCIPisEfficacious(SCIP* scip, SCIP_Real efficacy);
SCIP_Bool SCIPisScalingIntegral(SCIP* scip, SCIP_Real val, SCIP_Real scalar);
SCIP_Real SCIPfrac(SCIP* scip, SCIP_Real val);
SCIP_RETCODE SCIPbranchVar(SCIP* scip, SCIP_VAR* var, SCIP_NODE** downchild, SCIP_NODE** eqchild, SCIP_NODE** upchild);
SCIP_RETCODE SCIPresetParams(SCIP* scip);
SCIP_RETCODE SCIPresetParam(SCIP* scip, const char* name);
SCIP_RETCODE SCIPgetStringParam(SCIP* scip, const char* name, char** value);
SCIP_RETCODE SCIPgetCharParam(SCIP* scip, const char* name, char* value);
unsigned int SCIPinitializeRandomSeed(SCIP* scip, unsigned int initialseedvalue);
enum SCIP_ParamSetting { SCIP_PARAMSETTING_DEFAULT = 0, SCIP_PARAMSETTING_AGGRESSIVE = 1, SCIP_PARAMSETTING_FAST = 2, SCIP_PARAMSETTING_OFF = 3 };
typedef enum SCIP_ParamSetting SCIP_PARAMSETTING;
SCIP_RETCODE SCIPgetLPBranchCands(SCIP* scip, SCIP_VAR*** lpcands, SCIP_Real** lpcandssol, SCIP_Real** lpcandsfrac, int* nlpcands, int* npriolpcands, int* nfracimplvars);
SCIP_RETCODE SCIPgetSiblings(SCIP* scip, SCIP_NODE*** siblings, int* nsiblings);
SCIP_RETCODE SCIPgetLeaves(SCIP* scip, SCIP_NODE*** leaves, int* nleaves);
int SCIPgetNFixedVars(SCIP* scip);
int SCIPgetNIntVars(SCIP* scip);
int SCIPgetNContVars(SCIP* scip);
int SCIPgetNActiveConss(SCIP* scip);
SCIP_Bool SCIPvarIsIntegral(SCIP_VAR* var);
SCIP_VAR* SCIPvarGetTransVar(SCIP_VAR* var);
SCIP_Real SCIPgetVarRedcost(SCIP* scip, SCIP_VAR* var);
SCIP_Real SCIPgetRowLPFeasibility(SCIP* scip, SCIP_ROW* row);
SCIP_RETCODE SCIPsetSolVals(SCIP* scip, SCIP_SOL* sol, int nvars, SCIP_VAR** vars, SCIP_Real* vals);
SCIP_RETCODE SCIPsetPresolving(SCIP* scip, SCIP_PARAMSETTING paramsetting, SCIP_Bool quiet);
SCIP_RETCODE SCIPsetHeuristics(SCIP* scip, SCIP_PARAMSETTING paramsetting, SCIP_Bool quiet);
SCIP_RETCODE SCIPsetSeparating(SCIP* scip, SCIP_PARAMSETTING paramsetting, SCIP_Bool quiet);
SCIP_VAR* SCIPfindVar(SCIP* scip, const char* name);
SCIP_NODE* SCIPgetBestNode(SCIP* scip);
SCIP_Longint SCIPgetNInfeasibleLeaves(SCIP* scip);
SCIP_Longint SCIPgetNObjlimLeaves(SCIP* scip);
SCIP_Longint SCIPgetNFeasibleLeaves(SCIP* scip);
SCIP_Real SCIPgetPresolvingTime(SCIP* scip);
SCIP_Real SCIPgetFirstPrimalBound(SCIP* scip);
int SCIPgetNCutsFound(SCIP* scip);
int SCIPgetNCutsApplied(SCIP* scip);
int SCIPgetNCutsFoundRound(SCIP* scip);
int SCIPgetNSepaRounds(SCIP* scip);
SCIP_Real SCIPgetFirstLPDualboundRoot(SCIP* scip);
SCIP_Longint SCIPgetNRootLPIterations(SCIP* scip);
SCIP_Real SCIPgetOrigObjoffset(SCIP* scip);
SCIP_Real SCIPgetTransObjscale(SCIP* scip);
SCIP_Real SCIPgetTransObjoffset(SCIP* scip);
SCIP_Real SCIPtransformObj(SCIP* scip, SCIP_Real obj);
SCIP_OBJSENSE SCIPgetObjsense(SCIP* scip);
SCIP_Real SCIPgetLPFeastol(SCIP* scip);
SCIP_Real SCIPdualfeastol(SCIP* scip);
SCIP_Real SCIPsumepsilon(SCIP* scip);
SCIP_RETCODE SCIPreadParams(SCIP* scip, const char* filename);
SCIP_RETCODE SCIPwriteParams(SCIP* scip, const char* filename, SCIP_Bool comments, SCIP_Bool onlychanged);
SCIP_RETCODE SCIPprintOrigProblem(SCIP* scip, FILE* file, const char* extension, SCIP_Bool genericnames);
SCIP_RETCODE SCIPprintTransProblem(SCIP* scip, FILE* file, const char* extension, SCIP_Bool genericnames);
SCIP_HEUR* SCIPfindHeur(SCIP* scip, const char* name);
SCIP_SEPA* SCIPfindSepa(SCIP* scip, const char* name);
SCIP_NODESEL* SCIPfindNodesel(SCIP* scip, const char* name);
SCIP_RETCODE SCIPsetNodeselStdPriority(SCIP* scip, SCIP_NODESEL* nodesel, int priority);
SCIP_RETCODE SCIPcreateChild(SCIP* scip, SCIP_NODE** node, SCIP_Real nodeselprio, SCIP_Real estimate);
SCIP_RETCODE SCIPtightenVarLb(SCIP* scip, SCIP_VAR* var, SCIP_Real newbound, SCIP_Bool force, SCIP_Bool* infeasible, SCIP_Bool* tightened);
SCIP_RETCODE SCIPtightenVarUb(SCIP* scip, SCIP_VAR* var, SCIP_Real newbound, SCIP_Bool force, SCIP_Bool* infeasible, SCIP_Bool* tightened);
SCIP_RETCODE SCIPchgVarBranchPriority(SCIP* scip, SCIP_VAR* var, int branchpriority);
SCIP_Bool SCIPisObjIntegral(SCIP* scip);
SCIP_RETCODE SCIPsetObjIntegral(SCIP* scip);
SCIP_RETCODE SCIPsetObjlimit(SCIP* scip, SCIP_Real objlimit);
SCIP_Real SCIPgetObjlimit(SCIP* scip);
SCIP_Bool SCIPisPrimalboundSol(SCIP* scip);
SCIP_ROW** SCIPgetLPRows(SCIP* scip);
int SCIPgetNLPRows(SCIP* scip);
SCIP_COL** SCIPgetLPCols(SCIP* scip);
int SCIPgetNLPCols(SCIP* scip);
SCIP_Real SCIPcolGetPrimsol(SCIP_COL* col);
SCIP_Real SCIProwGetNorm(SCIP_ROW* row);
SCIP_Bool SCIProwIsModifiable(SCIP_ROW* row);
SCIP_Bool SCIProwIsRemovable(SCIP_ROW* row);
SCIP_Bool SCIPconsIsActive(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsDeleted(SCIP_CONS* cons);
SCIP_RETCODE SCIPaddVarsToRowSameCoef(SCIP* scip, SCIP_ROW* row, int nvars, SCIP_VAR** vars, SCIP_Real val);
SCIP_RETCODE SCIPcreateEmptyRowUnspec(SCIP* scip, SCIP_ROW** row, const char* name, SCIP_Real lhs, SCIP_Real rhs, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool removable);
SCIP_RETCODE SCIPcreateEmptyRowCons(SCIP* scip, SCIP_ROW** row, SCIP_CONS* cons, const char* name, SCIP_Real lhs, SCIP_Real rhs, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool removable);
SCIP_RETCODE SCIPchgRowLhs(SCIP* scip, SCIP_ROW* row, SCIP_Real lhs);
SCIP_RETCODE SCIPchgRowRhs(SCIP* scip, SCIP_ROW* row, SCIP_Real rhs);
SCIP_RETCODE SCIPcaptureRow(SCIP* scip, SCIP_ROW* row);
SCIP_Real SCIPgetRowMinActivity(SCIP* scip, SCIP_ROW* row);
SCIP_Real SCIPgetRowMaxActivity(SCIP* scip, SCIP_ROW* row);
int SCIProwGetIndex(SCIP_ROW* row);
int SCIProwGetNLPNonz(SCIP_ROW* row);
SCIP_Bool SCIProwIsInGlobalCutpool(SCIP_ROW* row);
int SCIPsnprintf(char* t, int len, const char* s, ...);
SCIP_RETCODE SCIPcreateConsBasicSetpart(SCIP* scip, SCIP_CONS** cons, const char* name, int nvars, SCIP_VAR** vars);
SCIP_RETCODE SCIPcreateConsBasicSetpack(SCIP* scip, SCIP_CONS** cons, const char* name, int nvars, SCIP_VAR** vars);
SCIP_RETCODE SCIPcreateConsBasicSetcover(SCIP* scip, SCIP_CONS** cons, const char* name, int nvars, SCIP_VAR** vars);
SCIP_RETCODE SCIPaddCoefKnapsack(SCIP* scip, SCIP_CONS* cons, SCIP_VAR* var, SCIP_Longint weight);
SCIP_RETCODE SCIPchgLhsLinear(SCIP* scip, SCIP_CONS* cons, SCIP_Real lhs);
SCIP_RETCODE SCIPchgRhsLinear(SCIP* scip, SCIP_CONS* cons, SCIP_Real rhs);
SCIP_RETCODE SCIPcaptureCons(SCIP* scip, SCIP_CONS* cons);
SCIP_RETCODE SCIPcatchVarEvent(SCIP* scip, SCIP_VAR* var, SCIP_EVENTTYPE eventtype, SCIP_EVENTHDLR* eventhdlr, SCIP_EVENTDATA* eventdata, int* filterpos);
SCIP_RETCODE SCIPdropVarEvent(SCIP* scip, SCIP_VAR* var, SCIP_EVENTTYPE eventtype, SCIP_EVENTHDLR* eventhdlr, SCIP_EVENTDATA* eventdata, int filterpos);
SCIP_VAR* SCIPeventGetVar(SCIP_EVENT* event);
SCIP_Real SCIPeventGetOldbound(SCIP_EVENT* event);
SCIP_Real SCIPeventGetNewbound(SCIP_EVENT* event);
SCIP_RETCODE SCIPrestartSolve(SCIP* scip);
SCIP_Bool SCIPisInRestart(SCIP* scip);
SCIP_RETCODE SCIPchgVarLbNode(SCIP* scip, SCIP_NODE* node, SCIP_VAR* var, SCIP_Real newbound);
SCIP_RETCODE SCIPchgVarUbNode(SCIP* scip, SCIP_NODE* node, SCIP_VAR* var, SCIP_Real newbound);
SCIP_RETCODE SCIPchgVarLbGlobal(SCIP* scip, SCIP_VAR* var, SCIP_Real newbound);
SCIP_RETCODE SCIPchgVarUbGlobal(SCIP* scip, SCIP_VAR* var, SCIP_Real newbound);
SCIP_RETCODE SCIPgetNegatedVar(SCIP* scip, SCIP_VAR* var, SCIP_VAR** negvar);
SCIP_VAR* SCIPvarGetProbvar(SCIP_VAR* var);
SCIP_Bool SCIPvarIsTransformedOrigvar(SCIP_VAR* var);
SCIP_CONSHDLR** SCIPgetConshdlrs(SCIP* scip);
int SCIPgetNConshdlrs(SCIP* scip);
SCIP_CONS** SCIPconshdlrGetConss(SCIP_CONSHDLR* conshdlr);
int SCIPconshdlrGetNActiveConss(SCIP_CONSHDLR* conshdlr);
SCIP_EVENTHDLR** SCIPgetEventhdlrs(SCIP* scip);
int SCIPgetNEventhdlrs(SCIP* scip);
SCIP_Longint SCIPsolGetNodenum(SCIP_SOL* sol);
SCIP_RETCODE SCIPcreateLPSol(SCIP* scip, SCIP_SOL** sol, SCIP_HEUR* heur);
SCIP_RETCODE SCIPcreatePartialSol(SCIP* scip, SCIP_SOL** sol, SCIP_HEUR* heur);
int SCIPgetNPrioLPBranchCands(SCIP* scip);
int SCIPgetNPseudoBranchCands(SCIP* scip);
SCIP_RETCODE SCIPbranchVarVal(SCIP* scip, SCIP_VAR* var, SCIP_Real val, SCIP_NODE** downchild, SCIP_NODE** eqchild, SCIP_NODE** upchild);
SCIP_RETCODE SCIPgetVarsData(SCIP* scip, SCIP_VAR*** vars, int* nvars, int* nbinvars, int* nintvars, int* nimplvars, int* ncontvars);
SCIP_RETCODE SCIPgetTransformedCons(SCIP* scip, SCIP_CONS* cons, SCIP_CONS** transcons);
SCIP_Bool SCIPconsIsTransformed(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsOriginal(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsGlobal(SCIP_CONS* cons);
SCIP_Bool SCIPisSumLE(SCIP* scip, SCIP_Real val1, SCIP_Real val2);
SCIP_Bool SCIPisSumGE(SCIP* scip, SCIP_Real val1, SCIP_Real val2);
SCIP_Bool SCIPisSumLT(SCIP* scip, SCIP_Real val1, SCIP_Real val2);
SCIP_Bool SCIPisSumGT(SCIP* scip, SCIP_Real val1, SCIP_Real val2);
SCIP_Bool SCIPisSumZero(SCIP* scip, SCIP_Real val);
SCIP_Bool SCIPisRelLE(SCIP* scip, SCIP_Real val1, SCIP_Real val2);
SCIP_Bool SCIPisRelGE(SCIP* scip, SCIP_Real val1, SCIP_Real val2);
SCIP_Bool SCIPisRelLT(SCIP* scip, SCIP_Real val1, SCIP_Real val2);
SCIP_Bool SCIPisRelGT(SCIP* scip, SCIP_Real val1, SCIP_Real val2);
typedef struct BMS_BlkMem BMS_BLKMEM;
typedef struct BMS_BufMem BMS_BUFMEM;
BMS_BLKMEM* SCIPblkmem(SCIP* scip);
BMS_BUFMEM* SCIPbuffer(SCIP* scip);
void* BMSallocBlockMemory_call(BMS_BLKMEM* blkmem, size_t size, const char* filename, int line);
void* BMSallocBlockMemoryArray_call(BMS_BLKMEM* blkmem, size_t num, size_t typesize, const char* filename, int line);
void BMSfreeBlockMemory_call(BMS_BLKMEM* blkmem, void** ptr, size_t size, const char* filename, int line);
void* BMSallocBufferMemoryArray_call(BMS_BUFMEM* buffer, size_t num, size_t typesize, const char* filename, int line);
void BMSfreeBufferMemory_call(BMS_BUFMEM* buffer, void** ptr, const char* filename, int line);
void* BMSallocMemoryArray_call(size_t num, size_t typesize, const char* filename, int line);
void BMSfreeMemory_call(void** ptr, const char* filename, int line);
}
template <class T> static inline T* pctsp_shim_as(T*, void* p) { return static_cast<T*>(p); }
#define PCTSP_SHIM_ALLOC(ptr, x) ((*(ptr) = pctsp_shim_as(*(ptr), (x))) == NULL ? SCIP_NOMEMORY : SCIP_OKAY)
#define SCIPallocBlockMemory(scip, ptr) PCTSP_SHIM_ALLOC(ptr, BMSallocBlockMemory_call(SCIPblkmem(scip), sizeof(**(ptr)), __FILE__, __LINE__))
#define SCIPallocBlockMemoryArray(scip, ptr, num) PCTSP_SHIM_ALLOC(ptr, BMSallocBlockMemoryArray_call(SCIPblkmem(scip), (size_t)(num), sizeof(**(ptr)), __FILE__, __LINE__))
#define SCIPfreeBlockMemory(scip, ptr) BMSfreeBlockMemory_call(SCIPblkmem(scip), (void**)(ptr), sizeof(**(ptr)), __FILE__, __LINE__)
#define SCIPfreeBlockMemoryArray(scip, ptr, num) BMSfreeBlockMemory_call(SCIPblkmem(scip), (void**)(ptr), (size_t)(num) * sizeof(**(ptr)), __FILE__, __LINE__)
#define SCIPallocBufferArray(scip, ptr, num) PCTSP_SHIM_ALLOC(ptr, BMSallocBufferMemoryArray_call(SCIPbuffer(scip), (size_t)(num), sizeof(**(ptr)), __FILE__, __LINE__))
#define SCIPfreeBufferArray(scip, ptr) BMSfreeBufferMemory_call(SCIPbuffer(scip), (void**)(ptr), __FILE__, __LINE__)
#define SCIPfreeBufferArrayNull(scip, ptr) do { if (*(ptr)) SCIPfreeBufferArray(scip, ptr); } while (0)
#define SCIPallocMemoryArray(scip, ptr, num) PCTSP_SHIM_ALLOC(ptr, BMSallocMemoryArray_call((size_t)(num), sizeof(**(ptr)), __FILE__, __LINE__))
#define SCIPfreeMemoryArray(scip, ptr) BMSfreeMemory_call((void**)(ptr), __FILE__, __LINE__)
#define SCIPfreeMemory(scip, ptr) BMSfreeMemory_call((void**)(ptr), __FILE__, __LINE__)
#define SCIPABORT() assert(FALSE)
#define SCIPdebug(x)
#define SCIP_LONGINT_FORMAT "lld"
#define SCIP_REAL_FORMAT "lf"
#endif
