#ifndef PCTSP_SHIM_MSGDEF_H
#define PCTSP_SHIM_MSGDEF_H
#include "scip/scip.h"
extern "C" SCIP_RETCODE SCIPcreateMessagehdlrDefault(SCIP_MESSAGEHDLR** messagehdlr, SCIP_Bool bufferedoutput, const char* filename, SCIP_Bool quiet);
#endif
