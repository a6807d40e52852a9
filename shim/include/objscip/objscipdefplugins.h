#ifndef PCTSP_SHIM_OBJDEFPLUG_H
#define PCTSP_SHIM_OBJDEFPLUG_H
#include "objscip/objscip.h"
#include "scip/scipdefplugins.h"
#endif
