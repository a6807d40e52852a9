/* objscip.cpp without the recording of enforcement that the checks use */
#include <string>
#include "scip/scip.h"
namespace pctspshim {
bool spying() { return false; }
std::string before_enforcement(SCIP*) { return ""; }
void after_enforcement(SCIP*, const char*, const std::string&, SCIP_RESULT) {}
}
