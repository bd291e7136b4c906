// Output-only facilities that get empty bodies.
#include "BF.h"
#include "bddDump.h"
void BF_newDumpDot(const VariableInfoContainer &, const BF &, const char *, const std::string) {}
