// SCOTCH is not exercised here
#include <cstdio>
#include <cstdlib>
#include <scotch.h>
extern "C" {
SCOTCH_Graph* SCOTCH_graphAlloc() { abort(); } int SCOTCH_graphBuild(SCOTCH_Graph* const, const SCOTCH_Num, const SCOTCH_Num, const SCOTCH_Num* const, const SCOTCH_Num* const, const SCOTCH_Num* const, const SCOTCH_Num* const, const SCOTCH_Num, const SCOTCH_Num* const, const SCOTCH_Num* const) { abort(); }
int SCOTCH_graphCheck(const SCOTCH_Graph* const) { abort(); } SCOTCH_Strat* SCOTCH_stratAlloc() { abort(); } int SCOTCH_stratInit(SCOTCH_Strat* const) { abort(); }
int SCOTCH_graphPart(SCOTCH_Graph* const, const SCOTCH_Num, SCOTCH_Strat* const, SCOTCH_Num* const) { abort(); } void SCOTCH_graphExit(SCOTCH_Graph* const) {} void SCOTCH_stratExit(SCOTCH_Strat* const) {} void SCOTCH_memFree(void* const) {}
}
