// C43: synchronized_value without variadic templates.
// ENTRY vh_c43_sync_nv | props=C43 | weight=2 | opts=--race | reach=end | bound=synchronize of 3 values by 2 threads in any of 3 orders, without variadic templates
// ENTRY vh_c43_conc_nv | props=C43 | weight=3 | opts=--race | time=300 | reach=end;not owned | bound=vh_c43_conc without variadic templates
// FLAGS -DBOOST_THREAD_VERSION=4
#define VF_NV
#include "c43_value.cpp"
