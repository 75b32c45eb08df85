// C28: with_lock_guard without variadic templates.
// ENTRY vh_c28_with_nv | props=C28 | weight=2 | reach=end;thrown;inner | bound=with_lock_guard with 0 to 4 arguments, functors, function pointers and lambdas, in the form without variadic templates
#define VF_NV
#include "c28_scoped.cpp"
