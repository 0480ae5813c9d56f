#define VH_PART 2
#include "ops_c.cpp"
