#define VH_PART 2
#include "ops_b.cpp"
