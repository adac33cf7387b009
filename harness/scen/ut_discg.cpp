// C21 for all sizes: the templates are instantiated at three distinguished sizes that stand for symbolic ones
// (see "generic instantiation" in DESIGN.md); never compiled to a binary.
#define V_GENERIC_SIZES
#include "ut_disc.cpp"
