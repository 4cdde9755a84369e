#include "run.hpp"
using namespace vt;
// many levels; wide nodes
VT_BIG(b1_deep_m3_s1, int, std::allocator<int>, 1, 1, POCMA, false);
VT_BIG(b2_wide_m400_s2, int, std::allocator<int>, 2 * sizeof(int), 16 + 16 * 400, POCMA, false);
