#include "run.hpp"
using namespace vt;
// large segments
VT_BIG(b3_seg_m4_s600, int, std::allocator<int>, 600 * sizeof(int), 16 + 16 * 4, POCMA, false);
VT_BIG(b4_seg_m3_s70000, int, std::allocator<int>, 70000 * sizeof(int), 1, POCMA, false);
