#include "run.hpp"
using namespace vt;
template <int F> using TI = TA<int, F>;
VT_CONFIG(c7_m6_s5_int, int, TI<0>, 5 * sizeof(int), 16 + 16 * 6, 0, true);
VT_CONFIG(c8_default_int, int, std::allocator<int>, 512, 512, POCMA, false);
