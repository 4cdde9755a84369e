#include "run.hpp"
using namespace vt;
template <int F> using TP = TA<Pod, F>;
VT_CONFIG(c5_m4_s4_pod, Pod, TP<POCCA | POCMA | POCS | SOCC>, 4 * sizeof(Pod), 16 + 16 * 4, POCCA | POCMA | POCS | SOCC, true);
VT_CONFIG(c6_m3_s1_int, int, std::allocator<int>, 1, 1, POCMA, false);
