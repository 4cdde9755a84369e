#include "run.hpp"
using namespace vt;
// element types of which the type traits say other things
template <int F> using TH = TA<HA, F>; template <int F> using TS = TA<short, F>;
VT_CONFIG(cE_m3_s3_ha, HA, TH<POCCA | SOCC>, 3 * sizeof(HA), 16 + 16 * 3, POCCA | SOCC, true);
VT_CONFIG(cF_m4_s2_td, TD, std::allocator<TD>, 2 * sizeof(TD), 16 + 16 * 4, POCMA, false);
VT_CONFIG(cG_m3_s4_short, short, TS<CONS>, 4 * sizeof(short), 16 + 16 * 3, CONS, true);
VT_CONFIG(cH_m3_s9_schar, signed char, std::allocator<signed char>, 9, 16 + 16 * 3, POCMA, false);
