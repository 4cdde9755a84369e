#include "run.hpp"
using namespace vt;
using EC = El<true>;
template <int F> using TC = TA<EC, F>; 
VT_CONFIG(c9_default_el, EC, TC<CONS>, 512, 512, CONS, true);
VT_CONFIG(cA_m4_s3_int, int, std::allocator<int>, 12, 16 + 16 * 4, POCMA, false);
