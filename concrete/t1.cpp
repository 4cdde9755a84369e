#include "run.hpp"
using namespace vt;
using EC = El<true>; using EM = El<false>;
template <int F> using TC = TA<EC, F>;
VT_CONFIG(c1_m3_s1, EC, TC<POCMA | CONS>, 1 * sizeof(EC), 16 + 16 * 3, POCMA | CONS, true);
VT_CONFIG(c2_m4_s2, EC, TC<POCCA>, 2 * sizeof(EC), 16 + 16 * 4, POCCA, true);
