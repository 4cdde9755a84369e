#include "run.hpp"
using namespace vt;
using EC = El<true>; using EM = El<false>;
template <int F> using TC = TA<EC, F>; template <int F> using TM = TA<EM, F>;
VT_CONFIG(c3_m5_s3, EC, TC<POCS | SOCC>, 3 * sizeof(EC), 16 + 16 * 5, POCS | SOCC, true);
VT_CONFIG(c4_m3_s2_mo, EM, TM<POCMA | POCS>, 2 * sizeof(EM), 16 + 16 * 3, POCMA | POCS, true);
