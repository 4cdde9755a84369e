#include "run.hpp"
using namespace vt;
using EC = El<true>;
// pointers that are not plain; elements that are equal with different bytes
template <int F> using TFE = TF<EC, F>; template <int F> using TFI = TF<int, F>;
VT_CONFIG(cB_m4_s2_fancy, EC, TFE<POCMA>, 2 * sizeof(EC), 16 + 16 * 4, POCMA, true);
VT_CONFIG(cC_m3_s3_fancy_int, int, TFI<POCS | CONS>, 3 * sizeof(int), 16 + 16 * 3, POCS | CONS, true);
VT_CONFIG(cD_m3_s4_double, double, std::allocator<double>, 4 * sizeof(double), 16 + 16 * 3, POCMA, false);
