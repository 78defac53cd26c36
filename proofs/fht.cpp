// fast Walsh-Hadamard kernels, inline assembly included, against the Sylvester recursion over the reals
// @proof * fl=real native=0 unroll=5000
// @flags -mavx2
#include "vc.h"
#include "simd/fht.hpp"
using namespace alaya::simd;
template <int LG, class F> static void fht(F f) {
  constexpr int N = 1 << LG; float *b = vc::buf<float>("b", N); float w[N];
  for (int k = 0; k < N; ++k) w[k] = b[k];
  for (int h = 1; h < N; h *= 2) for (int i = 0; i < N; i += 2 * h) for (int j = i; j < i + h; ++j) { float x = w[j], y = w[j + h]; w[j] = x + y; w[j + h] = x - y; }
  f(b);
  for (int k = 0; k < N; ++k) vc::check(b[k] == w[k], "every output is the Walsh-Hadamard transform of the input");
}
VC_PROOF(fht6_generic) { fht<6>(fwht_generic_template<6>); }
VC_PROOF(fht6_avx2) { fht<6>(helper_float_6_avx2); }
VC_PROOF(fht6_avx512) { fht<6>(helper_float_6_avx512); }
VC_PROOF(fht7_generic) { fht<7>(fwht_generic_template<7>); }
VC_PROOF(fht7_avx2) { fht<7>(helper_float_7_avx2); }
VC_PROOF(fht7_avx512) { fht<7>(helper_float_7_avx512); }
VC_PROOF(fht8_generic) { fht<8>(fwht_generic_template<8>); }
VC_PROOF(fht8_avx2) { fht<8>(helper_float_8_avx2); }
VC_PROOF(fht8_avx512) { fht<8>(helper_float_8_avx512); }
VC_PROOF(fht9_generic) { fht<9>(fwht_generic_template<9>); }
VC_PROOF(fht9_avx2) { fht<9>(helper_float_9_avx2); }
VC_PROOF(fht9_avx512) { fht<9>(helper_float_9_avx512); }
VC_PROOF(fht10_generic) { fht<10>(fwht_generic_template<10>); }
VC_PROOF(fht10_avx2) { fht<10>(helper_float_10_avx2); }
VC_PROOF(fht10_avx512) { fht<10>(helper_float_10_avx512); }
VC_PROOF(fht11_generic) { fht<11>(fwht_generic_template<11>); }
VC_PROOF(fht11_avx2) { fht<11>(helper_float_11_avx2); }
VC_PROOF(fht11_avx512) { fht<11>(helper_float_11_avx512); }
