// bounded stand-in: the fast Walsh-Hadamard kernels (inline assembly) against the definition, on exact small integers
// @flags -mavx2
#include "vc.h"
#include <bit>
#include <vector>
#include "simd/fht.hpp"
using namespace alaya::simd;
static void one(int lg, void (*f)(float *), const std::vector<float> &in, const std::vector<float> &want, const char *what) {
  std::vector<float> b(in.size() + 32, 77.0f); std::copy(in.begin(), in.end(), b.begin() + 16);
  f(b.data() + 16);
  for (size_t k = 0; k < in.size(); ++k) vc::check(b[16 + k] == want[k], what);
  for (size_t k = 0; k < 16; ++k) vc::check(b[k] == 77.0f && b[16 + in.size() + k] == 77.0f, "nothing outside the buffer is written");
}
VC_PROOF(fht_kernels) {
  int lg = (int)vc::in("log", 6, 11); size_t n = (size_t)1 << lg; std::vector<float> v(n), w(n);
  if (vc::b("basis")) v[vc::in("k", 0, n - 1)] = 1; else { const int8_t *r = vc::buf<int8_t>("v", n); for (size_t k = 0; k < n; ++k) v[k] = r[k]; }
  std::vector<double> t(v.begin(), v.end());                       // the definition, by halves
  for (size_t h = 1; h < n; h *= 2) for (size_t i = 0; i < n; i += 2 * h) for (size_t j = i; j < i + h; ++j) { double a = t[j], b = t[j + h]; t[j] = a + b; t[j + h] = a - b; }
  for (size_t k = 0; k < n; ++k) w[k] = (float)t[k];
  { size_t p = vc::in("row", 0, n - 1); double s = 0; for (size_t k = 0; k < n; ++k) s += (std::popcount(k & p) & 1) ? -v[k] : v[k]; vc::check(s == t[p], "oracle agrees with the matrix definition"); }
  using F = void (*)(float *); bool z = get_cpu_features().avx512f_;
  static const F g[] = {fwht_generic_template<6>, fwht_generic_template<7>, fwht_generic_template<8>, fwht_generic_template<9>, fwht_generic_template<10>, fwht_generic_template<11>};
  one(lg, g[lg - 6], v, w, "generic transform");
#if defined(ALAYA_ARCH_X86)
  static const F a[] = {helper_float_6_avx2, helper_float_7_avx2, helper_float_8_avx2, helper_float_9_avx2, helper_float_10_avx2, helper_float_11_avx2};
  static const F x[] = {helper_float_6_avx512, helper_float_7_avx512, helper_float_8_avx512, helper_float_9_avx512, helper_float_10_avx512, helper_float_11_avx512};
  one(lg, a[lg - 6], v, w, "AVX2 transform"); if (z) one(lg, x[lg - 6], v, w, "AVX-512 transform");
#endif
  static int sel; sel = lg; one(lg, [](float *b) { vc::check(fht_float(b, sel) == 0, "supported size accepted"); }, v, w, "dispatched transform");
}
VC_PROOF(fht_sizes) { int lg = (int)vc::in("log", 0, 40); if (lg >= 6 && lg <= 11) return; float b[4] = {1, 2, 3, 4}; vc::check(fht_float(b, lg) == 1 && b[0] == 1 && b[3] == 4, "unsupported sizes are rejected and leave the data alone"); }
