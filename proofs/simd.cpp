// SIMD distance kernels against the scalar sum over the reals
// @proof * fl=real
// @flags -mavx512f -mavx512bw -mavx512dq -mavx512vl -mfma -mavx2
#include "vc.h"
#include "simd/distance_l2.hpp"
#include "simd/distance_ip.hpp"
using namespace alaya::simd;
template <class F, class T> static void l2(F f, T term, double sign = 1) {
  uint64_t n = vc::len("n", 0, 150);
  const float *x = vc::buf<float>("x", n), *y = vc::buf<float>("y", n);
  double s = vc::sum("S", n, [=](uint64_t k) { return term(x[k], y[k]); });
  float r = f(x, y, (size_t)n);
  vc::check(vc::near(r, sign * s, 1000.0), "the kernel returns the exact sum over all coordinates");
}
static double dl2(float a, float b) { double d = (double)a - (double)b; return d * d; }
static double dip(float a, float b) { return (double)a * (double)b; }
VC_PROOF(l2_generic) { l2(l2_sqr_generic, dl2); }
VC_PROOF(l2_avx2) { l2(l2_sqr_avx2, dl2); }
VC_PROOF(l2_avx2_compat) { l2(l2_sqr_avx2_diskann_compat, dl2); }
VC_PROOF(l2_avx512) { l2(l2_sqr_avx512, dl2); }
VC_PROOF(ip_generic) { l2(ip_sqr_generic, dip, -1); }
VC_PROOF(ip_avx2) { l2(ip_sqr_avx2, dip, -1); }
VC_PROOF(ip_avx512) { l2(ip_sqr_avx512, dip, -1); }
// ---------------------------------------------------------------- scalar-quantized codes
template <class F, class T> static void sq8(F f, T term, double sign = 1) {
  uint64_t n = vc::len("n", 0, 100);
  const uint8_t *x = vc::buf<uint8_t>("x", n), *y = vc::buf<uint8_t>("y", n);
  const float *mn = vc::buf<float>("min", n), *mx = vc::buf<float>("max", n);
  double s = vc::sum("S", n, [=](uint64_t k) { return term((double)x[k], (double)y[k], (double)mn[k], (double)mx[k], (double)(1.0F / 255.0F)); });
  float r = f(x, y, (size_t)n, mn, mx);
  vc::check(vc::near(r, sign * s, 1000.0), "the kernel returns the exact sum over the dequantized coordinates");
}
template <class F, class T> static void sq4(F f, T term, double sign = 1) {
  uint64_t n = vc::len("n", 0, 100), h = (n + 1) / 2;
  const uint8_t *x = vc::buf<uint8_t>("x", h), *y = vc::buf<uint8_t>("y", h);
  const float *mn = vc::buf<float>("min", n), *mx = vc::buf<float>("max", n);
  const double inv = (double)(1.0F / 15.0F);
  auto lo = [=](uint64_t k) { return term((double)(x[k] & 15), (double)(y[k] & 15), (double)mn[2 * k], (double)mx[2 * k], inv); };
  auto hi = [=](uint64_t k) { return term((double)(x[k] >> 4), (double)(y[k] >> 4), (double)mn[2 * k + 1], (double)mx[2 * k + 1], inv); };
  double s = vc::sum("S", h, [=](uint64_t k) { return 2 * k + 1 < n ? lo(k) + hi(k) : lo(k); });
  float r = f(x, y, (size_t)n, mn, mx);
  vc::check(vc::near(r, sign * s, 1000.0), "the kernel returns the exact sum over the dequantized coordinates");
}
static double ql2(double x, double y, double mn, double mx, double inv) { double d = (x - y) * ((mx - mn) * inv); return d * d; }
static double qip(double x, double y, double mn, double mx, double inv) { double s = (mx - mn) * inv; return (mn + x * s) * (mn + y * s); }
VC_PROOF(l2_sq8_generic) { sq8(l2_sqr_sq8_generic, ql2); }
VC_PROOF(l2_sq8_avx2) { sq8(l2_sqr_sq8_avx2, ql2); }
VC_PROOF(l2_sq8_avx512) { sq8(l2_sqr_sq8_avx512, ql2); }
VC_PROOF(ip_sq8_generic) { sq8(ip_sqr_sq8_generic, qip, -1); }
VC_PROOF(ip_sq8_avx2) { sq8(ip_sqr_sq8_avx2, qip, -1); }
VC_PROOF(ip_sq8_avx512) { sq8(ip_sqr_sq8_avx512, qip, -1); }
VC_PROOF(l2_sq4_generic) { sq4(l2_sqr_sq4_generic, ql2); }
VC_PROOF(ip_sq4_generic) { sq4(ip_sqr_sq4_generic, qip, -1); }
// ---------------------------------------------------------------- generic templates (non-float data)
template <class T, class F, class G> static void tmpl(F f, G term, double sign = 1) {
  uint64_t n = vc::len("n", 0, 60);
  const T *x = vc::buf<T>("x", n), *y = vc::buf<T>("y", n);
  double s = vc::sum("S", n, [=](uint64_t k) { return term((double)x[k], (double)y[k]); });
  float r = f(x, y, (size_t)n);
  vc::check(vc::near(r, sign * s, 100000.0), "the template returns the exact sum over all coordinates");
}
static double tl2(double a, double b) { return (a - b) * (a - b); }
static double tip(double a, double b) { return a * b; }
VC_PROOF(l2_u8) { tmpl<uint8_t>(l2_sqr<uint8_t, float>, tl2); }
VC_PROOF(l2_i8) { tmpl<int8_t>(l2_sqr<int8_t, float>, tl2); }
VC_PROOF(l2_f64) { tmpl<double>(l2_sqr<double, float>, tl2); }
VC_PROOF(ip_u8) { tmpl<uint8_t>(ip_sqr<uint8_t, float>, tip, -1); }
VC_PROOF(ip_i8) { tmpl<int8_t>(ip_sqr<int8_t, float>, tip, -1); }
