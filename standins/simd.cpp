// bounded stand-in: the kernels and dispatchers outside the verifier's reach (byte shuffles on 4-bit codes, CPU dispatch)
// @flags -mavx512f -mavx512bw -mavx512dq -mavx512vl -mfma -mavx2
#include "vc.h"
#include <cmath>
#include "simd/distance_l2.hpp"
#include "simd/distance_ip.hpp"
using namespace alaya::simd;
struct Acc { double s = 0, m = 0; void add(double t) { s += t; m += std::fabs(t); } };
static void same(float r, Acc a, double sign, const char *what) { vc::check(std::fabs((double)r - sign * a.s) <= 2e-5 * a.m + 1e-30, what); }
static void all_kernels(int kind) {
  uint64_t n = vc::in("n", 0, 200), w = kind == 4 ? (n + 1) / 2 : n;
  const float *mn = vc::buf<float>("min", n), *mx = vc::buf<float>("max", n);
  if (kind == 0) {
    const float *x = vc::buf<float>("x", n), *y = vc::buf<float>("y", n); Acc l, i;
    for (uint64_t k = 0; k < n; ++k) { double d = (double)x[k] - y[k]; l.add(d * d); i.add((double)x[k] * y[k]); }
    same(l2_sqr_generic(x, y, n), l, 1, "l2 generic"); same(l2_sqr_avx2(x, y, n), l, 1, "l2 avx2"); same(l2_sqr_avx2_diskann_compat(x, y, n), l, 1, "l2 avx2 compat");
    same(ip_sqr_generic(x, y, n), i, -1, "ip generic"); same(ip_sqr_avx2(x, y, n), i, -1, "ip avx2");
    if (get_cpu_features().avx512f_) { same(l2_sqr_avx512(x, y, n), l, 1, "l2 avx512"); same(ip_sqr_avx512(x, y, n), i, -1, "ip avx512"); }
    same(get_l2_sqr_func()(x, y, n), l, 1, "dispatched l2"); same(get_ip_sqr_func()(x, y, n), i, -1, "dispatched ip");
    same((l2_sqr<float, float>(x, y, n)), l, 1, "public l2"); same((ip_sqr<float, float>(x, y, n)), i, -1, "public ip");
    return;
  }
  const uint8_t *x = vc::buf<uint8_t>("x", w), *y = vc::buf<uint8_t>("y", w); Acc l, i;
  const double inv = kind == 8 ? (double)(1.0F / 255.0F) : (double)(1.0F / 15.0F);
  std::vector<double> dmn(mn, mn + n), dmx(mx, mx + n);
  for (uint64_t k = 0; k < n; ++k) {
    double a = kind == 8 ? x[k] : k % 2 ? x[k / 2] >> 4 : x[k / 2] & 15, b = kind == 8 ? y[k] : k % 2 ? y[k / 2] >> 4 : y[k / 2] & 15, s = ((double)mx[k] - mn[k]) * inv;
    l.add((a - b) * s * ((a - b) * s)); i.add((mn[k] + a * s) * (mn[k] + b * s)); i.m += std::fabs(mn[k]) * (std::fabs(mn[k]) + std::fabs(mx[k])) * 2;
  }
  auto go = [&](auto l2, auto ip, const char *what) { same(l2(x, y, n, mn, mx), l, 1, what); same(ip(x, y, n, mn, mx), i, -1, what); };
  if (kind == 8) {
    go(l2_sqr_sq8_generic, ip_sqr_sq8_generic, "sq8 generic"); go(l2_sqr_sq8_avx2, ip_sqr_sq8_avx2, "sq8 avx2");
    if (get_cpu_features().avx512f_) go(l2_sqr_sq8_avx512, ip_sqr_sq8_avx512, "sq8 avx512");
    go(get_l2_sqr_sq8_func(), get_ip_sqr_sq8_func(), "sq8 dispatched"); go(l2_sqr_sq8<float, float>, ip_sqr_sq8<float, float>, "sq8 public");
    same((l2_sqr_sq8<double, float>(x, y, n, dmn.data(), dmx.data())), l, 1, "sq8 double"); same((ip_sqr_sq8<double, float>(x, y, n, dmn.data(), dmx.data())), i, -1, "sq8 double");
  } else {
    go(l2_sqr_sq4_generic, ip_sqr_sq4_generic, "sq4 generic"); go(l2_sqr_sq4_avx2, ip_sqr_sq4_avx2, "sq4 avx2");
    if (get_cpu_features().avx512f_) go(l2_sqr_sq4_avx512, ip_sqr_sq4_avx512, "sq4 avx512");
    go(get_l2_sqr_sq4_func(), get_ip_sqr_sq4_func(), "sq4 dispatched"); go(l2_sqr_sq4<float, float>, ip_sqr_sq4<float, float>, "sq4 public");
    same((l2_sqr_sq4<double, float>(x, y, n, dmn.data(), dmx.data())), l, 1, "sq4 double"); same((ip_sqr_sq4<double, float>(x, y, n, dmn.data(), dmx.data())), i, -1, "sq4 double");
  }
}
VC_PROOF(fp32_kernels) { all_kernels(0); }
VC_PROOF(sq8_kernels) { all_kernels(8); }
VC_PROOF(sq4_kernels) { all_kernels(4); }
