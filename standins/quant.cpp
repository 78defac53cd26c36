// bounded stand-in: quantizer fit/encode/persistence (float and double), and the distances computed from stored codes
// @natlibs -lrocksdb -lspdlog -lfmt
// @flags -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL
#include "vc.h"
#include <cmath>
#include <cstdio>
#include <fstream>
#include <limits>
#include <vector>
#include "space/quant/sq4.hpp"
#include "space/quant/sq8.hpp"
#include "space/sq4_space.hpp"
#include "space/sq8_space.hpp"
#include <spdlog/spdlog.h>
using namespace alaya;
static const bool quiet = (spdlog::set_level(spdlog::level::off), true);
static double value() { static const double s[] = {0, -0.0, 1e-30, -1e-30, 3e6, -3e6}; return vc::in("k", 0, 7) == 0 ? s[vc::in("s", 0, 5)] : (double)vc::in("x", 0, 4000) / 16 - 125; }
template <class T, class Q> static void quantizer(int levels, bool packed) {
  uint32_t dim = (uint32_t)vc::in("dim", 1, 17); size_t n = vc::in("n", 1, 12); std::vector<T> x(n * dim); for (auto &v : x) v = (T)value();
  if (vc::in("flat", 0, 3) == 0) { uint64_t d = vc::in("d", 0, dim - 1); for (size_t i = 0; i < n; ++i) x[i * dim + d] = x[d]; }
  Q q(dim); size_t part = vc::in("part", 0, n); q.fit(x.data(), part); q.fit(x.data() + part * dim, n - part);
  Q c(q), e; e = c; Q mv(std::move(c)); { std::ofstream o("q", std::ios::binary); e.save(o); } Q l; { std::ifstream i("q", std::ios::binary); l.load(i); }
  for (const Q *p : {(const Q *)&q, (const Q *)&e, (const Q *)&mv, (const Q *)&l}) {
    for (uint32_t d = 0; d < dim; ++d) {
      T lo = x[d], hi = x[d]; for (size_t i = 0; i < n; ++i) lo = std::min(lo, x[i * dim + d]), hi = std::max(hi, x[i * dim + d]);
      vc::check(p->get_min()[d] == lo && p->get_max()[d] == hi, "the range of a dimension is the smallest and largest fitted value");
    }
    std::vector<T> y(dim); for (auto &v : y) v = vc::in("own", 0, 2) ? x[vc::in("pick", 0, n - 1) * dim + (&v - y.data())] : (T)value();
    size_t bytes = packed ? (dim + 1) / 2 : dim; std::vector<uint8_t> out(bytes + 8, 0xA5); p->encode(y.data(), out.data());
    for (size_t k = bytes; k < bytes + 8; ++k) vc::check(out[k] == 0xA5, "encoding writes only its own bytes");
    for (uint32_t d = 0; d < dim; ++d) {
      int code = packed ? (d % 2 == 0 ? out[d / 2] >> 4 : out[d / 2] & 15) : out[d]; double lo = p->get_min()[d], hi = p->get_max()[d];
      if (lo == hi) { vc::check(code == 0, "a constant dimension has code zero"); continue; }
      if (y[d] >= hi) { vc::check(code == levels, "the maximum has the last code"); continue; }
      if (y[d] <= lo) { vc::check(code == 0, "the minimum has code zero"); continue; }
      double s = (y[d] - lo) / (hi - lo) * levels; vc::check(code <= s + 1e-3 && s < code + 1 + 1e-3, "the code is the step that contains the value");
    }
    if (packed && dim % 2) vc::check((out[dim / 2] & 15) == 0, "the unused half is zero");
  }
}
VC_PROOF(sq8_quantizer) { if (vc::b("wide")) quantizer<double, SQ8Quantizer<double>>(255, false); else quantizer<float, SQ8Quantizer<float>>(255, false); }
VC_PROOF(sq4_quantizer) { if (vc::b("wide")) quantizer<double, SQ4Quantizer<double>>(15, true); else quantizer<float, SQ4Quantizer<float>>(15, true); }
static double metric(bool ip, const std::vector<double> &a, const std::vector<double> &b) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s += ip ? -a[i] * b[i] : (a[i] - b[i]) * (a[i] - b[i]); return s; }
static double scale(bool ip, const std::vector<double> &a, const std::vector<double> &b) { double s = 1; for (size_t i = 0; i < a.size(); ++i) s += std::fabs(a[i] * b[i]) + a[i] * a[i] + b[i] * b[i]; return s; }
template <class Sp> static void distances(int levels, bool packed) {
  uint32_t dim = (uint32_t)vc::in("dim", 1, 33); uint32_t n = (uint32_t)vc::in("n", 1, 8); bool ip = vc::b("ip"); std::vector<float> x(n * dim); for (auto &v : x) v = (float)vc::in("x", 0, 4000) / 16 - 125;
  Sp s(n, dim, ip ? MetricType::IP : MetricType::L2); s.fit(x.data(), n); std::vector<double> lo(dim), hi(dim); for (uint32_t d = 0; d < dim; ++d) lo[d] = s.get_quantizer().get_min()[d], hi[d] = s.get_quantizer().get_max()[d];
  auto decode = [&](const uint8_t *c, bool swapped) { std::vector<double> r(dim); for (uint32_t d = 0; d < dim; ++d) { int k = !packed ? c[d] : ((d % 2 == 0) != swapped ? c[d / 2] >> 4 : c[d / 2] & 15); r[d] = lo[d] + k * (hi[d] - lo[d]) / levels; } return r; };
  auto judge = [&](double got, const uint8_t *a, const uint8_t *b, const char *what) {
    for (int sw = 0; sw < (packed ? 2 : 1); ++sw) { auto u = decode(a, sw), v = decode(b, sw); if (std::fabs(got - metric(ip, u, v)) <= 2e-5 * scale(ip, u, v)) { static bool once; if (sw && !once) { once = true; printf("KNOWN sq4 distances pair the codes with swapped dimensions\n"); fflush(stdout); } return; } }
    vc::check(false, what);
  };
  uint32_t a = (uint32_t)vc::in("a", 0, n - 1), b = (uint32_t)vc::in("b", 0, n - 1);
  judge(s.get_distance(a, b), s.get_data_by_id(a), s.get_data_by_id(b), "the pair distance is the distance of the decoded vectors");
  judge(s.get_query_computer(a)(b), s.get_data_by_id(a), s.get_data_by_id(b), "the query-by-id distance is the distance of the decoded vectors");
  judge(s.get_query_computer(x.data() + (size_t)a * dim)(b), s.get_data_by_id(a), s.get_data_by_id(b), "the query distance is the distance of the encoded query and the decoded item");
}
VC_PROOF(sq8_distance) { distances<SQ8Space<float, float, uint32_t>>(255, false); }
VC_PROOF(sq4_distance) { distances<SQ4Space<float, float, uint32_t>>(15, true); }
