// scalar quantizers: codes, ranges, packing
// @proof * mode=int fl=real
#include "vc.h"
#include "space/quant/sq8.hpp"
#include "space/quant/sq4.hpp"
using Q8 = alaya::SQ8Quantizer<float>; using Q4 = alaya::SQ4Quantizer<float>;
template <class Q> static void codes(double levels) {
  Q q; float x = vc::f32("x"), lo = vc::f32("lo"), hi = vc::f32("hi"); vc::assume(lo <= hi);
  uint8_t c = q.quantize(x, lo, hi);
  vc::check(c <= levels, "codes fit the bit width");
  if (x >= hi) vc::check(c == (lo == hi ? 0 : levels), "values at or above the maximum take the last code");
  if (x <= lo) vc::check(c == 0 || x >= hi, "values at or below the minimum take code zero");
#ifdef VC_SYM
  double s = ((double)x - lo) * levels, r = (double)hi - lo; 
  if (lo < x) { if (x < hi) vc::check((double)c * r <= s && s < ((double)c + 1) * r, "the code is the step that contains the value"); }
#else
  if (lo < x && x < hi) { double s = ((double)x - lo) * levels / ((double)hi - lo); vc::check(c <= s + 1e-2 && s < c + 1 + 1e-2, "the code is the step that contains the value"); }
#endif
}
VC_PROOF(sq8_codes) { codes<Q8>(255); }
VC_PROOF(sq4_codes) { codes<Q4>(15); }
template <class Q> static void monotone() {
  Q q; float x = vc::f32("x"), y = vc::f32("y"), lo = vc::f32("lo"), hi = vc::f32("hi"); vc::assume((lo <= hi) & (x <= y));
  vc::check(q.quantize(x, lo, hi) <= q.quantize(y, lo, hi), "quantization preserves order");
}
VC_PROOF(sq8_monotone) { monotone<Q8>(); }
VC_PROOF(sq4_monotone) { monotone<Q4>(); }
template <class Q> struct Fx {
  Q q; uint32_t n; float *lo, *hi; const float *x;
  Fx() : q() { n = (uint32_t)vc::len("n", 0, 20); vc::assume(n < 0xFFFFFFFFu); q.dim_ = n; vc::vec(q.min_vector_, "lo", n, n); vc::vec(q.max_vector_, "hi", n, n); lo = q.min_vector_.data(); hi = q.max_vector_.data(); x = vc::buf<float>("x", n); }
};
VC_PROOF(sq8_encode) {
  Fx<Q8> f; uint8_t *out = vc::buf<uint8_t>("out", f.n); f.q.encode(f.x, out);
  uint64_t k = vc::u64("k"); vc::assume(k < f.n); vc::check(out[k] == f.q.quantize(f.x[k], f.lo[k], f.hi[k]), "each coordinate is quantized with its own range");
}
VC_PROOF(sq4_encode) {
  Fx<Q4> f; uint64_t m = ((uint64_t)f.n + 1) / 2; uint8_t *out = vc::buf<uint8_t>("out", m);
  f.q.encode(f.x, out);
  uint64_t k = vc::u64("k"); vc::assume(k < m); uint8_t b = out[k];
  vc::check((b >> 4) == f.q.quantize(f.x[2 * k], f.lo[2 * k], f.hi[2 * k]), "even coordinates are stored in the high half of a byte");
  if (2 * k + 1 < f.n) vc::check((b & 15) == f.q.quantize(f.x[2 * k + 1], f.lo[2 * k + 1], f.hi[2 * k + 1]), "odd coordinates are stored in the low half"); else vc::check((b & 15) == 0, "a missing last coordinate is stored as zero");
}
template <class Q> static void fits() {
  uint64_t dim = vc::len("dim", 1, 6), cnt = vc::len("count", 0, 6); vc::assume((dim <= 1 << 20) & (cnt <= 1ULL << 36)); const float *x = vc::buf<float>("x", dim * cnt);
  Q q((uint32_t)dim);
  uint64_t d = vc::u64("d"), v = vc::u64("v"); vc::assume((d < dim) & (v < cnt)); const float *lo = q.get_min(), *hi = q.get_max(); vc::assume(v * dim + d < dim * cnt); float y0 = x[v * dim + d];
  auto rows = [&](uint64_t t) { return !(v < t) || (lo[d] <= y0 && y0 <= hi[d]); };
  auto cols = [&](uint64_t t) { return !(v < vc::outer() || (v == vc::outer() && d < t)) || (lo[d] <= y0 && y0 <= hi[d]); };
  vc::loop("fit#0", rows); vc::loop("fit#1", cols);
  q.fit(x, cnt);
  float y = x[v * dim + d]; vc::check(q.get_min()[d] <= y, "the minimum is below every fitted value"); vc::check(y <= q.get_max()[d], "the maximum is above every fitted value");
}
VC_PROOF(sq8_fit) { fits<Q8>(); }
VC_PROOF(sq4_fit) { fits<Q4>(); }
