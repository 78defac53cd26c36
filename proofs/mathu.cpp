// integer helpers used for sizes and alignment
// @proof * mode=int
// @proof log_u64 mode=bv
// @proof log_u32 mode=bv
// @proof log_u16 mode=bv
// @proof log_i32 mode=bv
// @proof pow2 mode=bv
// @proof round_pow2 mode=bv
// @proof round_pow2_u32 mode=bv
#include "vc.h"
#include "utils/math.hpp"
using namespace alaya::math;
template <class T> static void logs(T x) {
  vc::assume(x > 0);
  uint32_t f = floor_log2(x), c = ceil_log2(x); uint64_t v = (uint64_t)x;
  vc::check(f < 64 && (v >> f) == 1, "floor_log2: 2^f <= x < 2^(f+1)");
  vc::check(c <= 64 && (x == 1 ? c == 0 : (v - 1) >> (c - 1) == 1), "ceil_log2: 2^(c-1) < x <= 2^c");
}
VC_PROOF(log_u64) { logs<uint64_t>(vc::u64("x")); }
VC_PROOF(log_u32) { logs<uint32_t>(vc::u32("x")); }
VC_PROOF(log_u16) { logs<uint16_t>(vc::u16("x")); }
VC_PROOF(log_i32) { logs<int32_t>(vc::i32("x")); }
VC_PROOF(log_zero) { vc::check(floor_log2<uint64_t>(0) == 0 && ceil_log2<uint64_t>(0) == 0 && ceil_log2<uint32_t>(0) == 0 && ceil_log2<uint32_t>(1) == 0, "zero and one"); }
VC_PROOF(pow2) {
  uint64_t x = vc::u64("x"), k = vc::u64("k"); bool p = is_power_of_two<uint64_t>(x); 
  vc::assume(k < 64); if (x == 1ULL << k) vc::check(p, "powers of two are recognised");
  if (p) vc::check(x != 0 && x == 1ULL << floor_log2(x), "only powers of two are recognised");
  int32_t s = vc::i32("s"); if (s <= 0) vc::check(!is_power_of_two<int32_t>(s), "zero and negative numbers are not powers of two");
}
VC_PROOF(round_pow2) {
  uint64_t x = vc::u64("x"), k = vc::in("k", 0, 62), a = 1ULL << k; vc::assume(x <= ~0ULL - (a - 1));
  uint64_t r = round_up_pow2<uint64_t>(x, a);
  vc::check(r >= x && r - x < a && (r & (a - 1)) == 0, "the least multiple of the alignment not below x");
}
VC_PROOF(round_pow2_u32) {
  uint32_t x = vc::u32("x"); uint64_t k = vc::in("k", 0, 30), a = 1ULL << k; vc::assume(x <= 0xFFFFFFFFU - (uint32_t)(a - 1));
  uint32_t r = round_up_pow2<uint32_t>(x, a);
  vc::check(r >= x && r - x < a && (r & (a - 1)) == 0, "the least multiple of the alignment not below x");
}
VC_PROOF(round_general) {
  uint64_t x = vc::len("x", 0, 200), d = vc::len("d", 1, 30); uint64_t r = round_up_general(x, d);
  vc::check(r >= x && r < x + d, "not below x and less than one divisor above"); vc::check(r % d == 0, "a multiple of the divisor");
}
VC_PROOF(ceil_division) {
  uint64_t x = vc::len("x", 0, 200), d = vc::len("d", 1, 30); uint64_t q = ceil_div<uint64_t>(x, d);
  vc::check(q * d >= x, "q * d covers x"); vc::check(x == 0 ? q == 0 : q * d < x + d, "and q is the least such number");
}
VC_PROOF(zero_divisor) {
  uint64_t x = vc::u64("x"); vc::check(round_up_general(x, 0) == 0, "rounding to multiples of zero yields zero");
  bool threw = false; try { (void)ceil_div<uint64_t>(x, 0); } catch (const std::invalid_argument &) { threw = true; } vc::check(threw, "division by zero is rejected");
}
