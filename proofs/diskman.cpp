// disk collections: manifest fields, sizes, order of hits, the pending buffer
// @proof * mode=bv fl=bits
// @flags -D_GLIBCXX_EXTERN_TEMPLATE=0 -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -fno-access-control -idirafter/verif/include/omp
// @natflags -fopenmp
// @natlibs -lspdlog -lfmt -fopenmp
#include "vc.h"
#include <cstring>
#include "index/disk/disk_collection.hpp"
using namespace alaya; using namespace alaya::disk;
static bool digit(char c) { return (c >= '0') & (c <= '9'); }
// @proof number mode=int
// decimal numbers of any length
VC_PROOF(number) {
  uint64_t n = vc::len("n", 0, 24); const char *t = vc::buf<char>("t", n); const uint64_t *val = vc::buf<uint64_t>("val", n + 1); const uint8_t *fits = vc::buf<uint8_t>("fits", n + 1);
#ifndef VC_SYM
  for (uint64_t k = 0; k < n; ++k) if (vc::in("dig", 0, 30)) const_cast<char *>(t)[k] = (char)('0' + vc::in("d", 0, 9));
  auto *v = const_cast<uint64_t *>(val); auto *f = const_cast<uint8_t *>(fits); v[0] = 0; f[0] = 1; for (uint64_t k = 0; k < n; ++k) { f[k + 1] = f[k] && (unsigned __int128)v[k] * 10 + (uint64_t)(t[k] - '0') <= UINT64_MAX; v[k + 1] = v[k] * 10 + (uint64_t)(t[k] - '0'); }
#endif
  // val[k], fits[k]: the value of the first k digits, and whether it is below 2^64
  vc::assume(val[0] == 0 && fits[0] == 1);
  vc::assume(vc::all(0, n, [&](uint64_t k) { return (val[k + 1] == val[k] * 10 + (uint64_t)(uint8_t)(t[k] - '0')) & (fits[k + 1] == (uint8_t)((fits[k] == 1) & ((val[k] < 1844674407370955161ull) | ((val[k] == 1844674407370955161ull) & (t[k] <= '5'))))); }));
  auto dig = [&](uint64_t k) { return digit(t[k]); }; auto run = [&](uint64_t it) { return val[it]; }; auto inv = [&](uint64_t it) { return (it <= n) & vc::all(0, it, dig) & (fits[it] == 1); };
  vc::track("parse_uint64", run); vc::loop("parse_uint64", inv);
  uint64_t r = 0; bool threw = false; try { r = detail::parse_uint64(std::string_view(t, n), "f"); } catch (const std::invalid_argument &) { threw = true; }
  if (n == 0) vc::check(threw, "no digits, no number");
  if (!threw) { vc::check(vc::all(0, n, dig), "a number consists of digits only"); vc::check(fits[n] == 1, "a number of 2^64 or more is rejected"); vc::check(r == val[n], "the number is the decimal value of its digits"); }
  else if (n) vc::check(!vc::all(0, n, dig) | vc::exists(0, n + 1, [&](uint64_t k) { return fits[k] != 1; }), "a string of digits below 2^64 is accepted");
  vc::stop();
}
VC_PROOF(segment_id) {
  uint64_t n = vc::in("n", 0, 16); char t[16]; for (int k = 0; k < 16; ++k) t[k] = (char)vc::u8("c");
#ifndef VC_SYM
  if (vc::in("near", 0, 3)) { memcpy(t, "seg_00000000", 12); for (int k = 4; k < 12; ++k) t[k] += (char)vc::in("d", 0, 9); n = 12 + (vc::in("m", 0, 20) == 0); t[vc::in("at", 0, 15)] = (char)vc::u8("x"); }
#endif
  bool ok = (n == 12) & (t[0] == 's') & (t[1] == 'e') & (t[2] == 'g') & (t[3] == '_'); for (int k = 4; k < 12; ++k) ok &= digit(t[k]);
  vc::check(detail::is_valid_segment_id(std::string_view(t, n)) == ok, "segment names are seg_ and eight digits");
}
VC_PROOF(basename) {
  uint64_t n = vc::len("n", 0, 12); const char *t = vc::buf<char>("t", n); auto plain = [&](uint64_t k) { return (t[k] != '/') & (t[k] != 0); };
  auto inv = [&](uint64_t it) { return (it <= n) & vc::all(0, it, plain); }; vc::loop("is_valid_basename", inv);
  bool r = detail::is_valid_basename(std::string_view(t, n)), dots = false; if (n == 1) dots = t[0] == '.'; if (n == 2) dots = (t[0] == '.') & (t[1] == '.');
  if (n == 0 || dots) vc::check(!r, "neither the empty name nor a dot directory"); if (r) vc::check(vc::all(0, n, plain), "a file name stays in its directory");
  if (!r && n && !dots) vc::check(!vc::all(0, n, plain), "every other name without a separator is accepted");
  vc::stop();
}
VC_PROOF(sizes) {
  uint64_t c = vc::u64("count"), d = vc::u64("dim"); unsigned __int128 w = (unsigned __int128)c * d; bool big = (w >> 62) != 0, threw = false; uint64_t r = 0;
  try { r = detail::compute_expected_vectors_bytes(c, d); } catch (const std::runtime_error &) { threw = true; }
  vc::check(threw == big, "sizes are rejected exactly when they exceed 64 bits"); vc::check(threw || r == (uint64_t)w * 4, "four bytes per component");
  bool t2 = false; uint64_t r2 = 0; try { r2 = detail::compute_expected_ids_bytes(c); } catch (const std::runtime_error &) { t2 = true; }
  vc::check(t2 == (c >> 61 != 0) && (t2 || r2 == c * 8), "eight bytes per id");
}
// @proof finite fl=fp
VC_PROOF(finite) {
  float f = vc::f32("f"); double d = vc::f64("d");
  vc::check(detail::is_nan_f32(f) == (f != f), "NaN"); vc::check(detail::is_inf_f32(f) == ((f == __builtin_inff()) | (f == -__builtin_inff())), "infinity");
  vc::check(detail::is_finite_f32(f) == (__builtin_fabsf(f) < __builtin_inff()), "finite"); vc::check(detail::is_finite_f64(d) == (__builtin_fabs(d) < __builtin_inf()), "finite doubles"); vc::check(detail::is_finite_extra_f32(f) == detail::is_finite_f32(f), "finite parameters");
  vc::check((f != f) | (detail::is_neg_f32(f) == (f < 0 || (f == 0 && 1 / f < 0))), "sign");
}
// @proof order fl=fp
VC_PROOF(order) {
  float a = vc::f32("a"), b = vc::f32("b"), c = vc::f32("c"); auto less = [](float x, float y) { return detail::disk_search_distance_less(x, y); }; auto eq = [](float x, float y) { return detail::disk_search_distance_equal_for_order(x, y); };
  vc::check(!less(a, a), "irreflexive"); vc::check(!(less(a, b) & less(b, c)) | less(a, c), "transitive"); vc::check(eq(a, b) == (!less(a, b) & !less(b, a)), "equal is neither before nor behind"); vc::check(!(eq(a, b) & eq(b, c)) | eq(a, c), "equality is transitive");
  if (a == a && b == b) vc::check(less(a, b) == (a < b), "numbers come in order"); if (a == a && b != b) vc::check(less(a, b) && !less(b, a), "a number comes before NaN");
}
// the pending buffer: a batch is accepted exactly when twice its bytes fit the limit, and then appended; otherwise nothing changes
// @proof pending mode=int
VC_PROOF(pending) {
  uint32_t dim = (uint32_t)vc::in("dim", 1, UINT32_MAX); uint64_t rows = vc::len("rows", 0, 6), n = vc::u64("n"), cap = vc::u64("cap");
#ifndef VC_SYM
  dim = 1 + dim % 5; if (vc::in("sane", 0, 9)) { n = vc::in("few", 1, 8); cap = vc::in("cap2", 0, 600); }
  else { n |= 1ull << vc::in("bit", 40, 63); cap = vc::in("unbounded", 0, 1) ? UINT64_MAX : cap >> 20; vc::assume(2 * ((unsigned __int128)rows + n) * (4ull * dim + 8) > cap); }
#endif
  vc::assume(n > 0); uint64_t per = 4ull * dim + 8; vc::assume(2 * rows * (unsigned __int128)per <= cap);
  DiskCollection c; c.manifest_.dim = dim; c.max_pending_bytes_ = cap; vc::vec(c.pending_vectors_, "pv", rows * dim); vc::vec(c.pending_labels_, "pl", rows);
  bool fits = 2 * ((unsigned __int128)rows + n) * per <= cap; uint64_t m = fits ? n : 1; const float *v = vc::buf<float>("v", m * dim); const uint64_t *l = vc::buf<uint64_t>("l", m); const float *was = c.pending_vectors_.data(); bool threw = false;
  try { c.add_batch(v, l, n); } catch (const std::runtime_error &) { threw = true; }
  vc::check(threw == !fits, "a batch is accepted exactly when the buffer stays within its limit");
  if (vc::fork(threw)) { vc::check(c.pending_labels_.size() == rows && c.pending_vectors_.size() == rows * dim && c.pending_vectors_.data() == was, "a rejected batch changes nothing"); }
  else { vc::check(c.pending_labels_.size() == rows + n && c.pending_vectors_.size() == (rows + n) * dim, "an accepted batch is appended"); }
  vc::stop();
}
// the segment builder takes exactly the batches whose components are all finite
// @proof finite_rows mode=int
VC_PROOF(finite_rows) {
  uint32_t dim = (uint32_t)vc::in("dim", 1, 1000); uint64_t n = vc::len("n", 1, 5); vc::assume(n <= 1ull << 20); 
#ifndef VC_SYM
  dim = 1 + dim % 5;
#endif
  const uint32_t *b = vc::buf<uint32_t>("v", n * dim); const uint64_t *l = vc::buf<uint64_t>("l", n); auto fin = [&](uint64_t k) { return (b[k] & 0x7F800000u) != 0x7F800000u; };
  auto inv0 = [&](uint64_t it) { return vc::all(0, it * dim, fin); }; auto inv1 = [&](uint64_t it) { return vc::all(0, vc::outer() * dim + it, fin); };
  DiskFlatBuilder x(dim, MetricType::L2); vc::loop("add_batch#0", inv0); vc::loop("add_batch#1", inv1); bool threw = false; try { x.add_batch((const float *)b, l, n); } catch (const std::invalid_argument &) { threw = true; }
  if (vc::fork(threw)) { vc::check(vc::exists(0, n * dim, [&](uint64_t k) { return (b[k] & 0x7F800000u) == 0x7F800000u; }), "finite batches are accepted"); vc::check(x.labels_.empty() && x.vectors_.empty(), "a rejected batch changes nothing"); }
  else { vc::check(vc::all(0, n * dim, fin), "NaN and infinite components are rejected"); vc::check(x.labels_.size() == n && x.vectors_.size() == n * dim, "an accepted batch is kept"); }
  vc::stop();
}
