// write-ahead log frames and manifest numbers
// @proof * mode=bv fl=bits
// @flags -D_GLIBCXX_EXTERN_TEMPLATE=0 -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL
// @natlibs -lspdlog -lfmt
#include "vc_io.h"
#include "recovery/write_ahead_log.hpp"
#include "recovery/snapshot_manifest.hpp"
using namespace alaya::recovery;
static uint64_t u32at(const uint8_t *p) { return (uint64_t)p[0] | (uint64_t)p[1] << 8 | (uint64_t)p[2] << 16 | (uint64_t)p[3] << 24; }
static uint64_t u64at(const uint8_t *p) { return u32at(p) | u32at(p + 4) << 32; }
static void quiet() {
#ifndef VC_SYM
  spdlog::set_level(spdlog::level::off);
#endif
}
VC_PROOF(frame_kinds) {
  uint8_t x = vc::u8("x"); auto f = WriteAheadLog::parse_frame_type(x); auto m = WriteAheadLog::parse_mutation_type(x);
  vc::check(f.has_value() == (x == 1 || x == 2) && (!f.has_value() || (uint8_t)*f == x), "frame kinds are 1 and 2");
  vc::check(m.has_value() == (x >= 1 && x <= 4) && (!m.has_value() || (uint8_t)*m == x), "mutation kinds are 1 to 4");
}
VC_PROOF(decimal_reject) {
  uint64_t n = vc::in("n", 0, 3); for (uint64_t k = 0; k < 4; ++k) if (vc::fork(n == k)) { n = k; break; } char t[4]; for (int k = 0; k < 3; ++k) t[k] = (char)vc::u8("c"); uint64_t out = 77, want = 0; bool ok = n > 0;
  for (uint64_t k = 0; k < 3; ++k) if (k < n) { ok &= t[k] >= '0' && t[k] <= '9'; want = want * 10 + (uint64_t)(t[k] - '0'); }
  bool r = detail::parse_uint64_decimal(std::string_view(t, n), out);
  vc::check(r == ok, "exactly digit strings are accepted"); vc::check(out == (ok ? want : 77), "the value is the decimal value, and untouched on failure");
}
// @proof decimal_digits mode=int
VC_PROOF(decimal_digits) {
  uint64_t n = vc::len("n", 0, 24); const char *t = vc::buf<char>("t", n), *e = t + n; uint64_t out = 77; auto dig = [&](uint64_t k) { return (t[k] >= '0') & (t[k] <= '9'); }; auto inv = [&](uint64_t it) { return (it <= n) & vc::all(0, it, dig); }; vc::loop("__from_chars_alnum", inv);
  bool r = detail::parse_uint64_decimal(std::string_view(t, n), out); (void)e;
  if (n == 0) vc::check(!r, "no digits, no number"); if (!r) vc::check(out == 77, "a rejected number leaves the field alone");
  if (r) vc::check(vc::all(0, n, dig), "a number consists of digits only");
}
VC_PROOF(header) {
  quiet(); uint64_t n = vc::len("n", 0, 40); const uint8_t *d = vc::buf<uint8_t>("d", n); uint64_t p = vc::in("p", 0, 48); vc::assume(p <= n);
#ifndef VC_SYM
  uint8_t *w = (uint8_t *)d; if (vc::b("fix") && n >= p + 24) { uint32_t m = kWalFrameMagic; memcpy(w + p, &m, 4); w[p + 4] = 1; w[p + 5] = vc::u8("ft") % 4; w[p + 6] = vc::u8("mt") % 6; }
#endif
  vc::file("f", d, n); std::ifstream in("f", std::ios::binary); in.seekg((std::streamoff)p); auto h = WriteAheadLog::read_frame_header(in);
  bool ok = n - p >= 24; if (vc::fork(ok)) ok = u32at(d + p) == kWalFrameMagic && d[p + 4] == 1 && (d[p + 5] == 1 || d[p + 5] == 2) && d[p + 6] >= 1 && d[p + 6] <= 4;
  vc::check(h.has_value() == ok, "a header is accepted exactly when it is complete and well formed");
  if (h.has_value()) {
    vc::check((uint8_t)h->frame_type_ == d[p + 5] && (uint8_t)h->mutation_type_ == d[p + 6], "kinds are those of the frame");
    vc::check(h->op_id_ == u64at(d + p + 8) && h->payload_size_ == u64at(d + p + 16), "operation id and payload size are those of the frame");
    vc::check((uint64_t)in.tellg() == p + 24, "the payload comes next");
  }
}
VC_PROOF(plausible) {
  quiet(); uint64_t n = vc::len("n", 0, 40); const uint8_t *d = vc::buf<uint8_t>("d", n); uint64_t p = vc::in("p", 0, 48), fs_ = vc::u64("fs"), ps = vc::u64("ps"); vc::file("f", d, n);
  std::ifstream in("f", std::ios::binary); in.seekg((std::streamoff)p);
  bool r = WriteAheadLog::payload_size_is_plausible(in, fs_, ps);
  vc::check(r == (ps <= kMaxWalPayloadSize && fs_ >= p + 4 && ps <= fs_ - p - 4), "a payload is plausible exactly when it fits the file with its trailer");
}
VC_PROOF(append) {
  quiet(); uint8_t none[1]; vc::file("./w", none, 0); WriteAheadLog w("./w"); WalRecord r; r.op_id_ = vc::u64("op"); uint8_t t = (uint8_t)vc::in("t", 1, 4); r.mutation_type_ = (MutationType)t;
  uint64_t n = vc::len("n", 0, 30); vc::vec(r.payload_, "pay", n); vc::assume(n <= kMaxWalPayloadSize);
  w.append_prepare(r); uint64_t got = 0; const uint8_t *o = vc::content("./w", got);
  vc::check(got == 28 + n, "one frame is written");
  vc::check(u32at(o) == kWalFrameMagic && o[4] == 1 && o[5] == 1 && o[6] == t && u64at(o + 8) == r.op_id_ && u64at(o + 16) == n, "its header");
  vc::check(vc::all(0, n, [&](uint64_t k) { return o[24 + k] == (uint8_t)r.payload_[k]; }), "its payload"); vc::check(u32at(o + 24 + n) == kWalTrailerMagic, "its trailer");
  vc::stop();
}
VC_PROOF(append_commit) {
  quiet(); uint8_t none[1]; vc::file("./w", none, 0); WriteAheadLog w("./w"); uint64_t op = vc::u64("op"); uint8_t t = (uint8_t)vc::in("t", 1, 4);
  w.append_commit(op, (MutationType)t); uint64_t got = 0; const uint8_t *o = vc::content("./w", got);
  vc::check(got == 28 && u32at(o) == kWalFrameMagic && o[4] == 1 && o[5] == 2 && o[6] == t && u64at(o + 8) == op && u64at(o + 16) == 0 && u32at(o + 24) == kWalTrailerMagic, "a commit frame without payload");
  vc::stop();
}
