// bounds-checked binary reading and the field codecs of ScalarData
// @proof * mode=int
// @flags -D_GLIBCXX_EXTERN_TEMPLATE=0
#include "vc.h"
#include "utils/binary_io.hpp"
#include "utils/scalar_data.hpp"
using alaya::ScalarData; using alaya::MetadataValue;
using alaya::binary_io::BinaryReader; using alaya::binary_io::BinaryWriter;
struct Rd {
  uint64_t n = vc::len("n", 0, 40); const char *d = vc::buf<char>("data", n); BinaryReader r{d, (size_t)n}; uint64_t off;
  Rd() { off = vc::in("off", 0, n); r.offset_ = off; }
  uint64_t le(uint64_t at, int w) { uint64_t v = 0; for (int k = 0; k < w; ++k) v |= (uint64_t)(uint8_t)d[at + k] << (8 * k); return v; }
};
VC_PROOF(read_pod) {
  Rd s; auto v = s.r.read_u64();
  vc::check(v.has_value() == (s.n - s.off >= 8), "u64 is read exactly when 8 bytes remain");
  if (v.has_value()) { vc::check(*v == s.le(s.off, 8), "u64 value"); vc::check(s.r.remaining() == s.n - s.off - 8, "8 bytes consumed"); }
  else vc::check(s.r.remaining() == s.n - s.off, "nothing consumed");
}
VC_PROOF(read_small) {
  Rd s; auto v = s.r.read_u32();
  vc::check(v.has_value() == (s.n - s.off >= 4), "u32 is read exactly when 4 bytes remain");
  uint64_t off = s.off;
  if (v.has_value()) { vc::check(*v == (uint32_t)s.le(off, 4), "u32 value"); off += 4; }
  vc::check(s.r.remaining() == s.n - off, "4 bytes consumed");
  auto b = s.r.read_u8();
  vc::check(b.has_value() == (s.n - off >= 1), "u8 is read exactly when a byte remains");
  if (b.has_value()) { vc::check(*b == (uint8_t)s.d[off], "u8 value"); off += 1; }
  vc::check(s.r.remaining() == s.n - off, "1 byte consumed");
}
template <class F> static void chunk(F f) {
  Rd s; bool have = s.n - s.off >= 8; uint64_t len = have ? s.le(s.off, 8) : 0; bool ok = have && len <= s.n - s.off - 8;
  auto v = f(s.r);
  vc::check(v.has_value() == ok, "a length-prefixed value is read exactly when it is wholly present");
  if (v.has_value()) {
    vc::check(v->size() == len, "length"); vc::check(s.r.remaining() == s.n - s.off - 8 - len, "consumed");
    const char *p = v->data(); uint64_t k = vc::u64("k"); vc::assume(k < len); vc::check(p[k] == s.d[s.off + 8 + k], "bytes");
  }
}
VC_PROOF(read_string) { chunk([](BinaryReader &r) { return r.read_string(); }); }
VC_PROOF(read_blob) { chunk([](BinaryReader &r) { return r.read_blob(); }); }
VC_PROOF(read_fixed) {
  Rd s; uint64_t len = vc::u64("len"); auto v = s.r.read_fixed_blob(len);
  vc::check(v.has_value() == (len <= s.n - s.off), "a fixed blob is read exactly when wholly present");
  if (v.has_value()) {
    vc::check(v->size() == len && s.r.remaining() == s.n - s.off - len, "length and consumption");
    const char *p = v->data(); uint64_t k = vc::u64("k"); vc::assume(k < len); vc::check(p[k] == s.d[s.off + k], "bytes");
  } else vc::check(s.r.remaining() == s.n - s.off, "nothing consumed");
}
// a writer that already holds n bytes (with some spare capacity)
struct Wr {
  uint64_t n = vc::len("pre", 0, 20), cap = n + vc::len("spare", 0, 40); BinaryWriter w; const char *pre;
  Wr() { vc::vec(w.buffer_, "prefix", n, cap); pre = vc::buf<char>("copy", n); char *b = w.buffer_.data(); const char *q = pre; vc::assume(vc::all(0, n, [=](uint64_t k) { return b[k] == q[k]; })); }
  void kept(const std::vector<char> &b) { uint64_t k = vc::u64("i"); if (k < n) vc::check(b[k] == pre[k], "earlier bytes are kept"); }
};
VC_PROOF(write_pod) {
  Wr s; uint64_t v = vc::u64("v"); int w = (int)vc::in("w", 0, 2);
  if (w == 0) s.w.write_u64(v); else if (w == 1) s.w.write_u32((uint32_t)v); else s.w.write_u8((uint8_t)v);
  uint64_t want = w == 0 ? 8 : w == 1 ? 4 : 1; auto b = std::move(s.w).finish();
  vc::check(b.size() == s.n + want, "exactly the bytes of the value are appended"); s.kept(b);
  BinaryReader r(b.data(), b.size()); r.offset_ = s.n;
  if (w == 0) { auto x = r.read_u64(); vc::check(x.has_value() && *x == v, "u64 reads back"); }
  else if (w == 1) { auto x = r.read_u32(); vc::check(x.has_value() && *x == (uint32_t)v, "u32 reads back"); }
  else { auto x = r.read_u8(); vc::check(x.has_value() && *x == (uint8_t)v, "u8 reads back"); }
}
VC_PROOF(write_blob) {
  Wr s; uint64_t len = vc::len("len", 0, 30); std::vector<char> v; vc::vec(v, "value", len, len);
  s.w.write_blob(v); auto b = std::move(s.w).finish();
  vc::check(b.size() == s.n + 8 + len, "length and bytes are appended"); s.kept(b);
  BinaryReader r(b.data(), b.size()); r.offset_ = s.n; auto x = r.read_blob();
  vc::check(x.has_value(), "the blob reads back"); if (!x.has_value()) return;
  vc::check(x->size() == len && r.remaining() == 0, "blob length");
  uint64_t k = vc::u64("k"); vc::assume(k < len); const char *p = x->data(), *q = v.data(); vc::check(p[k] == q[k], "blob bytes");
}
VC_PROOF(write_string) {
  Wr s; uint64_t len = vc::len("len", 0, 30); std::string v; vc::str(v, "value", len);
  s.w.write_string(v); auto b = std::move(s.w).finish();
  vc::check(b.size() == s.n + 8 + len, "length and bytes are appended"); s.kept(b);
  BinaryReader r(b.data(), b.size()); r.offset_ = s.n; auto x = r.read_string();
  vc::check(x.has_value(), "the string reads back"); if (!x.has_value()) return;
  vc::check(x->size() == len && r.remaining() == 0, "string length");
  uint64_t k = vc::u64("k"); vc::assume(k < len); const char *p = x->data(), *q = v.data(); vc::check(p[k] == q[k], "string bytes");
}
// ---------------------------------------------------------------- ScalarData
VC_PROOF(sd_string) {
  uint64_t n = vc::len("pre", 0, 20), len = vc::in("len", 0, 0xFFFFFFFFULL); 
#ifndef VC_SYM
  if (len > 100) len %= 100;
#endif
  std::vector<char> b; vc::vec(b, "prefix", n, n); std::string v; vc::str(v, "value", len);
  ScalarData::serialize_string(b, v);
  vc::check(b.size() == n + 4 + len, "a string takes four bytes and its length");
  size_t off = n; std::string x = ScalarData::deserialize_string(b.data(), b.size(), off);
  vc::check(off == n + 4 + len && x.size() == len, "reading advances over exactly the string");
  size_t o2 = n; ScalarData::skip_string(b.data(), b.size(), o2); vc::check(o2 == off, "skipping advances like reading");
  uint64_t k = vc::u64("k"); vc::assume(k < len); const char *p = x.data(), *q = v.data(); vc::check(p[k] == q[k], "string bytes");
}
VC_PROOF(sd_malformed) {
  uint64_t n = vc::len("n", 0, 30); const char *d = vc::buf<char>("data", n); uint64_t at = vc::in("at", 0, n);
  size_t o1 = at, o2 = at; std::string x = ScalarData::deserialize_string(d, n, o1); ScalarData::skip_string(d, n, o2);
  vc::check(o1 == o2, "skipping and reading agree on malformed input");
  vc::check(o1 == n + 1 || (o1 <= n && o1 >= at + 4 && x.size() == o1 - at - 4), "either the whole string is present or the failure mark is set");
  size_t o3 = at; ScalarData::skip_value(d, n, o3); vc::check(o3 == n + 1 || (o3 > at && o3 <= n), "skipping a value stays inside the payload or sets the failure mark");
}
VC_PROOF(sd_scalar) {
  int t = (int)vc::in("type", 0, 2); uint64_t n = vc::len("pre", 0, 20); std::vector<char> b; vc::vec(b, "prefix", n, n);
  int64_t i = vc::i64("i"); bool bo = vc::b("b"); MetadataValue v;
  if (t == 0) v = i; else v = bo;
  ScalarData::serialize_value(b, v);
  size_t off = n; MetadataValue x = ScalarData::deserialize_value(b.data(), b.size(), off);
  vc::check(off == b.size(), "reading advances over exactly the value");
  size_t o2 = n; ScalarData::skip_value(b.data(), b.size(), o2); vc::check(o2 == off, "skipping advances like reading");
  vc::check(x.index() == v.index(), "type survives");
  if (t == 0) vc::check(std::get<0>(x) == i, "integer survives"); else vc::check(std::get<3>(x) == bo, "bool survives");
}
// @proof sd_double fl=bits
VC_PROOF(sd_double) {
  uint64_t n = vc::len("pre", 0, 20); std::vector<char> b; vc::vec(b, "prefix", n, n);
  double d = vc::f64("d"); uint64_t bits; __builtin_memcpy(&bits, &d, 8); MetadataValue v = d;
  ScalarData::serialize_value(b, v);
  size_t off = n; MetadataValue x = ScalarData::deserialize_value(b.data(), b.size(), off);
  vc::check(off == b.size() && x.index() == 1, "reading advances over exactly the value");
  double y = std::get<1>(x); uint64_t got; __builtin_memcpy(&got, &y, 8);
  vc::check(got == bits, "double survives bit for bit");
}
VC_PROOF(sd_text) {
  uint64_t n = vc::len("pre", 0, 20), len = vc::in("len", 0, 0xFFFFFFFFULL);
#ifndef VC_SYM
  if (len > 100) len %= 100;
#endif
  std::vector<char> b; vc::vec(b, "prefix", n, n); MetadataValue v = std::string(); vc::str(std::get<2>(v), "value", len);
  ScalarData::serialize_value(b, v);
  size_t off = n; MetadataValue x = ScalarData::deserialize_value(b.data(), b.size(), off);
  size_t o2 = n; ScalarData::skip_value(b.data(), b.size(), o2);
  vc::check(off == b.size() && o2 == off && x.index() == 2, "reading and skipping advance over exactly the value");
  vc::check(std::get<2>(x).size() == len, "text length");
  uint64_t k = vc::u64("k"); vc::assume(k < len); const char *p = std::get<2>(x).data(), *q = std::get<2>(v).data(); vc::check(p[k] == q[k], "text bytes");
}
VC_PROOF(sd_bad_value) {
  uint64_t n = vc::len("n", 0, 30); const char *d = vc::buf<char>("data", n); uint64_t at = vc::in("at", 0, n);
  size_t o1 = at, o2 = at; MetadataValue x = ScalarData::deserialize_value(d, n, o1); ScalarData::skip_value(d, n, o2);
  vc::check(o1 == o2, "skipping and reading a value agree on malformed input");
  vc::check(o1 == n + 1 || (o1 > at && o1 <= n), "the value is wholly present or the failure mark is set");
  if (o1 <= n) { vc::check((uint64_t)(unsigned char)d[at] == x.index(), "the type tag decides the type"); if (x.index() == 3) { bool b = std::get<3>(x); vc::check(b == (d[at + 1] != 0), "any non-zero byte is true"); } }
}
