// index key encodings: order and round trip
// @proof * mode=bv fl=bits
// @flags -D_GLIBCXX_EXTERN_TEMPLATE=0
#include "vc.h"
#include "utils/index_encoding.hpp"
using namespace alaya::index_encoding;
VC_PROOF(int_order) {
  int64_t a = vc::i64("a"), b = vc::i64("b");
  std::string x = encode_int64(a), y = encode_int64(b);
  vc::check(x.size() == 16 && y.size() == 16, "16 characters");
  int c = x.compare(y);
  vc::check((c < 0) == (a < b) && (c == 0) == (a == b), "byte order of the keys is the numeric order");
}
VC_PROOF(int_round) {
  int64_t a = vc::i64("a");
  vc::check(decode_int64(encode_int64(a)) == a, "decoding returns the encoded integer");
}
static uint64_t bits_of(double d) { uint64_t b; __builtin_memcpy(&b, &d, 8); return b; }
static double of_bits(uint64_t b) { double d; __builtin_memcpy(&d, &b, 8); return d; }
// numeric order of two doubles that are not NaN, read off their bit patterns (sign, then magnitude; the two zeros are equal)
static bool nan_bits(uint64_t b) { return (b << 1) > (0x7FFULL << 53); }
static int order(uint64_t a, uint64_t b) {
  bool za = (a << 1) == 0, zb = (b << 1) == 0; int64_t ma = (int64_t)(a & ~(1ULL << 63)), mb = (int64_t)(b & ~(1ULL << 63));
  int64_t x = za ? 0 : (a >> 63) ? -ma : ma, y = zb ? 0 : (b >> 63) ? -mb : mb;
  return x < y ? -1 : x > y ? 1 : 0;
}
VC_PROOF(double_order) {
  uint64_t a = vc::u64("a"), b = vc::u64("b"); vc::assume(!nan_bits(a) & !nan_bits(b));
  std::string x = encode_double(of_bits(a)), y = encode_double(of_bits(b)); int o = order(a, b);
  vc::check(x.size() == 16 && y.size() == 16, "16 characters");
  int c = x.compare(y);
  vc::check((c < 0) == (o < 0) && (c == 0) == (o == 0), "byte order of the keys is the numeric order, infinities and both zeros included");
}
VC_PROOF(double_round) {
  uint64_t a = vc::u64("a"); vc::assume(!nan_bits(a));
  uint64_t b = bits_of(decode_double(encode_double(of_bits(a))));
  vc::check(b == ((a << 1) == 0 ? 0 : a), "decoding returns the encoded double (zero without its sign)");
}
// typed keys: a two-character tag, then the payload
VC_PROOF(value_int) {
  int64_t a = vc::i64("a"); alaya::MetadataValue v = a; std::string e = encode_value(v), p = encode_int64(a);
  vc::check(e.size() == 18 && e[0] == 'i' && e[1] == '_', "integer tag");
  vc::check(vc::all(0, 16, [&](uint64_t k) { return e[2 + k] == p[k]; }), "integer payload");
}
VC_PROOF(value_bool) {
  bool a = vc::b("a"); alaya::MetadataValue v = a; std::string e = encode_value(v);
  vc::check(e.size() == 3 && e[0] == 'b' && e[1] == '_' && e[2] == (a ? '1' : '0'), "bool key");
}
VC_PROOF(value_double) {
  uint64_t a = vc::u64("a"); vc::assume(!nan_bits(a)); alaya::MetadataValue v = of_bits(a); std::string e = encode_value(v), p = encode_double(of_bits(a));
  vc::check(e.size() == 18 && e[0] == 'd' && e[1] == '_', "double tag");
  vc::check(vc::all(0, 16, [&](uint64_t k) { return e[2 + k] == p[k]; }), "double payload");
}
// @proof value_text mode=int
VC_PROOF(value_text) {
  uint64_t n = vc::len("n", 0, 30); alaya::MetadataValue v = std::string(); vc::str(std::get<2>(v), "text", n); std::string e = encode_value(v);
  vc::check(e.size() == n + 2, "text key length"); const char *p = e.data(), *q = std::get<2>(v).data();
  vc::check(p[0] == 's' && p[1] == '_', "text tag");
  uint64_t k = vc::u64("k"); vc::assume(k < n); vc::check(p[2 + k] == q[k], "text bytes");
}
// @proof prefix mode=int
VC_PROOF(prefix) {
  uint64_t n = vc::len("n", 0, 20), m = vc::len("m", 0, 20); std::string f, e; vc::str(f, "field", n); vc::str(e, "value", m);
  std::string p = make_field_index_prefix(f, e), g = make_field_prefix(f);
  vc::check(p.size() == n + m + 4 && g.size() == n + 3, "prefix lengths");
  const char *P = p.data(), *G = g.data(), *F = f.data(), *E = e.data();
  vc::check(P[0] == 'f' && P[1] == '_' && P[n + 2] == '_' && P[n + m + 3] == '_' && G[0] == 'f' && G[1] == '_' && G[n + 2] == '_', "separators");
  uint64_t k = vc::u64("k"); if (k < n) vc::check(P[2 + k] == F[k] && G[2 + k] == F[k], "field bytes"); if (k < m) vc::check(P[n + 3 + k] == E[k], "value bytes");
}
