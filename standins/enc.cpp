// bounded stand-in: whole index keys (field, value, id), and the typed encodings through the public functions
#include "vc.h"
#include <cstring>
#include "utils/index_encoding.hpp"
using namespace alaya; using namespace alaya::index_encoding;
static std::string text(const char *n) { static const char *w[] = {"", "a", "_", "a_b", "x_1", "i_0", "_9", "long field name that lives on the heap", "\xff", "f_"}; return w[vc::in(n, 0, 9)]; }
static MetadataValue value() {
  switch (vc::in("type", 0, 3)) {
    case 0: return (int64_t)vc::i64("i");
    case 1: return (double)vc::i64("di") / 1024.0;
    case 2: return text("s");
    default: return vc::b("b");
  }
}
VC_PROOF(key_roundtrip) {
  std::string f = text("field"); MetadataValue v = value(); std::string e = encode_value(v);
  uint64_t id = vc::u64("id") >> vc::in("shift", 0, 63);
  std::string k = make_field_index_key<uint64_t>(f, e, id), k32 = make_field_index_key<uint32_t>(f, e, (uint32_t)id);
  vc::check(extract_id_from_key<uint64_t>(k) == id, "the 64-bit id is recovered from the key");
  vc::check(extract_id_from_key<uint32_t>(k32) == (uint32_t)id, "the 32-bit id is recovered from the key");
  std::string p = make_field_index_prefix(f, e), g = make_field_prefix(f);
  vc::check(p == g + e + "_", "a value prefix extends the field prefix");
  vc::check(k.compare(0, p.size(), p) == 0 && k.size() > p.size(), "keys start with their value prefix");
  vc::check(k.find('_', p.size()) == std::string::npos, "only the id follows the value prefix");
}
VC_PROOF(value_keys) {
  MetadataValue a = value(), b = value(); std::string x = encode_value(a), y = encode_value(b);
  vc::check((x == y) == (a == b), "keys of two values are equal exactly when the values are");
  if (a.index() == b.index()) vc::check((x < y) == (a < b), "keys of one type are ordered like the values");
  else vc::check(x.substr(0, 2) != y.substr(0, 2), "types have different tags");
}
