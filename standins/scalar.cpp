// bounded stand-in: whole ScalarData payloads (any metadata), truncation, selected fields, BinaryWriter/BinaryReader histories
#include "vc.h"
#include <cstring>
#include <map>
#include <optional>
#include <string>
#include <vector>
#include "utils/binary_io.hpp"
#include "utils/scalar_data.hpp"
using namespace alaya;
static std::string text(const char *n) {
  static const char *w[] = {"", "a", "b", "_", "a_b", "key", "value\n", "a longer text value that is stored on the heap", "\xff\xfe", "0"};
  std::string s = w[vc::in(n, 0, 9)];
  if (vc::in("nul", 0, 5) == 0) s += std::string("\0x", 2);
  if (vc::in("rep", 0, 9) == 0) s += std::string(vc::in("many", 1, 400), 'q');
  return s;
}
static MetadataValue value() {
  switch (vc::in("type", 0, 3)) {
    case 0: return (int64_t)vc::i64("i");
    case 1: { static const double ds[] = {0.0, -0.0, 1.5, -1e300, 5e-324, 1e-320, 123456789.125}; return vc::b("special") ? ds[vc::in("d", 0, 6)] : (double)vc::i64("di") / 1024.0; }
    case 2: return text("s");
    default: return vc::b("b");
  }
}
static bool same(const MetadataValue &a, const MetadataValue &b) {
  if (a.index() != b.index()) return false;
  if (auto *p = std::get_if<double>(&a)) { double x = *p, y = std::get<double>(b); return std::memcmp(&x, &y, 8) == 0; }
  return a == b;
}
static ScalarData record() {
  ScalarData s; s.item_id = text("id"); s.document = text("doc"); uint64_t n = vc::in("fields", 0, 6);
  for (uint64_t k = 0; k < n; ++k) { std::string key = text("key"); s.metadata[key] = value(); }
  return s;
}
VC_PROOF(scalar_roundtrip) {
  ScalarData s = record(); auto b = s.serialize();
  vc::check(b.size() == s.serialized_size(), "serialized_size is the size of the payload");
  std::vector<char> exact(b.begin(), b.end()); exact.shrink_to_fit();
  ScalarData t = ScalarData::deserialize(exact.data(), exact.size());
  vc::check(t.item_id == s.item_id && t.document == s.document, "id and document survive");
  vc::check(t.metadata.size() == s.metadata.size(), "field count survives");
  for (auto &[k, v] : s.metadata) { auto it = t.metadata.find(k); vc::check(it != t.metadata.end() && same(it->second, v), "every field survives"); }
  std::unordered_set<std::string> want; for (uint64_t k = vc::in("wanted", 0, 5); k > 0; --k) want.insert(text("want"));
  for (auto &[k, v] : s.metadata) if (vc::in("take", 0, 2) == 0) want.insert(k);
  MetadataMap m = ScalarData::deserialize_selected_metadata(exact.data(), exact.size(), want);
  for (auto &[k, v] : m) vc::check(want.count(k) && s.metadata.count(k) && same(v, s.metadata.at(k)), "selected fields have their stored values");
  for (auto &k : want) vc::check(m.count(k) == s.metadata.count(k), "every wanted field that is stored is selected");
  for (uint64_t k = 0; k < 3; ++k) want.insert(text("one"));
  for (auto &k : want) { auto v = ScalarData::deserialize_single_metadata_value(exact.data(), exact.size(), k);
    if (k.empty()) continue;
    vc::check(v.has_value() == (s.metadata.count(k) != 0), "a single field is found exactly when it is stored"); if (v) vc::check(same(*v, s.metadata.at(k)), "a single field has its stored value"); }
}
VC_PROOF(scalar_truncated) {
  ScalarData s = record(); auto b = s.serialize(); uint64_t cut = vc::in("cut", 0, b.size() - 1);
  std::vector<char> p(b.begin(), b.begin() + cut); p.shrink_to_fit(); bool threw = false;
  try { ScalarData::deserialize(p.data(), p.size()); } catch (const std::exception &) { threw = true; }
  vc::check(threw, "a truncated payload is rejected");
  std::unordered_set<std::string> want; for (auto &[k, v] : s.metadata) want.insert(k);
  MetadataMap m = ScalarData::deserialize_selected_metadata(p.data(), p.size(), want);
  for (auto &[k, v] : m) vc::check(same(v, s.metadata.at(k)), "fields found in a truncated payload have their stored values");
  for (auto &k : want) { auto v = ScalarData::deserialize_single_metadata_value(p.data(), p.size(), k); if (v) vc::check(same(*v, s.metadata.at(k)), "a field found in a truncated payload has its stored value"); }
}
VC_PROOF(scalar_corrupt) {
  ScalarData s = record(); auto b = s.serialize(); uint64_t n = vc::in("flips", 1, 4);
  for (uint64_t k = 0; k < n; ++k) b[vc::in("at", 0, b.size() - 1)] = (char)vc::in("byte", 0, 255);
  std::vector<char> p(b.begin(), b.end()); p.shrink_to_fit();
  bool ok = true; ScalarData t; try { t = ScalarData::deserialize(p.data(), p.size()); } catch (const std::exception &) { ok = false; }
  if (ok) vc::check(t.serialized_size() <= p.size(), "what is accepted was present in the payload");
  std::unordered_set<std::string> want{"a", "key", "b"};
  ScalarData::deserialize_selected_metadata(p.data(), p.size(), want); ScalarData::deserialize_single_metadata_value(p.data(), p.size(), "key");
}
VC_PROOF(binary_history) {
  binary_io::BinaryWriter w; struct Op { int t; uint64_t v; std::string s; }; std::vector<Op> ops; uint64_t n = vc::in("ops", 0, 12);
  for (uint64_t k = 0; k < n; ++k) {
    Op o{(int)vc::in("op", 0, 5), vc::u64("v"), {}};
    if (o.t >= 3) o.s = text("text");
    switch (o.t) {
      case 0: w.write_u8((uint8_t)o.v); break; case 1: w.write_u32((uint32_t)o.v); break; case 2: w.write_u64(o.v); break;
      case 3: w.write_string(o.s); break; case 4: w.write_blob(std::vector<char>(o.s.begin(), o.s.end())); break;
      default: w.write_bytes(o.s.data(), o.s.size());
    }
    ops.push_back(o);
  }
  auto b = std::move(w).finish(); uint64_t cut = vc::b("whole") ? b.size() : vc::in("cut", 0, b.size());
  std::vector<char> p(b.begin(), b.begin() + cut); p.shrink_to_fit();
  binary_io::BinaryReader r(p.data(), p.size()); uint64_t at = 0;
  for (auto &o : ops) {
    uint64_t need = o.t == 0 ? 1 : o.t == 1 ? 4 : o.t == 2 ? 8 : o.t == 5 ? o.s.size() : 8 + o.s.size(); bool ok = at + need <= cut;
    if (o.t == 0) { auto x = r.read_u8(); vc::check(x.has_value() == ok && (!ok || *x == (uint8_t)o.v), "u8 reads back or is refused"); }
    else if (o.t == 1) { auto x = r.read_u32(); vc::check(x.has_value() == ok && (!ok || *x == (uint32_t)o.v), "u32 reads back or is refused"); }
    else if (o.t == 2) { auto x = r.read_u64(); vc::check(x.has_value() == ok && (!ok || *x == o.v), "u64 reads back or is refused"); }
    else if (o.t == 3) { auto x = r.read_string(); vc::check(x.has_value() == ok && (!ok || *x == o.s), "string reads back or is refused"); }
    else if (o.t == 4) { auto x = r.read_blob(); vc::check(x.has_value() == ok && (!ok || std::string(x->begin(), x->end()) == o.s), "blob reads back or is refused"); }
    else { auto x = r.read_fixed_blob(o.s.size()); vc::check(x.has_value() == ok && (!ok || std::string(x->begin(), x->end()) == o.s), "fixed blob reads back or is refused"); }
    if (!ok) return;
    at += need; vc::check(r.remaining() == cut - at, "remaining bytes");
  }
}
