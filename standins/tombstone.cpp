// bounded stand-in: histories, save/load and malformed files of the tombstone bitmap 
#include "vc.h"
#include <fstream>
#include <set>
#include <sstream>
#include "index/graph/diskann/tombstone_bitmap.hpp"
using namespace alaya::diskann;
static uint32_t pick_id() {
  static const uint32_t edge[] = {0, 1, 63, 64, 65, 127, 65535, 65536, 65537, 131071, 131072, 200000, 1u << 24};
  return vc::in("kind", 0, 3) == 0 ? (uint32_t)vc::in("id", 0, 200) : edge[vc::in("edge", 0, 12)] + (uint32_t)vc::in("d", 0, 1);
}
static void same(const TombstoneBitmap &t, const std::set<uint32_t> &m, const char *what) {
  vc::check(t.count() == m.size(), "deleted count");
  for (uint32_t x : m) vc::check(t.is_deleted(x) && t.capacity() > x, what);
  static const uint32_t edge[] = {0, 1, 62, 63, 64, 65, 66, 127, 128, 65534, 65535, 65536, 65537, 131071, 131072, 131073, 200000, 200001, 1u << 24, (1u << 24) + 1, ~0u};
  for (uint32_t x : edge) vc::check(t.is_deleted(x) == (m.count(x) != 0), what);
  for (uint32_t x = 0; x < 210; ++x) vc::check(t.is_deleted(x) == (m.count(x) != 0), what);
}
VC_PROOF(tombstone_history) {
  TombstoneBitmap t(vc::in("initial", 0, 3) * 40000); std::set<uint32_t> m;
  uint64_t n = vc::in("ops", 1, 24);
  for (uint64_t k = 0; k < n; ++k) {
    uint64_t op = vc::in("op", 0, 9); uint32_t id = pick_id();
    if (op < 6) { t.set(id); m.insert(id); }
    else if (op < 8) { t.clear(id); m.erase(id); }
    else if (op == 8) {
      std::stringstream s; t.serialize(s); std::string b = s.str();
      vc::check(b.size() == 16 + t.capacity() / 8, "serialized size");
      TombstoneBitmap u(vc::in("other", 0, 1) * 300000); if (vc::b("dirty")) u.set(70000);
      std::istringstream i(b); u.deserialize(i); vc::check(u.capacity() == t.capacity(), "capacity survives the round trip"); same(u, m, "membership survives the round trip");
      uint64_t cut = vc::in("cut", 0, b.size() - 1); std::istringstream j(b.substr(0, cut)); bool threw = false;
      TombstoneBitmap v; try { v.deserialize(j); } catch (const std::exception &) { threw = true; }
      vc::check(threw, "a truncated bitmap is rejected");
    } else { uint64_t bits = vc::in("reset", 0, 3) * 50000; t.reset(bits); m.clear(); vc::check(t.capacity() >= bits, "reset capacity"); }
    same(t, m, "membership after every operation");
    TombstoneSnapshot s; t.snapshot_into(s); for (uint32_t x : m) vc::check(s.is_deleted(x), "snapshot members");
    for (uint32_t x = 0; x < 210; ++x) vc::check(s.is_deleted(x) == (m.count(x) != 0), "snapshot members");
  }
}
VC_PROOF(tombstone_malformed) {
  std::string b; uint64_t magic = TombstoneBitmap::kMagic, n = 0; bool bad = vc::in("badmagic", 0, 3) == 0;
  if (bad) magic ^= 1ULL << vc::in("bit", 0, 63);
  static const uint64_t ns[] = {1, 2, 1024, 1025, 1ULL << 26, (1ULL << 26) + 1, 1ULL << 32, 1ULL << 58, 3ULL << 58, (1ULL << 58) + 1, 1ULL << 63, ~0ULL, ~0ULL >> 6};
  n = ns[vc::in("words", 0, 12)];
  uint64_t have = vc::in("have", 0, 1100);
  if (!bad && n <= have) throw VcDiscard{};
  if (n == (1ULL << 26) && !bad) throw VcDiscard{};   // the largest genuine size: half a gigabyte of bits
  b.append((char *)&magic, 8); b.append((char *)&n, 8); b.append(have * 8, (char)vc::in("fill", 0, 255));
  std::istringstream i(b); TombstoneBitmap t; bool threw = false;
  try { t.deserialize(i); } catch (const std::exception &) { threw = true; }
  vc::check(threw, "a malformed bitmap is rejected");
}
