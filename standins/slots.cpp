// bounded stand-in: histories, save/load and malformed files of the slot allocator
#include "vc.h"
#include <fstream>
#include <set>
#include <sstream>
#include "index/graph/diskann/slot_allocator.hpp"
using namespace alaya::diskann;
struct Model { std::vector<uint32_t> free; uint32_t next = 0; std::set<uint32_t> dead; };
static void same(const SlotAllocator &a, const Model &m) {
  vc::check(a.next_fresh_id() == m.next && a.free_list() == m.free && a.free_count() == m.free.size() && a.tombstone_count() == m.dead.size(), "allocator state");
  for (uint32_t x = 0; x < m.next + 3; ++x) vc::check(a.is_deleted(x) == (m.dead.count(x) != 0), "hidden ids");
}
VC_PROOF(slot_history) {
  uint32_t ex = (uint32_t)vc::in("existing", 0, 70); SlotAllocator a(ex); Model m; m.next = ex;
  std::vector<uint32_t> live, pending; for (uint32_t i = 0; i < ex; ++i) live.push_back(i);
  uint64_t n = vc::in("ops", 1, 40);
  for (uint64_t k = 0; k < n; ++k) {
    uint64_t op = vc::in("op", 0, 11);
    if (op < 4) {
      uint32_t id = a.alloc(); uint32_t want = m.free.empty() ? m.next++ : m.free.back(); if (!m.free.empty()) m.free.pop_back();
      vc::check(id == want, "alloc reuses the most recently freed id, else the next fresh one");
      for (uint32_t x : live) vc::check(x != id, "a live id is never handed out");
      for (uint32_t x : pending) vc::check(x != id, "a pending id is never handed out");
      m.dead.insert(id); pending.push_back(id);
    } else if (op < 6 && !pending.empty()) { uint64_t i = vc::in("i", 0, pending.size() - 1); uint32_t id = pending[i]; pending.erase(pending.begin() + i); a.publish(id); m.dead.erase(id); live.push_back(id); }
    else if (op < 9 && !live.empty()) { uint64_t i = vc::in("i", 0, live.size() - 1); uint32_t id = live[i]; live.erase(live.begin() + i); a.free(id); m.dead.insert(id); m.free.push_back(id); }
    else if (op == 9) {
      a.save("alloc.bin"); SlotAllocator b((uint32_t)vc::in("other", 0, 5)); if (vc::b("used")) { b.alloc(); b.free(0); }
      b.load("alloc.bin"); same(b, m); vc::check(b.tombstone().capacity() == a.tombstone().capacity(), "capacity survives");
      std::ifstream in("alloc.bin", std::ios::binary); std::string s((std::istreambuf_iterator<char>(in)), {}); in.close();
      s.resize(vc::in("cut", 0, s.size() - 1)); { std::ofstream o("cut.bin", std::ios::binary | std::ios::trunc); o << s; }
      bool threw = false; SlotAllocator c; try { c.load("cut.bin"); } catch (const std::exception &) { threw = true; }
      vc::check(threw, "a truncated allocator file is rejected");
      if (vc::b("adopt")) { SlotAllocator d; d.load("alloc.bin"); same(d, m); a.load("alloc.bin"); }
    } else if (op == 10 && vc::in("reset", 0, 3) == 0) { ex = (uint32_t)vc::in("existing2", 0, 70); a.reset(ex); m = Model{}; m.next = ex; live.clear(); pending.clear(); for (uint32_t i = 0; i < ex; ++i) live.push_back(i); }
    same(a, m);
  }
}
VC_PROOF(slot_malformed) {
  uint64_t magic = SlotAllocator::kMagic, next = vc::in("next", 0, 100), nf = vc::in("free", 0, 20), have = nf; std::string b; int how = (int)vc::in("how", 0, 3);
  if (how == 0) magic ^= 1ULL << vc::in("bit", 0, 63);
  if (how == 1) next = (1ULL << 32) + vc::in("over", 0, 5);
  if (how == 2) { static const uint64_t big[] = {21, 1000, 1ULL << 24, 1ULL << 33, 1ULL << 40, 1ULL << 61, 1ULL << 62, 1ULL << 63, ~0ULL}; nf = big[vc::in("big", 0, 8)]; }
  b.append((char *)&magic, 8); b.append((char *)&next, 8); b.append((char *)&nf, 8);
  for (uint64_t k = 0; k < have; ++k) { uint32_t x = (uint32_t)k; b.append((char *)&x, 4); }
  if (how != 3) { std::stringstream s; TombstoneBitmap t(100); t.serialize(s); b += how == 2 ? std::string() : s.str(); }
  { std::ofstream o("bad.bin", std::ios::binary | std::ios::trunc); o << b; }
  SlotAllocator a; bool threw = false;
  try { a.load("bad.bin"); } catch (const std::exception &) { threw = true; }
  vc::check(threw, "a malformed allocator file is rejected");
}
