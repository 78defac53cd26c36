// visited / filter bitsets behave as sets of ids
// @proof * mode=bv
#include "vc.h"
#include "utils/query_utils.hpp"
#include "index/graph/diskann/visited_bitset.hpp"
using namespace alaya;
static uint64_t any_bits(DynamicBitset &b) {
  uint64_t n = vc::len("bits", 1, 300);
  vc::vec(b.data_, "words", (n + 63) / 64);
  b.size_ = n;
  return n;
}
VC_PROOF(dyn_set) {
  DynamicBitset b(0);
  uint64_t n = any_bits(b), pos = vc::in("pos", 0, n - 1), q = vc::in("q", 0, n - 1);
  bool before = b.get(q);
  b.set(pos);
  vc::check(b.get(q) == (before || q == pos), "set adds exactly one member");
}
VC_PROOF(dyn_reset) {
  DynamicBitset b(0);
  uint64_t n = any_bits(b), pos = vc::in("pos", 0, n - 1), q = vc::in("q", 0, n - 1);
  bool before = b.get(q);
  b.reset(pos);
  vc::check(b.get(q) == (before && q != pos), "reset removes exactly one member");
}
VC_PROOF(dyn_clear) {
  DynamicBitset b(0);
  uint64_t n = any_bits(b), q = vc::in("q", 0, n - 1);
  b.clear();
  vc::check(!b.get(q), "clear removes every member");
  b.set_all();
  vc::check(b.get(q), "set_all adds every member");
  vc::check(b.size() == n, "size unchanged");
}
VC_PROOF(dyn_ctor) {
  uint64_t n = vc::len("bits", 1, 300), q = vc::in("q", 0, n - 1);
  DynamicBitset b(n);
  vc::check(b.size() == n, "size");
  vc::check(!b.get(q), "a new bitset is empty");
}
template <class T> static void epoch_step() {
  EpochVisitedSet<T> s;
  uint64_t n = vc::len("n", 1, 40);
  vc::vec(s.tags_, "tags", n);
  s.epoch_ = (T)vc::u64("epoch");
  vc::assume(s.epoch_ != 0);
  // representation invariant: no tag is ahead of the epoch
  vc::assume(vc::all(0, n, [&](uint64_t k) { return s.tags_.data()[k] <= s.epoch_; }));
  uint32_t id = (uint32_t)vc::in("id", 0, n - 1 < 0xFFFFFFFFu ? n - 1 : 0xFFFFFFFFu), q = (uint32_t)vc::in("q", 0, n - 1 < 0xFFFFFFFFu ? n - 1 : 0xFFFFFFFFu);
  bool before = s.get(q);
  s.set(id);
  vc::check(s.get(q) == (before || q == id), "set adds exactly one member");
  s.clear();
  vc::check(!s.get(q), "clear removes every member");
  vc::check(s.epoch_ != 0, "epoch never zero");
  vc::check(vc::all(0, n, [&](uint64_t k) { return s.tags_.data()[k] <= s.epoch_; }), "no tag ahead of the epoch");
  vc::check(s.size() == n, "size unchanged");
  s.set(q);
  vc::check(s.get(q), "set after clear");
}
VC_PROOF(epoch32) { epoch_step<uint32_t>(); }
VC_PROOF(epoch16) { epoch_step<uint16_t>(); }
VC_PROOF(epoch8) { epoch_step<uint8_t>(); }
VC_PROOF(epoch_resize) {
  EpochVisitedSet<uint32_t> s;
  uint64_t n = vc::len("n", 1, 40);
  s.resize(n);
  uint64_t q = vc::in("q", 0, n - 1);
  vc::assume(q <= 0xFFFFFFFFu);
  vc::check(!s.get((uint32_t)q) && s.size() == n && s.epoch_ != 0, "a new set is empty");
}
// representation invariant of the hierarchical bitset: a summary bit is set exactly for the blocks holding a member
static uint64_t any_hier(HierarchicalBitset &h, uint64_t maxbits) {
  uint64_t n = vc::len("bits", 1, 70000);
  vc::assume(n <= maxbits);
  uint64_t nw = (n + 63) / 64;
  vc::vec(h.data_, "words", nw);
  vc::vec(h.summary_, "summary", (nw + 63) / 64);
  h.size_ = n;
#ifndef VC_SYM
  bool sparse = vcs().next() % 2;
  for (auto &w : h.data_) if (sparse && vcs().next() % 1024) w = 0;
  if (n % 64) h.data_.back() &= (1ULL << (n % 64)) - 1;
  for (auto &x : h.summary_) x = 0;
  for (uint64_t i = 0; i < nw; ++i) if (h.data_[i]) h.summary_[i / 512] |= 1ULL << (i / 8 % 64);
#endif
  return n;
}
VC_PROOF(hier_set) {
  HierarchicalBitset h(0);
  uint64_t n = any_hier(h, 1ULL << 40), pos = vc::in("pos", 0, n - 1), q = vc::in("q", 0, n - 1);
  bool before = h.get(q);
  uint64_t s = h.summary_[q / 512 / 64];
  h.set(pos);
  vc::check(h.get(q) == (before || q == pos), "set adds exactly one member");
  vc::check(h.summary_[q / 512 / 64] == (s | (q / 512 / 64 == pos / 512 / 64 ? 1ULL << (pos / 512 % 64) : 0)), "summary records exactly the block");
}
VC_PROOF(hier_get) {
  HierarchicalBitset h(0);
  uint64_t n = any_hier(h, 1ULL << 40), p = vc::in("p", 0, n - 1);
  vc::check(h.get(p) == ((h.data_[p >> 6] >> (p & 63) & 1) != 0), "membership is the bit");
}
VC_PROOF(hier_new) {
  uint64_t n = vc::len("bits", 1, 70000), q = vc::in("q", 0, n - 1);
  vc::assume(n < 0x80000000u);
  HierarchicalBitset h(n);
  vc::check(!h.get(q), "a new bitset is empty");
  vc::check(h.find_first_set() == -1, "an empty bitset has no first member");
}
VC_PROOF(hier_find) {
  HierarchicalBitset h(0);
  uint64_t n = any_hier(h, 0x7FFFFFFFu), nw = (n + 63) / 64;
  uint64_t *w = h.data_.data(), *s = h.summary_.data();
  uint64_t ns = (nw + 63) / 64;
  // consequences of the invariant: a nonzero summary word's first block holds a member; a member's block is summarised
  vc::assume(vc::all(0, ns, [&](uint64_t i) {
    if (s[i] == 0) return true;
    uint64_t b = i * 64 + count_trailing_zeros(s[i]), x = 0;
    if (b * 8 >= nw) return false;
    for (int j = 0; j < 8; ++j) x |= b * 8 + j < nw ? w[b * 8 + j] : 0;
    return x != 0; }));
  vc::assume(vc::all(0, nw, [&](uint64_t i) { return w[i] == 0 || ((s[i / 512] >> (i / 8 % 64) & 1) != 0); }));
  vc::assume((w[nw - 1] & (~1ULL << ((n - 1) % 64))) == 0);
  auto zero = [&](uint64_t it) { return vc::all(0, it, [&](uint64_t k) { return s[k] == 0; }); };
  vc::loop("find_first_set#0", zero);
  int r = h.find_first_set();
  uint64_t p = vc::in("p", 0, n - 1); bool member = (w[p >> 6] >> (p & 63) & 1) != 0;
  if (r < 0) vc::check(!member, "-1 only when empty");
  else {
    uint64_t x = (uint64_t)r;
    vc::check((x >> 6) < nw, "lemma: inside the words");
    vc::check((w[x >> 6] >> (x & 63) & 1) != 0, "the position found is a member");
    vc::check(x < n, "the position found is inside the set");
    vc::check(!member | (s[p >> 15] >> (p >> 9 & 63) & 1), "lemma: its block is summarised");
    vc::check(!member | ((p >> 15) >= (x >> 15)), "lemma: no member in an earlier summary word");
    vc::check(!member | ((p >> 9) >= (x >> 9)), "lemma: no member in an earlier block");
    vc::check(!member | ((p >> 6) >= (x >> 6)), "lemma: no member in an earlier word");
    vc::check(!member | (p >= x), "no smaller member");
  }
}
using diskann::VisitedBitset;
static uint64_t any_visited(VisitedBitset &v) {
  uint64_t n = vc::len("bits", 1, 300);
  vc::vec(v.words_, "words", (n + 63) / 64);
  v.n_bits_ = n;
  return n;
}
VC_PROOF(visited_set) {
  VisitedBitset v;
  uint64_t n = any_visited(v);
  uint64_t nd = vc::in("dirty", 0, 40);
  vc::vec(v.dirty_words_, "dirt", nd, nd + 4);
  uint32_t id = vc::u32("id"), q = vc::u32("q");
  vc::assume(q < n && id < n);
  bool before = v.test(q), bid = v.test(id);
  uint64_t w = v.words_[id >> 6];
  bool fresh;
  if (vc::b("tas")) { fresh = v.test_and_set(id); vc::check(fresh == !bid, "test_and_set reports first visit"); }
  else v.set(id);
  vc::check(v.test(q) == (before || q == id), "set adds exactly one member");
  vc::check(v.dirty_words_.size() == nd + (w == 0) && (w != 0 || v.dirty_words_[nd] == id >> 6), "a word turning nonzero is recorded dirty");
}
VC_PROOF(visited_range) {
  VisitedBitset v;
  uint64_t n = any_visited(v);
  uint32_t id = vc::u32("id");
  vc::assume(id >= n);
  int which = (int)vc::in("which", 0, 2); bool threw = false, t = false;
  try { if (which == 0) t = v.test(id); else if (which == 1) v.set(id); else t = v.test_and_set(id); } catch (const std::out_of_range &) { threw = true; }
  vc::check(threw, "out-of-range ids are rejected");
}
VC_PROOF(visited_resize) {
  VisitedBitset v;
  uint64_t n = vc::len("bits", 1, 300);
  v.resize(n);
  uint32_t q = vc::u32("q"); vc::assume(q < n);
  vc::check(!v.test(q) && v.size_bits() == n, "a new set is empty");
}
// every nonzero word is listed dirty at or after position `from` (uf picks the position)
// @proof visited_clear mode=int
VC_PROOF(visited_clear) {
  VisitedBitset v;
  uint64_t n = any_visited(v), nw = (n + 63) / 64;
  uint64_t nd = vc::in("dirty", 0, 40);
  vc::vec(v.dirty_words_, "dirt", nd, nd + 4);
  uint64_t *w = v.words_.data(); uint32_t *dw = v.dirty_words_.data();
#ifndef VC_SYM
  for (uint64_t i = 0; i < nd; ++i) dw[i] %= nw;
  for (uint64_t i = 0; i < nw; ++i) { bool l = false; for (uint64_t j = 0; j < nd; ++j) l |= dw[j] == i; if (!l) w[i] = 0; }
#else
  vc::assume(vc::all(0, nd, [&](uint64_t i) { return dw[i] < nw; }));
  auto inv = [&](uint64_t it) { return vc::all(0, nw, [&](uint64_t k) { return w[k] == 0 || (vc::uf("pos", k) >= it && vc::uf("pos", k) < nd && dw[vc::uf("pos", k)] == k); }); };
  vc::assume(inv(0));
  vc::loop("VisitedBitset::clear", inv);
#endif
  uint32_t q = vc::u32("q"); vc::assume(q < n);
  v.clear();
  vc::check(w[q >> 6] == 0, "clear zeroes the word");
  vc::check(!v.test(q), "clear removes every member");
  vc::check(v.dirty_words_.empty(), "nothing left to clean");
}
