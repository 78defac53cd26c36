// bounded candidate pools: sorted, bounded, nothing better is ever dropped, cursor at the first unexpanded entry
#include "vc.h"
#include "index/graph/vamana/robust_prune.hpp"
#include "utils/query_utils.hpp"
#include "utils/rabitq_utils/search_utils/buffer.hpp"
#include "index/graph/laser/utils/buffer.hpp"
#include "index/neighbor.hpp"
using namespace alaya::vamana;
// ---------------------------------------------------------------- NeighborPriorityQueue
static bool le(const Neighbor &a, const Neighbor &b) { return a.distance < b.distance || (a.distance == b.distance && a.id <= b.id); }
static bool lt(const Neighbor &a, const Neighbor &b) { return a.distance < b.distance || (a.distance == b.distance && a.id < b.id); }
static bool sorted(NeighborPriorityQueue &q) {
  Neighbor *d = q.data_.data();
  return vc::all2(0, q.size_, [&](uint64_t i, uint64_t j) { return le(d[i], d[j]); });
}
static bool cursor_ok(NeighborPriorityQueue &q) {
  Neighbor *d = q.data_.data();
  return q.cur_ <= q.size_ && vc::all(0, q.cur_, [&](uint64_t i) { return d[i].expanded; });
}
static void any_queue(NeighborPriorityQueue &q) {
  uint64_t cap = vc::len("cap", 0, 6), size = vc::len("size", 0, 6);
  vc::assume(size <= cap);
  vc::vec(q.data_, "data", cap + 1);
  q.size_ = size; q.capacity_ = cap; q.cur_ = vc::len("cur", 0, 6);
  Neighbor *d = q.data_.data();
#ifndef VC_SYM
  for (uint64_t i = 0; i <= cap; ++i) { d[i].id = vcs().next() % 7; d[i].distance = (float)(vcs().next() % 5); d[i].expanded = vcs().next() % 2; }
  std::sort(d, d + size, lt);
  if (q.cur_ > size) q.cur_ = size;
  for (uint64_t i = 0; i < q.cur_; ++i) d[i].expanded = true;
#endif
  vc::assume(sorted(q));
  vc::assume(cursor_ok(q));
}
VC_PROOF(npq_insert) {
  NeighborPriorityQueue q;
  any_queue(q);
  uint64_t size = q.size_, cap = q.capacity_;
  Neighbor *d = q.data_.data();
  uint32_t id = vc::u32("id"); float dist = vc::f32("dist");
  Neighbor nw(id, dist), w = d[size ? size - 1 : 0];
  uint64_t i = vc::len("i", 0, 6); vc::assume(i < size);
  Neighbor old = d[i];
  bool dup = vc::exists(0, size, [&](uint64_t k) { return d[k].id == id; });
  auto ge = [&](uint64_t k) { return k >= size || lt(nw, d[k]); };
  auto nge = [&](uint64_t k) { return k >= size || le(d[k], nw); };
  vc::pred("insert_with_result", ge); vc::pred("insert_with_result", nge);
  auto r = q.insert_with_result(nw);
  vc::check(q.size_ <= cap && q.capacity_ == cap, "size never exceeds capacity");
  vc::check(cursor_ok(q), "every entry before the cursor is expanded");
  vc::check(sorted(q), "entries stay in (distance, id) order");
  vc::check(q.size_ == size || (r.inserted && q.size_ == size + 1 && size < cap), "size grows by one on insert only");
  if (r.inserted) {
    vc::check(vc::exists(0, q.size_, [&](uint64_t k) { return d[k].id == id && d[k].distance == dist && !d[k].expanded; }), "an inserted entry is present");
    vc::check((d[i].id == old.id && d[i].distance == old.distance && d[i].expanded == old.expanded) || (i + 1 < q.size_ && d[i + 1].id == old.id && d[i + 1].distance == old.distance && d[i + 1].expanded == old.expanded) || (r.evicted && i == size - 1), "no entry but the evicted last one is lost");
    vc::check(r.evicted == (size == cap), "eviction exactly when full");
    if (r.evicted) vc::check(r.evicted_id == w.id && !lt(w, nw), "only the worst entry is evicted, and not by a worse one");
  } else {
    vc::check(cap == 0 || dup || (size == cap && lt(w, nw)), "rejected only when present already or worse than all entries of a full queue");
    vc::check(d[i].id == old.id && d[i].distance == old.distance && d[i].expanded == old.expanded && !r.evicted, "a rejected insert changes nothing");
  }
}
VC_PROOF(npq_pop) {
  NeighborPriorityQueue q;
  any_queue(q);
  vc::assume(q.has_unexpanded_node());
  uint64_t size = q.size_, cur = q.cur_; Neighbor *d = q.data_.data();
  vc::assume(!d[cur].expanded);   // the cursor is at the first unexpanded entry
  uint32_t cid = d[cur].id; float cd = d[cur].distance;
  uint64_t i = vc::len("i", 0, 6); vc::assume(i < size);
  Neighbor old = d[i];
  Neighbor n = q.closest_unexpanded();
  vc::check(n.id == cid && n.distance == cd, "pop returns the closest unexpanded entry");
  vc::check(d[i].id == old.id && d[i].distance == old.distance && d[i].expanded == (old.expanded || i == cur), "pop marks exactly that entry");
  vc::check(cursor_ok(q) && q.size_ == size, "every entry before the cursor is expanded");
  vc::check(q.cur_ == size || !d[q.cur_].expanded, "the cursor is at an unexpanded entry or at the end");
  vc::check(q.cur_ > cur, "the cursor advances");
}
// ---------------------------------------------------------------- LinearPool
using LP = alaya::LinearPool<float, uint32_t>;
using LN = alaya::Neighbor<uint32_t, float>;
static bool lp_sorted(LP &q) { LN *d = q.data_.data(); return vc::all2(0, q.size_, [&](uint64_t i, uint64_t j) { return d[i].distance_ <= d[j].distance_; }); }
static bool lp_cursor(LP &q) { LN *d = q.data_.data(); return q.cur_ <= q.size_ && vc::all(0, q.cur_, [&](uint64_t i) { return (d[i].id_ >> 31) != 0; }); }
static void any_pool(LP &q) {
  uint64_t cap = vc::len("cap", 1, 6), size = vc::len("size", 0, 6), cur = vc::len("cur", 0, 6);
  vc::assume(size <= cap && cap <= 0x3FFFFFF0u);
  vc::vec(q.data_, "data", cap + 1);
  q.size_ = size; q.capacity_ = cap; q.cur_ = cur;
  LN *d = q.data_.data();
#ifndef VC_SYM
  for (uint64_t i = 0; i <= cap; ++i) { d[i].id_ = (uint32_t)(vcs().next() % 7) | (uint32_t)(vcs().next() % 2 << 31); d[i].distance_ = (float)(vcs().next() % 5); }
  std::sort(d, d + size, [](const LN &a, const LN &b) { return a.distance_ < b.distance_; });
  if (q.cur_ > size) q.cur_ = size;
  for (uint64_t i = 0; i < q.cur_; ++i) d[i].id_ |= 1u << 31;
#endif
  vc::assume(lp_sorted(q)); vc::assume(lp_cursor(q));
}
VC_PROOF(lp_insert) {
  LP q(1, 0);
  any_pool(q);
  uint64_t size = q.size_, cap = q.capacity_; LN *d = q.data_.data();
  uint32_t id = vc::u32("id"); float dist = vc::f32("dist"); vc::assume(id < 0x80000000u);
  float worst = d[size ? size - 1 : 0].distance_;
  uint64_t i = vc::len("i", 0, 6); vc::assume(i < size);
  uint32_t oid = d[i].id_; float od = d[i].distance_;
  auto above = [&](uint64_t k) { return k >= size || d[k].distance_ > dist; };
  auto below = [&](uint64_t k) { return k >= size || d[k].distance_ <= dist; };
  vc::pred("LinearPool", above); vc::pred("LinearPool", below);
  bool ins = q.insert(id, dist);
  vc::check(q.size_ <= cap && q.capacity_ == cap, "size never exceeds capacity");
  vc::check(lp_sorted(q), "entries stay in distance order");
  vc::check(lp_cursor(q), "every entry before the cursor is checked");
  vc::check(ins == !(size == cap && dist >= worst), "rejected exactly when full and not better than the worst");
  vc::check(q.size_ == size + (ins && size < cap), "size grows by one on insert below capacity");
  if (ins) {
    vc::check(vc::exists(0, q.size_, [&](uint64_t k) { return d[k].id_ == id && d[k].distance_ == dist; }), "an inserted entry is present");
    vc::check((d[i].id_ == oid && d[i].distance_ == od) || (i + 1 < q.size_ && d[i + 1].id_ == oid && d[i + 1].distance_ == od) || (size == cap && i == size - 1), "no entry but the worst one of a full pool is lost");
  } else vc::check(d[i].id_ == oid && d[i].distance_ == od, "a rejected insert changes nothing");
}
VC_PROOF(lp_pop) {
  LP q(1, 0);
  any_pool(q);
  vc::assume(q.has_next());
  uint64_t size = q.size_, cur = q.cur_; LN *d = q.data_.data();
  vc::assume((d[cur].id_ >> 31) == 0);
  uint32_t cid = d[cur].id_; float cd = d[cur].distance_, pd = 0;
  uint64_t i = vc::len("i", 0, 6); vc::assume(i < size);
  uint32_t oid = d[i].id_; float od = d[i].distance_;
  uint32_t r = q.pop(pd);
  vc::check(r == cid && pd == cd, "pop returns the closest unchecked entry");
  vc::check(d[i].distance_ == od && (d[i].id_ & 0x7FFFFFFF) == (oid & 0x7FFFFFFF) && (i == cur || d[i].id_ == oid), "pop marks exactly that entry");
  vc::check(lp_cursor(q) && q.size_ == size, "every entry before the cursor is checked");
  vc::check(q.cur_ == size || (d[q.cur_].id_ >> 31) == 0, "the cursor is at an unchecked entry or at the end");
}
// ---------------------------------------------------------------- the two search buffers
template <class B, class C> struct SB {
  static bool sorted(B &q) { C *d = q.data_.data(); return vc::all2(0, q.size_, [&](uint64_t i, uint64_t j) { return dist(d[i]) <= dist(d[j]); }); }
  static bool cursor(B &q) { C *d = q.data_.data(); return q.cur_ <= q.size_ && vc::all(0, q.cur_, [&](uint64_t i) { return (id(d[i]) >> 31) != 0; }); }
  static float dist(const C &c) { if constexpr (requires { c.distance_; }) return c.distance_; else return c.distance; }
  static uint32_t id(const C &c) { if constexpr (requires { c.id_; }) return c.id_; else return c.id; }
  static void set(C &c, uint32_t i, float x) { if constexpr (requires { c.distance_; }) { c.distance_ = x; c.id_ = i; } else { c.distance = x; c.id = i; } }
  static void any(B &q) {
    uint64_t cap = vc::len("cap", 1, 6), size = vc::len("size", 0, 6), cur = vc::len("cur", 0, 6);
    vc::assume(size <= cap);
    vc::vec(q.data_, "data", cap + 1);
    q.size_ = size; q.capacity_ = cap; q.cur_ = cur;
    C *d = q.data_.data();
#ifndef VC_SYM
    for (uint64_t i = 0; i <= cap; ++i) set(d[i], (uint32_t)(vcs().next() % 7) | (uint32_t)(vcs().next() % 2 << 31), (float)(vcs().next() % 5));
    std::sort(d, d + size, [](const C &a, const C &b) { return dist(a) < dist(b); });
    if (q.cur_ > size) q.cur_ = size;
    for (uint64_t i = 0; i < q.cur_; ++i) set(d[i], id(d[i]) | 1u << 31, dist(d[i]));
#endif
    vc::assume(sorted(q)); vc::assume(cursor(q));
  }
  static void insert() {
    B q; any(q);
    uint64_t size = q.size_, cap = q.capacity_; C *d = q.data_.data();
    uint32_t nid = vc::u32("id"); float x = vc::f32("dist"); vc::assume(nid < 0x80000000u);
    vc::assume(x < 3e38f);
    float worst = dist(d[size ? size - 1 : 0]);
    uint64_t i = vc::len("i", 0, 6); vc::assume(i < size);
    uint32_t oid = id(d[i]); float od = dist(d[i]);
    vc::check(q.is_full(x) == (size == cap && x > worst), "is_full says whether the entry would be dropped");
    bool drop = q.is_full(x);
    vc::assume(!drop || sizeof(C) == 0 || true);
    auto above = [&](uint64_t k) { return k >= size || dist(d[k]) >= x; };
    auto below = [&](uint64_t k) { return k >= size || dist(d[k]) < x; };
    vc::pred("SearchBuffer", above); vc::pred("SearchBuffer", below);
    bool ins = true;
    if constexpr (std::is_same_v<decltype(q.insert(nid, x)), bool>) ins = q.insert(nid, x); else if (!drop) q.insert(nid, x); else ins = false;
    vc::check(ins == !drop, "rejected exactly when full and worse than all");
    vc::check(q.size_ <= cap && q.capacity_ == cap, "size never exceeds capacity");
    vc::check(sorted(q), "entries stay in distance order");
    vc::check(cursor(q), "every entry before the cursor is checked");
    vc::check(q.size_ == size + (ins && size < cap), "size grows by one on insert below capacity");
    if (ins) {
      vc::check(vc::exists(0, q.size_, [&](uint64_t k) { return id(d[k]) == nid && dist(d[k]) == x; }), "an inserted entry is present");
      vc::check((id(d[i]) == oid && dist(d[i]) == od) || (i + 1 < q.size_ && id(d[i + 1]) == oid && dist(d[i + 1]) == od) || (size == cap && i == size - 1), "no entry but the worst one of a full buffer is lost");
    }
  }
  static void pop() {
    B q; any(q);
    vc::assume(q.has_next());
    uint64_t size = q.size_, cur = q.cur_; C *d = q.data_.data();
    uint32_t cid = id(d[cur]);
    vc::assume((cid >> 31) == 0);
    uint64_t i = vc::len("i", 0, 6); vc::assume(i < size);
    uint32_t oid = id(d[i]); float od = dist(d[i]);
    uint32_t r = q.pop();
    vc::check(r == cid, "pop returns the closest unchecked entry");
    vc::check(dist(d[i]) == od && (id(d[i]) & 0x7FFFFFFF) == (oid & 0x7FFFFFFF) && (i == cur || id(d[i]) == oid), "pop marks exactly that entry");
    vc::check(cursor(q) && q.size_ == size, "every entry before the cursor is checked");
    vc::check(q.cur_ == size || (id(d[q.cur_]) >> 31) == 0, "the cursor is at an unchecked entry or at the end");
  }
};
using RB = alaya::SearchBuffer<float>;
using LB = alaya::laser::buffer::SearchBuffer;
VC_PROOF(rabitq_insert) { SB<RB, RB::ANNCand>::insert(); }
VC_PROOF(rabitq_pop) { SB<RB, RB::ANNCand>::pop(); }
VC_PROOF(laser_insert) { SB<LB, std::remove_reference_t<decltype(LB().data_[0])>>::insert(); }
VC_PROOF(laser_pop) { SB<LB, std::remove_reference_t<decltype(LB().data_[0])>>::pop(); }
// ---------------------------------------------------------------- laser result buffer
VC_PROOF(result_insert) {
  alaya::laser::buffer::ResultBuffer q(0);
  uint64_t cap = vc::len("cap", 1, 6), size = vc::len("size", 0, 6);
  vc::assume(size <= cap);
  vc::vec(q.ids_, "ids", cap + 1); vc::vec(q.distances_, "dists", cap + 1);
  q.size_ = size; q.capacity_ = cap;
  uint32_t *id = q.ids_.data(); float *ds = q.distances_.data();
#ifndef VC_SYM
  for (uint64_t k = 0; k <= cap; ++k) ds[k] = (float)(vcs().next() % 5);
  std::sort(ds, ds + size);
#endif
  vc::assume(vc::all2(0, size, [&](uint64_t i, uint64_t j) { return ds[i] <= ds[j]; }));
  uint32_t nid = vc::u32("id"); float x = vc::f32("dist");
  float worst = ds[size ? size - 1 : 0];
  uint64_t i = vc::len("i", 0, 6); vc::assume(i < size);
  uint32_t oid = id[i]; float od = ds[i];
  auto above = [&](uint64_t k) { return k >= size || ds[k] >= x; };
  auto below = [&](uint64_t k) { return k >= size || ds[k] < x; };
  vc::pred("ResultBuffer", above); vc::pred("ResultBuffer", below);
  q.insert(nid, x);
  bool ins = !(size == cap && x > worst);
  vc::check(q.size_ == size + (ins && size < cap) && q.size_ <= cap, "size never exceeds capacity");
  vc::check(vc::all2(0, q.size_, [&](uint64_t i, uint64_t j) { return ds[i] <= ds[j]; }), "entries stay in distance order");
  if (ins) {
    vc::check(vc::exists(0, q.size_, [&](uint64_t k) { return id[k] == nid && ds[k] == x; }), "an inserted entry is present");
    vc::check((id[i] == oid && ds[i] == od) || (i + 1 < q.size_ && id[i + 1] == oid && ds[i + 1] == od) || (size == cap && i == size - 1), "no entry but the worst one of a full buffer is lost");
  } else vc::check(id[i] == oid && ds[i] == od, "a rejected insert changes nothing");
}
