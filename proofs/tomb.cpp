// tombstone bitmap and slot allocator
// @proof * mode=bv
#include "vc.h"
#include "index/graph/diskann/tombstone_bitmap.hpp"
#include "index/graph/diskann/slot_allocator.hpp"
using namespace alaya::diskann;
using TB = TombstoneBitmap;
// an arbitrary bitmap as seen through two ids: the chunks of both (possibly one and the same, possibly absent) are arbitrary
static void any_chunks(TB &t, uint64_t id, uint64_t q) {
  uint64_t ci = id >> 16, cq = q >> 16;
  uint64_t bits = vc::in("chunks", 0, 1ULL << 16) << 16;
  if (vc::b("have_i")) { auto *w = vc::buf<uint64_t>("wi", 1024); (*t.table_)[ci].store((TB::Chunk *)w); vc::assume((ci + 1) << 16 <= bits); }
  if (cq != ci && vc::b("have_q")) { auto *w = vc::buf<uint64_t>("wq", 1024); (*t.table_)[cq].store((TB::Chunk *)w); vc::assume((cq + 1) << 16 <= bits); }
  t.num_bits_.store(bits);
}
static TB &fresh() { return *new TB(); }
VC_PROOF(tomb_new) {
  TB &t = fresh();
  uint64_t q = vc::u64("q");
  vc::check(!t.is_deleted(q) && t.count() == 0 && t.capacity() == 0, "a new bitmap has no member");
}
VC_PROOF(tomb_set) {
  TB &t = fresh();
  uint64_t id = vc::in("id", 0, 0xFFFFFFFFu), q = vc::in("q", 0, 0xFFFFFFFFu), n = vc::len("count");
  any_chunks(t, id, q); t.count_.store(n);
  bool bq = t.is_deleted(q), bi = t.is_deleted(id); uint64_t cap = t.capacity();
  t.set(id);
  vc::check(t.is_deleted(q) == (bq || q == id), "set marks exactly one id");
  vc::check(t.count() == n + (bi ? 0 : 1), "the count changes exactly when the id was live");
  vc::check(t.capacity() >= cap && t.capacity() > id && t.capacity() % 65536 == 0, "capacity covers the id");
}
VC_PROOF(tomb_clear) {
  TB &t = fresh();
  uint64_t id = vc::in("id", 0, 0xFFFFFFFFu), q = vc::in("q", 0, 0xFFFFFFFFu), n = vc::len("count", 1);
  any_chunks(t, id, q); t.count_.store(n);
  bool bq = t.is_deleted(q), bi = t.is_deleted(id); uint64_t cap = t.capacity();
  t.clear(id);
  vc::check(t.is_deleted(q) == (bq && q != id), "clear unmarks exactly one id");
  vc::check(t.count() == n - (bi ? 1 : 0), "the count changes exactly when the id was deleted");
  vc::check(t.capacity() == cap, "clear never grows");
}
VC_PROOF(tomb_range) {
  TB &t = fresh();
  uint64_t id = vc::in("id", 1ULL << 32, ~0ULL); bool threw = false;
  t.clear(id);
  vc::check(!t.is_deleted(id) && t.count() == 0, "ids beyond the address space are live");
  try { t.set(id); } catch (const std::out_of_range &) { threw = true; }
  vc::check(threw && t.count() == 0, "deleting an id beyond the address space is rejected");
}
VC_PROOF(tomb_snapshot) {
  TB &t = fresh();
  uint64_t id = vc::in("id", 0, 0xFFFFFFFFu), q = vc::in("q", 0, 0xFFFFFFFFu);
#ifndef VC_SYM
  id %= 200000; q %= 200000;
#endif
  any_chunks(t, id, q);
#ifndef VC_SYM
  if (t.capacity() > 400000) throw VcDiscard{};
#endif
  TombstoneSnapshot s;
  uint64_t *dst = nullptr; (void)dst;
  bool bq = t.is_deleted(q);
  auto inv = [&](uint64_t it) { uint64_t w = q >> 6; return w >= it || (s.words_[w] >> (q & 63) & 1) == (bq ? 1 : 0); };
  vc::loop("snapshot_into", inv);
  t.snapshot_into(s);
  vc::check(s.capacity() == t.capacity(), "same capacity");
  vc::check(s.is_deleted(q) == bq, "the snapshot has exactly the members of the bitmap");
}
// ---------------------------------------------------------------- slot allocator
static SlotAllocator &any_alloc(uint64_t id, uint64_t q, uint64_t &nf) {
  SlotAllocator &a = *(SlotAllocator *)::operator new(sizeof(SlotAllocator));
  new (&a) SlotAllocator();
  nf = vc::len("free", 0, 8);
  vc::vec(a.free_list_, "list", nf, nf + 4);
  a.next_fresh_id_ = vc::u32("next");
  any_chunks(a.tombstone_, id, q); a.tombstone_.count_.store(vc::len("count", 1));
  return a;
}
VC_PROOF(slot_alloc) {
  uint64_t want = vc::in("want", 0, 0xFFFFFFFEu), q = vc::in("q", 0, 0xFFFFFFFFu), nf = 0;
  SlotAllocator &a = any_alloc(want, q, nf);
  uint64_t i = vc::in("i", 0, nf ? nf - 1 : 0);
#ifndef VC_SYM
  if (nf) a.free_list_.back() = (uint32_t)want; else a.next_fresh_id_ = (uint32_t)want;
  for (uint64_t k = 0; k + 1 < nf; ++k) a.free_list_[k] = (uint32_t)(want + 1 + k);
#endif
  vc::assume(nf ? a.free_list_[nf - 1] == want : a.next_fresh_id_ == want);   // the id the LIFO discipline hands out
  vc::assume(nf == 0 || i == nf - 1 || a.free_list_[i] != want);                // no id is free twice
  uint32_t fresh = a.next_fresh_id_, fi = nf ? a.free_list_[i] : 0; bool bq = a.is_deleted((uint32_t)q);
  uint32_t id = a.alloc();
  vc::check(id == want, "the most recently freed id is reused, else the next fresh one");
  vc::check(a.next_fresh_id() == fresh + (nf == 0) && a.free_count() == nf - (nf != 0), "exactly one id leaves the pool");
  vc::check(nf == 0 || i == nf - 1 || a.free_list()[i] == fi, "the other free ids stay");
  vc::check(a.is_deleted(id) && a.is_deleted((uint32_t)q) == (bq || q == id), "an allocated id is hidden until published");
  a.publish(id);
  vc::check(!a.is_deleted(id) && a.is_deleted((uint32_t)q) == (bq && q != id), "publishing makes exactly it visible");
}
VC_PROOF(slot_free) {
  uint64_t id = vc::in("id", 0, 0xFFFFFFFEu), q = vc::in("q", 0, 0xFFFFFFFFu), nf = 0;
  SlotAllocator &a = any_alloc(id, q, nf);
  uint64_t i = vc::in("i", 0, nf ? nf - 1 : 0);
  uint32_t fresh = a.next_fresh_id_, fi = nf ? a.free_list_[i] : 0; bool bq = a.is_deleted((uint32_t)q);
  a.free((uint32_t)id);
  vc::check(a.free_count() == nf + 1 && a.free_list()[nf] == id && (nf == 0 || a.free_list()[i] == fi), "the freed id is appended to the free list");
  vc::check(a.is_deleted((uint32_t)q) == (bq || q == id), "exactly the freed id becomes deleted");
  vc::check(a.next_fresh_id() == fresh, "no fresh id is consumed");
}
