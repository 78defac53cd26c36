// persistence of the tombstone bitmap and of the slot allocator
// @proof * mode=bv fl=bits
// @flags -D_GLIBCXX_EXTERN_TEMPLATE=0
#include "vc_io.h"
#include "index/graph/diskann/slot_allocator.hpp"
using namespace alaya::diskann;
using TB = TombstoneBitmap;
static TB::Chunk *chunk(const char *n) { return (TB::Chunk *)vc::buf<uint64_t>(n, 1024); }
static void two(TB &t) {   // 0, 1 or 2 chunks, the first possibly absent
  uint64_t nc = vc::in("nc", 0, 2); for (uint64_t k = 0; k < 3; ++k) if (vc::fork(nc == k)) { nc = k; break; }
  if (nc >= 1 && vc::fork(vc::b("have0"))) (*t.table_)[0].store(chunk("w0"));
  if (nc >= 2) (*t.table_)[1].store(chunk("w1"));
  t.num_bits_.store(nc << 16);
}
VC_PROOF(tomb_roundtrip) {
  TB &t = *new TB(), &u = *new TB(); two(t); std::ostream &o = vc::ostream(); t.serialize(o); uint64_t n = 0; const uint8_t *d = vc::written(o, n);
  vc::check(n == 16 + t.capacity() / 8, "the bitmap is written as magic, word count and words");
  std::istream &in = vc::istream(d, n); u.deserialize(in); uint64_t q = vc::in("q", 0, 200000);
  vc::check(u.capacity() == t.capacity(), "the capacity comes back"); vc::check(u.is_deleted(q) == t.is_deleted(q), "every id reads back as written"); vc::stop();
}
VC_PROOF(slots_roundtrip) {
  SlotAllocator a, b; a.next_fresh_id_ = vc::u32("next"); uint64_t n = vc::len("n", 0, 12); vc::vec(a.free_list_, "free", n);
  a.save("s"); b.load("s");
  vc::check(b.next_fresh_id() == a.next_fresh_id() && b.free_count() == n, "the fresh id and the number of free slots come back");
  vc::check(vc::all(0, n, [&](uint64_t k) { return b.free_list()[k] == a.free_list()[k]; }), "the free slots come back in order"); vc::check(b.tombstone().capacity() == 0, "the bitmap comes back"); vc::stop();
}
VC_PROOF(slots_reject) {   // shorter than the shortest complete file (no free slot, empty bitmap)
  uint64_t n = vc::in("n", 0, 39); const uint8_t *d = vc::buf<uint8_t>("d", n); vc::file("s", d, n);
  SlotAllocator b; bool threw = false; try { b.load("s"); } catch (const std::runtime_error &) { threw = true; }
  vc::check(threw, "a truncated file is rejected"); vc::stop();
}
VC_PROOF(tomb_reject) {
  uint64_t n = vc::len("n", 0, 40); const uint8_t *d = vc::buf<uint8_t>("d", n); uint64_t m = 0; if (vc::fork(n >= 16)) for (int k = 0; k < 8; ++k) m |= (uint64_t)d[k] << (8 * k);
  vc::assume(m != TB::kMagic); TB &t = *new TB(); std::istream &in = vc::istream(d, n); bool threw = false; try { t.deserialize(in); } catch (const std::runtime_error &) { threw = true; }
  vc::check(threw && t.count() == 0 && t.capacity() == 0, "a stream that is too short or has another magic is rejected and leaves the bitmap alone"); vc::stop();
}
