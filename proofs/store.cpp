// vector storage: placement, validity bits, rejection
// @proof * mode=int
// @proof insert_bits mode=bv
// @proof remove_bits mode=bv
// @natlibs -lrocksdb
#include "vc.h"
#include "storage/sequential_storage.hpp"
using Store = alaya::SequentialStorage<float, uint32_t>;
// any reachable state: capacity slots of `stride` bytes holding items of `size` bytes, pos used
struct St {
  Store s; uint64_t pos = vc::len("pos", 0, 30), cap = pos + vc::len("free", 0, 5), size, stride; char *d; uint8_t *b; uint64_t nb;
  St(bool bits = false) {
    vc::assume(cap < 0xFFFFFFFFULL);
    size = bits ? 8 : vc::len("size", 1, 80); stride = bits ? 64 : size + vc::in("pad", 0, 63); vc::assume(size <= 1 << 20 && stride % 4 == 0);
    nb = (cap + 7) / 8; d = vc::buf<char>("d", stride * cap); b = vc::buf<uint8_t>("b", nb);
    s.item_size_ = size; s.aligned_item_size_ = stride; s.capacity_ = cap; s.alignment_ = 64; s.pos_ = pos; s.data_ = (float *)d; s.bitmap_ = b;
  }
  ~St() { s.data_ = nullptr; s.bitmap_ = nullptr; }
  bool bit(uint64_t i) { return (b[i / 8] >> (i % 8)) & 1; }
};
VC_PROOF(insert_data) {
  St t; const char *v = vc::buf<char>("v", t.size); uint64_t i = vc::len("i", 0, 40), k = vc::len("k", 0, 40); vc::assume(i < t.cap && k < t.size);
  char old = t.d[i * t.stride + k];
  uint32_t id = t.s.insert((const float *)v);
  if (t.pos >= t.cap) vc::check(id == 0xFFFFFFFFU && t.s.pos_ == t.pos, "a full storage rejects the item");
  else vc::check(id == t.pos && t.s.pos_ == t.pos + 1, "ids are handed out in order");
  const char *p = (const char *)t.s[(uint32_t)i];
  vc::check(p == t.d + i * t.stride, "items live at their own stride");
  if (i == t.pos) vc::check(p[k] == v[k], "the stored bytes are the given bytes"); else vc::check(p[k] == old, "other items are untouched");
}
VC_PROOF(insert_bits) {
  St t(true); const char *v = vc::buf<char>("v", t.size); uint64_t i = vc::len("i", 0, 40); vc::assume(i < t.cap);
  bool was = t.bit(i); int how = (int)vc::in("how", 0, 1);
  uint32_t id = how ? t.s.insert((const float *)v) : t.s.reserve();
  vc::check(id == (t.pos < t.cap ? (uint32_t)t.pos : 0xFFFFFFFFU), "ids are handed out in order until the storage is full");
  vc::check(t.s.pos_ == t.pos + (t.pos < t.cap), "position advances with each accepted item");
  vc::check(t.s.is_valid((uint32_t)i) == (i == t.pos || was), "exactly the new item becomes valid");
}
VC_PROOF(remove_bits) {
  St t(true); uint32_t r = (uint32_t)vc::len("r", 0, 40), i = (uint32_t)vc::len("i", 0, 40); bool was = i < t.cap && t.bit(i), had = r < t.cap && t.bit(r);
  vc::check(t.s.is_valid(i) == was, "validity is the item's bit; ids beyond the capacity are invalid");
  uint32_t out = t.s.remove(r);
  vc::check(out == (had ? r : 0xFFFFFFFFU), "removing reports the id, or rejects an absent one");
  vc::check(t.s.is_valid(i) == (was && i != r), "exactly the removed item becomes invalid");
}
VC_PROOF(update_data) {
  St t; const char *v = vc::buf<char>("v", t.size); uint32_t r = (uint32_t)vc::len("r", 0, 40); uint64_t i = vc::len("i", 0, 40), k = vc::len("k", 0, 40); vc::assume(i < t.cap && k < t.size);
  char old = t.d[i * t.stride + k]; bool had = t.s.is_valid(r);
  uint32_t out = t.s.update(r, (const float *)v);
  vc::check(out == (had ? r : 0xFFFFFFFFU), "updating reports the id, or rejects an absent one");
  char now = t.d[i * t.stride + k];
  if (had && i == r) vc::check(now == v[k], "the item holds the new bytes"); else vc::check(now == old, "other items are untouched");
}
// @proof init mode=int
VC_PROOF(init) {
  Store s; uint64_t size = vc::in("size", 1, 1 << 20), cap = vc::len("cap", 1, 30); vc::assume(cap < 0xFFFFFFFFULL); char fill = (char)vc::u8("fill");
#ifndef VC_SYM
  size = size % 300 + 1;
#endif
  s.init(size, cap, fill);
  vc::check(s.aligned_item_size_ % 64 == 0 && s.aligned_item_size_ >= size && s.aligned_item_size_ < size + 64, "items are padded to the alignment");
  vc::check(s.pos_ == 0 && s.capacity_ == cap, "a new storage is empty");
  uint64_t i = vc::u64("i"), k = vc::u64("k"); vc::assume(i < cap && k < size);
  const char *p = (const char *)s[(uint32_t)i]; vc::check(p[k] == fill, "every slot exists and is filled");
  vc::check(!s.is_valid((uint32_t)i), "no item is valid");
}
