// the spaces' own bookkeeping: counts, capacity, rejection, decoded distance
// @proof * mode=int native=1
// @flags -D_GLIBCXX_EXTERN_TEMPLATE=0 -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL
// @natlibs -lrocksdb -lspdlog -lfmt
#include "vc.h"
#include "space/raw_space.hpp"
#include "space/sq4_space.hpp"
#include "space/sq8_space.hpp"
using namespace alaya;
VC_PROOF(raw_insert) {
  using Sp = RawSpace<float, float, uint32_t>; alignas(Sp) static char mem[sizeof(Sp)]; 
  Sp *s = new Sp; uint64_t pos = vc::len("pos", 0, 30), cap = pos + vc::len("free", 0, 5), dim = vc::in("dim", 1, 100000); vc::assume(cap < 0xFFFFFFFFULL);
#ifndef VC_SYM
  dim = dim % 20 + 1;
#endif
  uint64_t size = dim * 4, stride = size + vc::in("pad", 0, 63); vc::assume(stride % 4 == 0); char *d = vc::buf<char>("d", stride * cap); uint8_t *b = vc::buf<uint8_t>("b", (cap + 7) / 8);
  auto &t = s->data_storage_; t.item_size_ = size; t.aligned_item_size_ = stride; t.capacity_ = cap; t.alignment_ = 64; t.pos_ = pos; t.data_ = (float *)d; t.bitmap_ = b;
  uint32_t del = vc::u32("del"); vc::assume(del <= pos); s->capacity_ = (uint32_t)cap; s->dim_ = (uint32_t)dim; s->item_cnt_ = (uint32_t)pos; s->delete_cnt_ = del;
  const float *v = vc::buf<float>("v", dim); uint64_t k = vc::u64("k"); vc::assume(k < dim);
  uint32_t id = s->insert(v);
  if (pos >= cap) vc::check(id == 0xFFFFFFFFU && s->get_data_num() == pos, "a full space rejects the item and keeps its count");
  else { vc::check(id == pos && s->get_data_num() == pos + 1, "the count and the id advance together"); vc::check(s->get_data_by_id(id)[k] == v[k], "the vector is readable under its id"); }
  vc::check(s->get_avl_data_num() == s->get_data_num() - del, "available items");
  t.data_ = nullptr; t.bitmap_ = nullptr;
}
template <class Sp, class Q> static void removal(Q setup) {
  Sp *s = new Sp; uint64_t pos = vc::len("pos", 0, 30), cap = pos + vc::len("free", 0, 5); vc::assume(cap < 0xFFFFFFFFULL);
  char *d = vc::buf<char>("d", 64 * cap); uint8_t *b = vc::buf<uint8_t>("b", (cap + 7) / 8);
  auto &t = s->data_storage_; t.item_size_ = 8; t.aligned_item_size_ = 64; t.capacity_ = cap; t.alignment_ = 64; t.pos_ = pos; t.data_ = (decltype(t.data_))d; t.bitmap_ = b;
  uint32_t del = vc::u32("del"); vc::assume(del <= pos); s->capacity_ = (uint32_t)cap; s->dim_ = 2; s->item_cnt_ = (uint32_t)pos; s->delete_cnt_ = del; 
  uint32_t r = (uint32_t)vc::len("r", 0, 40), i = (uint32_t)vc::len("i", 0, 40); bool had = r < cap && ((b[r / 8] >> (r % 8)) & 1), was = i < cap && ((b[i / 8] >> (i % 8)) & 1); vc::assume(!had | (del < pos));
  uint32_t out = s->remove(r);
  vc::check(out == (had ? r : 0xFFFFFFFFU), "removing reports the id, or rejects an absent one");
  vc::check(s->get_data_num() == pos && s->delete_cnt_ == del + had, "a removal counts exactly when something was removed");
  vc::check(t.is_valid(i) == (was & (i != r)), "exactly the removed item becomes invalid");
  t.data_ = nullptr; t.bitmap_ = nullptr;
}
// @proof raw_remove mode=bv
VC_PROOF(raw_remove) { removal<RawSpace<float, float, uint32_t>>([] {}); }
// @proof sq8_remove mode=bv
VC_PROOF(sq8_remove) { removal<SQ8Space<float, float, uint32_t>>([] {}); }
// @proof sq4_remove mode=bv
VC_PROOF(sq4_remove) { removal<SQ4Space<float, float, uint32_t>>([] {}); }
// the distance handed back is the metric function applied to the query bytes, the stored item and the dimension
static const void *g_a, *g_b, *g_lo, *g_hi; static size_t g_n; static float g_r; static float g_q; static uint64_t g_k;
static float probe(const float *a, const float *b, size_t n) { g_a = a; g_b = b; g_n = n; g_q = a[g_k]; return g_r; }
static float probe_sq(const uint8_t *a, const uint8_t *b, size_t n, const float *lo, const float *hi) { g_a = a; g_b = b; g_n = n; g_lo = lo; g_hi = hi; return g_r; }
template <class Sp> struct Fill {
  Sp *s = new Sp; uint64_t pos = vc::len("pos", 0, 30), cap = pos + vc::len("free", 0, 5), dim = vc::in("dim", 1, 100000), size, stride; char *d; uint8_t *b;
  explicit Fill(int per) {
    vc::assume(cap < 0xFFFFFFFFULL);
#ifndef VC_SYM
    dim = dim % 20 + 1;
#endif
    size = per == 4 ? dim * 4 : per == 1 ? dim : (dim + 1) / 2; stride = size + vc::in("pad", 0, 63); vc::assume(stride % 4 == 0);
    d = vc::buf<char>("d", stride * cap); b = vc::buf<uint8_t>("b", (cap + 7) / 8);
    auto &t = s->data_storage_; t.item_size_ = size; t.aligned_item_size_ = stride; t.capacity_ = cap; t.alignment_ = 64; t.pos_ = pos; t.data_ = (decltype(t.data_))d; t.bitmap_ = b;
    s->capacity_ = (uint32_t)cap; s->dim_ = (uint32_t)dim; s->item_cnt_ = (uint32_t)pos; s->data_size_ = (uint32_t)size;
  }
  ~Fill() { s->data_storage_.data_ = nullptr; s->data_storage_.bitmap_ = nullptr; }
};
VC_PROOF(raw_query) {
  Fill<RawSpace<float, float, uint32_t>> f(4); f.s->distance_calu_func_ = probe; g_r = vc::f32("r"); g_k = vc::u64("k"); vc::assume(g_k < f.dim); vc::assume(g_r < 1e30f);
  const float *q = vc::buf<float>("q", f.dim); uint32_t u = vc::u32("u"); g_n = ~0ULL;
  bool ok = f.s->data_storage_.is_valid(u); auto c = f.s->get_query_computer(q); float r = c(u);
  if (!ok) { vc::check(r == std::numeric_limits<float>::max() && g_n == ~0ULL, "deleted or absent items are infinitely far and never read"); return; }
  vc::check(r == g_r && g_n == f.dim && g_b == f.d + u * f.stride, "the stored item and the dimension are compared");
  vc::check(g_q == q[g_k], "against the coordinates of the query");
}
VC_PROOF(raw_pair) {
  Fill<RawSpace<float, float, uint32_t>> f(4); f.s->distance_calu_func_ = probe; g_r = vc::f32("r"); g_k = 0; uint32_t i = vc::u32("i"), j = vc::u32("j"); vc::assume((i < f.cap) & (j < f.cap));
  float r = f.s->get_distance(i, j); vc::check(r == g_r && g_n == f.dim && g_a == f.d + i * f.stride && g_b == f.d + j * f.stride, "the distance of two items compares exactly these two");
}
template <class Sp> static void pair_sq(int per) {
  Fill<Sp> f(per); f.s->distance_calu_func_ = probe_sq; g_r = vc::f32("r"); uint32_t i = vc::u32("i"), j = vc::u32("j"); vc::assume((i < f.cap) & (j < f.cap));
  f.s->quantizer_.dim_ = (uint32_t)f.dim; vc::vec(f.s->quantizer_.min_vector_, "lo", f.dim, f.dim); vc::vec(f.s->quantizer_.max_vector_, "hi", f.dim, f.dim);
  float r = f.s->get_distance(i, j);
  vc::check(r == g_r && g_n == f.dim && g_a == f.d + i * f.stride && g_b == f.d + j * f.stride, "the distance of two items compares exactly these two");
  vc::check(g_lo == f.s->quantizer_.min_vector_.data() && g_hi == f.s->quantizer_.max_vector_.data(), "with the fitted ranges");
}
VC_PROOF(sq8_pair) { pair_sq<SQ8Space<float, float, uint32_t>>(1); }
VC_PROOF(sq4_pair) { pair_sq<SQ4Space<float, float, uint32_t>>(2); }
template <class Sp> static void insert_sq(int per) {
  Fill<Sp> f(per); f.s->quantizer_.dim_ = (uint32_t)f.dim; vc::vec(f.s->quantizer_.min_vector_, "lo", f.dim, f.dim); vc::vec(f.s->quantizer_.max_vector_, "hi", f.dim, f.dim);
  float *v = vc::buf<float>("v", f.dim), *lo = f.s->quantizer_.min_vector_.data(), *hi = f.s->quantizer_.max_vector_.data(); uint64_t k = vc::u64("k"); vc::assume(k < f.size);
  uint8_t *at = (uint8_t *)f.d + f.pos * f.stride + k;
  auto inv = [&](uint64_t t) { return !(k < t) || *at == f.s->quantizer_.quantize(v[k], lo[k], hi[k]); };
  vc::loop("::encode(", inv);
  uint32_t id = f.s->insert(v);
  if (f.pos >= f.cap) { vc::check(id == 0xFFFFFFFFU && f.s->get_data_num() == f.pos, "a full space rejects the item and keeps its count"); return; }
  vc::check(id == f.pos && f.s->get_data_num() == f.pos + 1, "the count and the id advance together");
  uint8_t c = f.s->get_data_by_id(id)[k];
  vc::check(c == f.s->quantizer_.quantize(v[k], lo[k], hi[k]), "the stored code is the quantized coordinate");
}
VC_PROOF(sq8_insert) { insert_sq<SQ8Space<float, float, uint32_t>>(1); }
