// product quantization table: codes are nearest centroids, table distances are sums over the chunks
// @proof * mode=int fl=real
// @flags -D_GLIBCXX_EXTERN_TEMPLATE=0
#include "vc_io.h"
#include "index/graph/diskann/pq_table.hpp"
using namespace alaya::diskann;
// the distance function is arbitrary: a value for every pair of positions
static const float *gA, *gB; static uint64_t gn; static bool g_ok = true;
static float metric(const float *__restrict a, const float *__restrict b, size_t n) { if (n != gn) g_ok = false; return vc::uff("l2", (uint64_t)(a - gA), (uint64_t)(b - gB)); }
struct Pq {
  PQTable t; uint64_t cd, nc;
  Pq() { cd = vc::in("cd", 1, 4); nc = vc::len("nc", 1, 4); vc::assume((nc <= 1 << 16) & (cd <= 1 << 10)); t.dim_ = nc * cd; t.n_chunks_ = (uint32_t)nc; t.chunk_dim_ = (uint32_t)cd; t.l2_ = metric; gn = cd; g_ok = true; }
  void codebook() { vc::vec(t.codebook_, "cb", nc * 256 * cd); }
};
static uint64_t g_call; static uint32_t g_arg; static float g_min;
static float metric_nth(const float *__restrict a, const float *__restrict b, size_t n) { if ((n != gn) | (a != gA) | (b != gB + g_call * gn)) g_ok = false; float v = vc::uff("l2", g_call); if (v < g_min) { g_min = v; g_arg = (uint32_t)g_call; } ++g_call; return v; }
// @proof pq_nearest mode=int fl=real unroll=0
VC_PROOF(pq_nearest) {   // the k-th call compares the point with centroid k
  Pq p; p.t.l2_ = metric_nth; gA = vc::buf<float>("r", p.cd); gB = vc::buf<float>("cb", 256 * p.cd); g_call = 0; g_arg = 0; g_min = std::numeric_limits<float>::max(); uint64_t j = vc::in("j", 0, 255);
  auto d = [&](uint64_t k) { return vc::uff("l2", k); }; vc::assume(vc::all(0, 256, [&](uint64_t k) { return d(k) < 3.0e38f; }));
  auto low = [&](uint64_t k) { return g_min <= d(k); }; auto early = [&](uint64_t k) { return d(k) > g_min; };
  auto inv = [&](uint64_t it) { return (g_call == it) & ((it > 0) | (g_min == std::numeric_limits<float>::max())) & ((it == 0) | (g_min == d(g_arg))) & ((it == 0) | (g_arg < it)) & (g_arg < 256) & vc::all(0, it, low) & vc::all(0, g_arg, early); }; vc::loop("argmin_centroid", inv);
  uint32_t k = p.t.argmin_centroid(gA, gB); vc::check(g_call == 256, "lemma: all centroids"); vc::check(k < 256, "a centroid is chosen");
  vc::check(k == g_arg, "the minimum is returned");
  vc::check(g_ok & (g_call == 256), "the chunk is compared with its centroids over its own dimensions"); vc::check(d(k) <= d(j), "no centroid of the chunk is nearer"); vc::check(j >= k || d(j) > d(k), "the first of equally near centroids");
}
VC_PROOF(pq_distance) {
  Pq p; uint64_t n = vc::len("n", 1, 6), i = vc::u64("i"); vc::assume(i < n); vc::vec(p.t.codes_, "codes", n * p.nc); p.t.num_points_ = n; float *tab = vc::buf<float>("tab", p.nc * 256);
  double s = vc::sum("D", p.nc, [&](uint64_t c) { return tab[c * 256 + p.t.codes_.data()[i * p.nc + c]]; });
  vc::check(vc::near(p.t.pq_distance(i, tab), s, 1000.0), "the table distance is the sum over the chunks of the point's code entries");
}
VC_PROOF(pq_symmetric) {
  Pq p; uint64_t n = vc::len("n", 1, 6), i = vc::u64("i"); vc::assume(i < n); vc::vec(p.t.codes_, "codes", n * p.nc); p.t.num_points_ = n; vc::vec(p.t.sym_dists_, "sym", p.nc * 65536); uint8_t *l = vc::buf<uint8_t>("l", p.nc);
  double s = vc::sum("S", p.nc, [&](uint64_t c) { return p.t.sym_dists_.data()[c * 65536 + l[c] * (uint64_t)256 + p.t.codes_.data()[i * p.nc + c]]; });
  vc::check(vc::near(p.t.pq_symmetric_distance(l, i), s, 1000.0), "the symmetric distance is the sum over the chunks of the pair's entries");
}
VC_PROOF(pq_symmetric_points) {
  Pq p; uint64_t n = vc::len("n", 0, 6), i = vc::u64("i"), j = vc::u64("j"); vc::vec(p.t.codes_, "codes", n * p.nc); p.t.num_points_ = n; vc::vec(p.t.sym_dists_, "sym", p.nc * 65536); bool threw = false; double got = 0;
  double s = 0; if ((i < n) & (j < n)) s = vc::sum("S", p.nc, [&](uint64_t c) { return p.t.sym_dists_.data()[c * 65536 + p.t.codes_.data()[i * p.nc + c] * (uint64_t)256 + p.t.codes_.data()[j * p.nc + c]]; });
  try { got = p.t.pq_symmetric_distance(i, j); } catch (const std::out_of_range &) { threw = true; }
  vc::check(threw == ((i >= n) | (j >= n)), "points beyond the table are rejected"); if (!threw) vc::check(vc::near(got, s, 1000.0), "the symmetric distance is that of the two codes");
}
VC_PROOF(pq_residual) {
  Pq p; vc::vec(p.t.global_centroid_, "gc", p.nc * p.cd); float *q = vc::buf<float>("q", p.nc * p.cd), *r = vc::buf<float>("r", p.nc * p.cd); uint64_t k = vc::u64("k"); vc::assume(k < p.nc * p.cd);
  p.t.build_residual(q, r); vc::check(r[k] == q[k] - p.t.global_centroid_.data()[k], "the residual is the difference to the global centroid");
}
