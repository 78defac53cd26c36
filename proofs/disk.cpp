// on-disk node layout: records tile sector-aligned pages without overlap and read back what was packed
#include "vc.h"
#include "index/graph/diskann/disk_layout.hpp"
using namespace alaya::diskann;
static DiskLayoutGeometry geom() {
  uint64_t dim = vc::len("dim", 1, 2000); uint32_t deg = (uint32_t)vc::in("deg", 0, 0xFFFFFFFFu);
#ifndef VC_SYM
  deg %= 300;
#endif
  return DiskLayoutGeometry::compute(dim, deg);
}
VC_PROOF(geometry) {
  uint64_t dim = vc::len("dim", 1, 2000); uint32_t deg = vc::u32("deg");
  DiskLayoutGeometry g = DiskLayoutGeometry::compute(dim, deg);
  vc::check(g.dim == dim && g.max_degree == deg, "geometry keeps its parameters");
  vc::check(g.node_len == dim * 4 + 4 + (uint64_t)deg * 4, "record length is coordinates, count and neighbour slots");
  vc::check(g.nodes_per_sector >= 1, "at least one node per page");
  vc::check(g.node_len > 4096 ? g.nodes_per_sector == 1 : (g.nodes_per_sector * g.node_len <= 4096 && (g.nodes_per_sector + 1) * g.node_len > 4096), "as many whole nodes per sector as fit");
  vc::check(g.page_size % 4096 == 0, "pages are whole sectors");
  vc::check(g.page_size >= g.nodes_per_sector * g.node_len && g.page_size < g.nodes_per_sector * g.node_len + 4096, "a page is the smallest sector multiple holding its nodes");
}
VC_PROOF(geometry_zero) {
  uint32_t deg = vc::u32("deg"); bool threw = false;
  try { (void)DiskLayoutGeometry::compute(0, deg); } catch (const std::invalid_argument &) { threw = true; }
  vc::check(threw, "dimension zero is rejected");
}
// any geometry with the facts established above (the callers are checked against them, not against compute's body)
static DiskLayoutGeometry any_geom() {
  DiskLayoutGeometry g;
#ifdef VC_SYM
  g.dim = vc::len("dim", 1); g.max_degree = vc::u32("deg");
  g.node_len = vc::in("node_len", 8, 1ULL << 30); g.nodes_per_sector = vc::in("nps", 1, 512);
  uint64_t sectors = vc::in("sectors", 1, 1ULL << 18); g.page_size = sectors * 4096;
  vc::assume(g.page_size >= g.nodes_per_sector * g.node_len);
#else
  g = geom();
#endif
  return g;
}
VC_PROOF(offsets) {
  DiskLayoutGeometry g = any_geom();
  uint64_t n = vc::in("n", 1, 1ULL << 31), i = vc::in("i", 0, n - 1), j = vc::in("j", 0, n - 1);
  vc::check(g.get_page_offset(i) % 4096 == 0 && g.get_page_offset(i) >= 4096, "pages start on a sector boundary after the header");
  vc::check(g.offset_to_node(i) + g.node_len <= g.page_size, "a record lies inside its page");
  vc::check(g.file_offset(i) == g.get_page_offset(i) + g.offset_to_node(i), "record offset is page offset plus slot offset");
  vc::check(g.file_offset(i) + g.node_len <= g.total_file_size(n), "a record lies inside the file");
}
VC_PROOF(disjoint) {
  DiskLayoutGeometry g = any_geom();
  uint64_t i = vc::in("i", 0, 1ULL << 31), j = vc::in("j", 0, 1ULL << 31);
  vc::assume(i < j);
  uint64_t nps = g.nodes_per_sector, pi = i / nps, pj = j / nps, si = i % nps, sj = j % nps, len = g.node_len;
  vc::check(si < nps && sj < nps && pi <= pj, "lemma: pages are ordered");
  if (vc::fork(pi == pj)) {
    vc::check(si + 1 <= sj, "lemma: slots are ordered");
    uint64_t d = sj - si - 1;
    vc::check((si + 1 + d) * len == (si + 1) * len + d * len, "lemma: distribute");
    vc::check((si + 1) * len <= sj * len, "lemma: slots do not overlap");
  } else {
    vc::check(pi + 1 <= pj, "lemma: a later page");
    uint64_t d = pj - pi - 1, e = nps - si - 1;
    vc::check((pi + 1 + d) * g.page_size == (pi + 1) * g.page_size + d * g.page_size, "lemma: distribute");
    vc::check((pi + 1) * g.page_size <= pj * g.page_size, "lemma: pages do not overlap");
    vc::check((si + 1 + e) * len == (si + 1) * len + e * len, "lemma: distribute slots");
    vc::check((si + 1) * len <= g.page_size, "lemma: a slot lies inside its page");
  }
  vc::check(g.file_offset(i) + g.node_len <= g.file_offset(j), "records never overlap");
}
VC_PROOF(pages) {
  DiskLayoutGeometry g = any_geom();
  uint64_t n = vc::in("n", 0, 1ULL << 31);
  uint64_t p = g.num_pages(n);
  vc::check(p * g.nodes_per_sector >= n && (n == 0 ? p == 0 : (p - 1) * g.nodes_per_sector < n), "just enough pages");
  vc::check(g.total_file_size(n) == 4096 + p * g.page_size, "file size is header plus pages");
}
VC_PROOF(record) {
  uint64_t dim = vc::len("dim", 1, 8); uint32_t nn = (uint32_t)vc::in("nn", 0, 1u << 20);
#ifndef VC_SYM
  nn %= 8;
#endif
  uint64_t slack = vc::in("slack", 0, 8);
  float *coords = vc::buf<float>("coords", dim); uint32_t *nb = vc::buf<uint32_t>("nbrs", nn);
  uint32_t *rec = vc::buf<uint32_t>("rec", dim + 1 + nn + slack);
  uint64_t i = vc::in("i", 0, dim - 1), j = vc::in("j", 0, nn ? nn - 1 : 0), t = vc::in("t", 0, slack ? slack - 1 : 0);
  uint32_t tail = slack ? rec[dim + 1 + nn + t] : 0;
  pack_node_record((char *)rec, coords, nb, nn, dim);
  NodeRecordView v{(const char *)rec, dim};
  vc::check(v.coords()[i] == coords[i] || coords[i] != coords[i], "coordinates read back");
  vc::check(v.n_nbrs() == nn, "neighbour count reads back");
  if (nn) vc::check(v.nbrs()[j] == nb[j], "neighbour ids read back");
  if (slack) vc::check(rec[dim + 1 + nn + t] == tail, "unused slots are left alone");
}
