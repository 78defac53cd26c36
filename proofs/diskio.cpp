// header sector of a disk graph file: any file is rejected or described by the accepted header
// @proof * mode=int tmo=60 feas_ms=150
// @flags -D_GLIBCXX_EXTERN_TEMPLATE=0
#include "vc_io.h"
#include "index/graph/diskann/disk_layout.hpp"
using namespace alaya::diskann;
static uint64_t n_; static const uint8_t *d_;
VC_PROOF(header_any) {
  uint64_t n = vc::in("n", 0, 1ULL << 40);
#ifndef VC_SYM
  n %= 20000;
#endif
  const uint8_t *d = vc::buf<uint8_t>("d", n); vc::file("g", d, n); DiskLayoutHeader h; bool ok = false; try { h = read_disk_layout_header("g"); ok = true; } catch (const std::runtime_error &) {}
  if (ok) {
    vc::check(n >= 4096 && h.total_file_size == n, "an accepted header states the file's size"); vc::check(h.num_points >= 1 && h.dim >= 1 && h.medoid < h.num_points, "an accepted header has points, a dimension and an entry point among them");
    vc::check(h.node_len == h.dim * 4 + 4 + (uint64_t)h.max_degree * 4, "an accepted header states its record length");
    DiskLayoutGeometry g = DiskLayoutGeometry::compute(h.dim, h.max_degree); vc::check(g.nodes_per_sector == h.nodes_per_sector && g.node_len == h.node_len, "and the records per sector");
  } else vc::check(true, "rejected");
  vc::stop();
}
