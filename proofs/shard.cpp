// shard files of the partitioned graph construction
// @proof * mode=bv fl=bits
// @flags -D_GLIBCXX_EXTERN_TEMPLATE=0 -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -idirafter/verif/include/omp
// @natflags -fopenmp
// @natlibs -lspdlog -lfmt -fopenmp
#include "vc_io.h"
#include <memory>
#include "index/graph/vamana/budget_estimator.hpp"
#include "index/graph/vamana/shard_assigner.hpp"
#include "index/graph/vamana/shard_merger.hpp"
using namespace alaya::vamana;
static uint32_t at32(const uint8_t *p, uint64_t o) { uint32_t v; memcpy(&v, p + o, 4); return v; }
VC_PROOF(idmap_read) {   // any file: exactly the ids of a complete map, or an error
  uint64_t n = vc::in("bytes", 0, 200000); const uint8_t *d = vc::buf<uint8_t>("d", n); vc::file("m", d, n);
  std::vector<uint32_t> ids; bool threw = false; try { ids = detail::read_idmap("m"); } catch (const std::runtime_error &) { threw = true; }
  if (vc::fork(n < 8)) { vc::check(threw, "a map without a header is rejected"); vc::stop(); return; }
  uint64_t count = at32(d, 0); bool ok = (at32(d, 4) == 1) & (8 + 4 * count <= n);
  vc::check(threw == !ok, "a map is read exactly when it has stride one and all its ids");
  if (vc::fork(!threw)) { vc::check(ids.size() == count, "as many ids as announced"); uint64_t k = vc::in("k", 0, 49999); vc::check((k >= count) || ids[k] == at32(d, 8 + 4 * k), "the ids in order"); }
  vc::stop();
}
VC_PROOF(shard_append) {   // one more point, from any number written before
  uint32_t dim = (uint32_t)vc::in("dim", 1, 100000), gid = vc::u32("gid"), gid2 = vc::u32("gid2"); const float *v = vc::buf<float>("v", dim), *w = vc::buf<float>("w", dim);
  { detail::ShardOutputStreams s("d", "i", dim); s.append(v, dim, gid); s.append(w, dim, gid2); vc::check(s.count == 2, "two points are counted"); s.finalize(); }
  uint64_t nd = 0, ni = 0; const uint8_t *d = vc::content("d", nd), *i = nullptr;
  vc::check(nd == 8 + 8ull * dim, "the data file has a header and the vectors"); vc::check(at32(d, 0) == 2 && at32(d, 4) == dim, "count and dimension");
  uint64_t k = vc::in("k", 0, dim - 1); vc::check(at32(d, 8 + 4 * k) == at32((const uint8_t *)v, 4 * k), "the first vector"); vc::check(at32(d, 8 + 4ull * dim + 4 * k) == at32((const uint8_t *)w, 4 * k), "the second vector");
  i = vc::content("i", ni); vc::check(ni == 16 && at32(i, 0) == 2 && at32(i, 4) == 1 && at32(i, 8) == gid && at32(i, 12) == gid2, "the id file lists the ids");
  vc::stop();
}
VC_PROOF(round8) { uint32_t x = (uint32_t)vc::in("x", 0, 0xFFFFFFF8ull), r = round_up_8(x); vc::check(r % 8 == 0 && r >= x && r - x < 8, "rounded up to a multiple of eight"); }
VC_PROOF(shard_fault) {   // opens and writes may fail: files that are not complete are reported
  vc::io_faults(); uint32_t dim = (uint32_t)vc::in("dim", 1, 100000), gid = vc::u32("gid"); const float *v = vc::buf<float>("v", dim); bool threw = false;
  try { detail::ShardOutputStreams s("d", "i", dim); s.append(v, dim, gid); s.finalize(); } catch (const std::runtime_error &) { threw = true; }
  if (vc::fork(!threw)) { uint64_t nd = 0, ni = 0; const uint8_t *d = vc::content("d", nd); vc::check(nd == 8 + 4ull * dim && at32(d, 0) == 1, "a data file reported as written is complete"); const uint8_t *i = vc::content("i", ni); vc::check(ni == 12 && at32(i, 0) == 1 && at32(i, 8) == gid, "an id file reported as written is complete"); }
  vc::stop();
}
