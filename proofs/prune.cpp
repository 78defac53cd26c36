// neighbor selection: whatever the distances, the list is bounded, made of the offered candidates, without the point itself
// @proof * mode=int fl=real unroll=0
#include "vc.h"
#include "index/graph/vamana/robust_prune.hpp"
using namespace alaya::vamana;
VC_PROOF(occlude) {
  uint64_t n = vc::len("n", 1, 6), deg = vc::len("deg", 1, 6), used = vc::len("used", 0, 6); vc::assume(used <= deg); uint32_t self = vc::u32("self"), maxc = vc::u32("maxc"); float alpha = vc::f32("alpha");
  std::vector<Neighbor> pool; std::vector<uint32_t> res; std::vector<float> of; vc::vec(pool, "pool", n); vc::vec(res, "res", used, deg); vc::vec(of, "of", 0, n); vc::assume(n >= 1); Neighbor *p = pool.data();
#ifndef VC_SYM
  for (uint64_t i = 0; i < n; ++i) { p[i].id = vcs().next() % 9; p[i].distance = (float)(vcs().next() % 5); } if (self > 9 || vc::b("near")) self %= 9; alpha = (float)(vcs().next() % 9) * 0.4f; maxc %= 8;
#endif
  auto ok = [&](uint32_t id) { return vc::uff("candidate", id) > 0; };
#ifdef VC_SYM
  vc::assume(vc::all(0, n, [&](uint64_t k) { return ok(p[k].id); }));
#endif
  vc::assume((deg <= 1ULL << 31) & (maxc >= n));
  uint32_t *r = res.data(); auto inv = [&](uint64_t) { return vc::all(used, res.size(), [&](uint64_t k) { return (r[k] != self) & ok(r[k]); }); };
  vc::loop("occlude_list", inv);
  occlude_list(self, pool, alpha, (uint32_t)deg, maxc, res, of, [&](uint32_t a, uint32_t b) { return vc::uff("dist", a, b); });
  vc::check(res.size() <= deg, "at most the requested number of neighbors"); vc::check(res.size() >= used, "earlier neighbors stay"); vc::check(pool.size() <= n && (pool.size() <= maxc || pool.empty()), "the pool is cut to its bound");
  uint64_t k = vc::u64("k"); vc::assume((used <= k) & (k < res.size()));
#ifdef VC_SYM
  vc::check(ok(res.data()[k]), "neighbors come from the pool");
#endif
  vc::check(res.data()[k] != self, "a point is not its own neighbor");
}
