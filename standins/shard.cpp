// bounded stand-in: partitioned graph construction: nearest centroids, shard files, merging, entry point
#include "vc.h"
// @natlibs -lspdlog -lfmt -fopenmp
// @flags -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -fopenmp
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include "index/graph/vamana/budget_estimator.hpp"
#include "index/graph/vamana/kmeans_partition.hpp"
#include "index/graph/vamana/shard_assigner.hpp"
#include "index/graph/vamana/shard_merger.hpp"
#include "index/graph/vamana/vamana_reader.hpp"
#include "index/graph/vamana/vamana_writer.hpp"
using namespace alaya::vamana;
using Bytes = std::string;
static void quiet() { spdlog::set_level(spdlog::level::off); }
static Bytes slurp(const std::string &p) { std::ifstream f(p, std::ios::binary); return Bytes(std::istreambuf_iterator<char>(f), {}); }
static void spill(const std::string &p, const Bytes &b) { std::ofstream f(p, std::ios::binary); f << b; }
static void u32(Bytes &b, uint32_t v) { b.append((char *)&v, 4); }
static uint32_t at32(const Bytes &b, size_t o) { uint32_t v = 0xDEADBEEF; if (o + 4 <= b.size()) memcpy(&v, &b[o], 4); return v; }
// integer coordinates: all distances and norms are exact in float
struct Pts { uint64_t n, dim; std::vector<float> x; Pts(uint64_t n_, uint64_t dim_, int span) : n(n_), dim(dim_) { for (uint64_t k = 0; k < n * dim; ++k) x.push_back((float)((int)vc::in("x", 0, 2 * span) - span)); } const float *at(uint64_t i) const { return &x[i * dim]; } };
static double d2(const float *a, const float *b, uint64_t n) { double s = 0; for (uint64_t k = 0; k < n; ++k) s += (double)(a[k] - b[k]) * (a[k] - b[k]); return s; }
static Bytes fbin(const Pts &p) { Bytes b; u32(b, (uint32_t)p.n); u32(b, (uint32_t)p.dim); b.append((const char *)p.x.data(), p.x.size() * 4); return b; }
template <class F> static bool throws(F f) { try { f(); return false; } catch (const std::exception &) { return true; } }
static std::vector<uint32_t> nearest(const float *v, const Pts &c, uint64_t k) { std::vector<uint32_t> o; for (uint32_t j = 0; j < c.n; ++j) o.push_back(j); std::stable_sort(o.begin(), o.end(), [&](uint32_t a, uint32_t b) { return d2(v, c.at(a), c.dim) < d2(v, c.at(b), c.dim); }); o.resize(k); return o; }
VC_PROOF(closest) {
  quiet(); uint64_t dim = vc::in("dim", 1, 20), k = 1 + vc::in("k", 0, 3), nc = k + vc::in("nc", 0, 8); bool wide = vc::in("wide", 0, 60) == 0; if (wide) { dim = 2; } Pts c(nc, dim, (int)vc::in("span", 1, 12)), p(vc::in("n", 1, 40), dim, 12); if (wide) { uint64_t m = detail::kClosestCentersBlockSize + vc::in("over", 0, 300); while (p.x.size() < m * dim) p.x.push_back((float)(int)((p.x.size() * 7919u) % 25) - 12); p.n = m; }
  std::vector<uint32_t> got(p.n * k + 1, 77); compute_closest_centers(p.x.data(), p.n, dim, c.x.data(), nc, k, got.data());
  for (uint64_t i = 0; i < p.n; i += (wide && i > 20 && i + 400 < p.n && i % detail::kClosestCentersBlockSize > 20 ? 97 : 1)) { auto want = nearest(p.at(i), c, k); std::set<uint32_t> s; for (uint64_t t = 0; t < k; ++t) { vc::check(got[i * k + t] < nc && s.insert(got[i * k + t]).second, "distinct existing centers"); vc::check(d2(p.at(i), c.at(got[i * k + t]), dim) == d2(p.at(i), c.at(want[t]), dim), "the centers at the k smallest distances, nearest first"); } }
  vc::check(got[p.n * k] == 77, "nothing is written behind the result");
  vc::check(throws([&] { compute_closest_centers(p.x.data(), p.n, dim, c.x.data(), nc, 0, got.data()); }) && throws([&] { compute_closest_centers(p.x.data(), p.n, dim, c.x.data(), nc, nc + 1, got.data()); }), "impossible k is rejected");
  std::vector<size_t> e = estimate_cluster_sizes(p.x.data(), p.n, dim, c.x.data(), nc, k, 0.25), cnt(nc); for (uint64_t t = 0; t < p.n * k; ++t) cnt[got[t]]++; for (uint64_t j = 0; j < nc; ++j) vc::check(e[j] == 4 * cnt[j], "estimated sizes scale the sample's counts");
}
VC_PROOF(lloyd) {
  quiet(); uint64_t dim = vc::in("dim", 1, 6), n = vc::in("n", 1, 40), nc = vc::in("nc", 1, std::min<uint64_t>(n, 6)); Pts p(n, dim, (int)vc::in("span", 0, 8)); std::mt19937_64 rng(vc::in("seed", 0, 1000)); std::vector<float> c(nc * dim + 1, 5.5f); kmeanspp_init(p.x.data(), n, dim, nc, rng, c.data());
  for (uint64_t j = 0; j < nc; ++j) { bool found = false; for (uint64_t i = 0; i < n; ++i) found |= !memcmp(&c[j * dim], p.at(i), dim * 4); vc::check(found, "initial centers are points of the sample"); }
  std::set<std::vector<float>> dp, dc; for (uint64_t i = 0; i < n; ++i) dp.insert(std::vector<float>(p.at(i), p.at(i) + dim)); for (uint64_t j = 0; j < nc; ++j) dc.insert(std::vector<float>(&c[j * dim], &c[j * dim] + dim)); vc::check(dc.size() == std::min<size_t>(nc, dp.size()), "initial centers are distinct while distinct points remain");
  Pts was(0, dim, 0); was.n = nc; was.x.assign(c.begin(), c.begin() + nc * dim); std::vector<uint32_t> as(n); compute_closest_centers(p.x.data(), n, dim, was.x.data(), nc, 1, as.data()); float r = lloyds_iter(p.x.data(), n, dim, c.data(), nc); double want = 0;
  for (uint64_t j = 0; j < nc; ++j) { std::vector<double> m(dim); uint64_t k = 0; for (uint64_t i = 0; i < n; ++i) if (as[i] == j) { ++k; for (uint64_t d = 0; d < dim; ++d) m[d] += p.at(i)[d]; } for (uint64_t d = 0; d < dim; ++d) { double v = k ? m[d] / k : 0; vc::check(std::fabs(c[j * dim + d] - v) <= 1e-5 * (1 + std::fabs(v)), "a center moves to the mean of its points"); } }
  for (uint64_t i = 0; i < n; ++i) want += d2(p.at(i), &c[as[i] * dim], dim); vc::check(std::fabs(r - want) <= 1e-4 * (1 + want), "the residual is the sum of squared distances"); vc::check(c[nc * dim] == 5.5f, "nothing is written behind the centers");
  KMeansParams kp; kp.num_centers = nc; kp.seed = 3; std::vector<float> a(nc * dim), b(nc * dim); kmeans_train(p.x.data(), n, dim, kp, a.data()); kmeans_train(p.x.data(), n, dim, kp, b.data()); vc::check(a == b, "training is deterministic for a seed");
  vc::check(throws([&] { kmeanspp_init(p.x.data(), n, dim, n + 1, rng, c.data()); }), "more centers than points are rejected");
}
struct Limit { rlimit old; Limit(uint64_t n) { getrlimit(RLIMIT_FSIZE, &old); signal(SIGXFSZ, SIG_IGN); rlimit l{n, old.rlim_max}; setrlimit(RLIMIT_FSIZE, &l); } ~Limit() { setrlimit(RLIMIT_FSIZE, &old); } };
VC_PROOF(assign) {
  quiet(); uint64_t dim = vc::in("dim", 1, 8), n = vc::in("n", 1, 50), nc = vc::in("nc", 1, 6), k = vc::in("k", 1, std::min<uint64_t>(nc, 3)), block = vc::in("block", 1, n + 3); Pts p(n, dim, 9), c(nc, dim, 9); Bytes f = fbin(p); spill("in.fbin", f); std::filesystem::remove_all("sh");
  auto r = shard_data_by_centroids("in.fbin", c.x.data(), nc, k, "sh/s", block); std::vector<uint32_t> near(n * k); compute_closest_centers(p.x.data(), n, dim, c.x.data(), nc, k, near.data());
  vc::check(r.dim == dim && r.counts.size() == nc && r.data_paths.size() == nc && r.idmap_paths.size() == nc, "one shard per center");
  for (uint64_t j = 0; j < nc; ++j) {
    std::vector<uint32_t> ids; for (uint64_t i = 0; i < n; ++i) for (uint64_t t = 0; t < k; ++t) if (d2(p.at(i), c.at(near[i * k + t]), dim) == d2(p.at(i), c.at(j), dim) && near[i * k + t] == j) ids.push_back((uint32_t)i);
    Bytes dm, im; u32(dm, (uint32_t)ids.size()); u32(dm, (uint32_t)dim); u32(im, (uint32_t)ids.size()); u32(im, 1); for (uint32_t i : ids) { dm.append((const char *)p.at(i), dim * 4); u32(im, i); }
    vc::check(r.counts[j] == ids.size() && r.data_paths[j] == shard_data_path("sh/s", j) && r.idmap_paths[j] == shard_idmap_path("sh/s", j), "the shard's count and paths"); vc::check(slurp(r.data_paths[j]) == dm, "a shard holds the vectors of its points in id order"); vc::check(slurp(r.idmap_paths[j]) == im, "and their ids"); vc::check(detail::read_idmap(r.idmap_paths[j]) == ids, "the id map reads back");
  }
  spill("cut.fbin", f.substr(0, vc::in("cut", 0, f.size() - 1))); vc::check(throws([&] { shard_data_by_centroids("cut.fbin", c.x.data(), nc, k, "sh/t", block); }), "a vector file cut short is rejected"); vc::check(throws([&] { compute_medoid_streaming("cut.fbin", block); }), "also for the entry point");
  vc::check(throws([&] { shard_data_by_centroids("in.fbin", c.x.data(), nc, nc + 1, "sh/u", block); }) && throws([&] { shard_data_by_centroids("absent", c.x.data(), nc, k, "sh/u", block); }), "impossible requests are rejected");
  { uint64_t room = vc::in("room", 0, 8 + n * dim * 4); uint64_t need = 0; for (uint64_t j = 0; j < nc; ++j) need = std::max<uint64_t>(need, 8 + (uint64_t)r.counts[j] * dim * 4); bool threw; { Limit l(room); threw = throws([&] { shard_data_by_centroids("in.fbin", c.x.data(), nc, k, "sh/v", block); }); } vc::check(threw == (room < need), "failed writes are reported, and only these"); }
  // the entry point
  std::vector<double> mean(dim); for (uint64_t i = 0; i < n; ++i) for (uint64_t d = 0; d < dim; ++d) mean[d] += p.at(i)[d]; std::vector<float> m; for (uint64_t d = 0; d < dim; ++d) m.push_back((float)(mean[d] / (double)n)); auto far = [&](uint64_t i) { double s = 0; for (uint64_t d = 0; d < dim; ++d) { double e = (double)p.at(i)[d] - (double)m[d]; s += e * e; } return s; };
  uint32_t e = compute_medoid_streaming("in.fbin", block); vc::check(e < n, "the entry point exists"); for (uint64_t i = 0; i < n; ++i) vc::check(far(i) >= far(e) * (1 - 1e-5) - 1e-9, "the entry point is nearest to the mean");
}
VC_PROOF(merge) {
  quiet(); uint64_t N = vc::in("N", 1, 40), ns = vc::in("shards", 1, 4); uint32_t R = (uint32_t)vc::in("R", 1, 12); std::vector<std::vector<uint32_t>> ids(ns); for (uint32_t g = 0; g < N; ++g) for (uint64_t s = 0; s < ns; ++s) if (vc::in("member", 0, 2) || g % ns == s) ids[s].push_back(g);
  std::vector<std::filesystem::path> gp, ip; std::vector<Bytes> gb(ns), ib(ns); std::map<uint32_t, std::set<uint32_t>> all; Bytes med; u32(med, (uint32_t)ns); u32(med, 1); std::vector<bool> bad(ns); bool gap = false; uint32_t top = 0;
  for (uint64_t s = 0; s < ns; ++s) { if (ids[s].empty()) ids[s].push_back(0); for (uint32_t g : ids[s]) top = std::max(top, g); }
  for (uint64_t s = 0; s < ns; ++s) {
    uint64_t n = ids[s].size(); std::vector<std::vector<uint32_t>> g(n); uint32_t wide = 1; for (uint64_t i = 0; i < n; ++i) { uint64_t k = vc::in("k", 0, 5); for (uint64_t j = 0; j < k; ++j) { uint32_t m = (uint32_t)vc::in("m", 0, n - 1); g[i].push_back(m); if (ids[s][m] != ids[s][i]) all[ids[s][i]].insert(ids[s][m]); } wide = std::max(wide, (uint32_t)g[i].size()); }
    uint32_t st = (uint32_t)vc::in("start", 0, n - 1); u32(med, ids[s][st]); Bytes b; u32(b, 0); u32(b, 0); u32(b, wide); u32(b, st); u32(b, 0); u32(b, 0); for (auto &a : g) { u32(b, (uint32_t)a.size()); for (uint32_t m : a) u32(b, m); } gb[s] = b; Bytes q; u32(q, (uint32_t)n); u32(q, 1); for (uint32_t i : ids[s]) u32(q, i); ib[s] = q; gp.push_back("g" + std::to_string(s)); ip.push_back("i" + std::to_string(s)); spill(gp[s], b); spill(ip[s], q);
  }
  (void)gap; uint32_t medoid = (uint32_t)vc::in("medoid", 0, N - 1); uint64_t seed = vc::in("seed", 0, 99), fz = vc::in("frozen", 0, 2), len = merge_shards(gp, ip, "out.index", R, medoid, seed, fz); Bytes o = slurp("out.index"); vc::check(len == o.size() && o.size() >= 24, "the returned size is the file's"); uint64_t h; memcpy(&h, &o[0], 8); vc::check(h == len && at32(o, 8) == R && at32(o, 12) == medoid && at32(o, 16) == fz && at32(o, 20) == 0, "the header describes the graph");
  size_t off = 24; for (uint32_t g = 0; g <= top; ++g) { uint32_t k = at32(o, off); off += 4; vc::check(k == std::min<size_t>(R, all[g].size()), "all neighbors from all shards are kept, up to R"); std::set<uint32_t> s; for (uint32_t t = 0; t < k && off + 4 <= o.size(); ++t, off += 4) { uint32_t m = at32(o, off); vc::check(all[g].count(m) && s.insert(m).second, "a neighbor comes from a shard, once"); } } vc::check(off == o.size(), "one record per id up to the largest"); vc::check(slurp("out.index_medoids.bin") == med, "the shards' entry points are listed by global id");
  merge_shards(gp, ip, "again.index", R, medoid, seed, fz); vc::check(slurp("again.index") == o, "merging is deterministic for a seed");
  uint64_t s = vc::in("victim", 0, ns - 1); Bytes g = gb[s], i = ib[s];
  switch (vc::in("damage", 0, 6)) {
    case 0: g = gb[s].substr(0, vc::in("cut", 0, gb[s].size() - 1)); break;
    case 1: i = ib[s].substr(0, vc::in("cut", 0, ib[s].size() - 1)); break;
    case 2: memcpy(&g[12], &(const uint32_t &)(uint32_t)(ids[s].size() + vc::in("far", 0, 3)), 4); break;
    case 3: { size_t at = 24; bool done = false; for (uint64_t q = 0; q < ids[s].size() && !done; ++q) { uint32_t k = at32(g, at); if (k) { uint32_t v = (uint32_t)ids[s].size() + (uint32_t)vc::in("far", 0, 3); memcpy(&g[at + 4 * vc::in("slot", 1, k)], &v, 4); done = true; } at += 4 + 4 * k; } if (!done) return; break; }
    case 4: if (ids[s].size() < 2) return; { uint64_t a = vc::in("pos", 0, ids[s].size() - 2); uint32_t x = at32(i, 8 + 4 * a), y = at32(i, 12 + 4 * a); memcpy(&i[8 + 4 * a], &y, 4); memcpy(&i[12 + 4 * a], &x, 4); } break;
    case 5: { uint32_t two = 2; memcpy(&i[4], &two, 4); break; }
    default: gp[s] = "absent"; break;
  }
  spill("g" + std::to_string(s), g); spill("i" + std::to_string(s), i); vc::check(throws([&] { merge_shards(gp, ip, "bad.index", R, medoid, seed, fz); }), "a malformed or cut-short shard is rejected"); ip.pop_back(); vc::check(throws([&] { merge_shards(gp, ip, "bad.index", R, medoid, seed, fz); }), "unpaired lists are rejected");
}
VC_PROOF(budget) {
  quiet(); uint64_t dim = vc::in("dim", 1, 4), n = vc::in("n", 3, 60); Pts p(n, dim, 40); BudgetLoopParams b; b.k_base = vc::in("k", 1, 3); b.graph_degree = (uint32_t)vc::in("R", 1, 64); b.sampling_rate = 1.0; b.max_num_parts = vc::in("cap", 1, 25); uint32_t pad = (uint32_t)((dim + 7) / 8 * 8); auto cost = [&](size_t c) { return 1.1 * ((double)c * pad * 4 + (double)c * b.graph_degree * 4 * (double)1.3f + (double)c * sizeof(std::mutex) + (double)c * 8); };
  uint64_t lim = vc::in("fit", 1, 2 * n); b.ram_budget_gib = cost(lim) * (1 + 1e-9) / (1024.0 * 1024 * 1024); std::vector<float> piv; size_t parts = 0; bool threw = throws([&] { parts = determine_num_parts_with_ram_budget(p.x.data(), n, p.x.data(), n, dim, b, piv); });
  size_t want = 0; for (size_t q = 3; q <= b.max_num_parts && !want; q += 2) { if (q > n) break; KMeansParams kp = b.base_kmeans; kp.num_centers = q; std::vector<float> c(q * dim); kmeans_train(p.x.data(), n, dim, kp, c.data()); auto e = estimate_cluster_sizes(p.x.data(), n, dim, c.data(), q, b.k_base, 1.0); bool fits = true; for (size_t z : e) fits &= z <= lim; if (fits) { want = q; vc::check(threw || piv == c, "the centers belong to the chosen number of parts"); } }
  vc::check(threw == (want == 0) && (threw || parts == want), "the smallest odd number of parts whose shards all fit, or an error");
}
