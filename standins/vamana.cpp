// bounded stand-in: Vamana graphs: neighbor selection, construction, files and search
#include "vc.h"
// @natlibs -lspdlog -lfmt -fopenmp
// @flags -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -fopenmp
#include <cmath>
#include <cstring>
#include <fstream>
#include <limits>
#include <set>
#include "index/graph/vamana/vamana_builder.hpp"
#include "index/graph/vamana/vamana_greedy_search.hpp"
#include "index/graph/vamana/vamana_reader.hpp"
#include "index/graph/vamana/vamana_writer.hpp"
using namespace alaya::vamana;
static void quiet() { spdlog::set_level(spdlog::level::off); }
static float l2(const float *a, const float *b, size_t n) { float s = 0; for (size_t k = 0; k < n; ++k) s += (a[k] - b[k]) * (a[k] - b[k]); return s; }
// small integer coordinates: every distance is exact, ties are frequent
struct Points { uint64_t n, dim; std::vector<float> x; Points(uint64_t lo, uint64_t hi) { n = vc::in("n", lo, hi); dim = vc::in("dim", 1, 9); int span = (int)vc::in("span", 0, 40); for (uint64_t k = 0; k < n * dim; ++k) x.push_back((float)((int)vc::in("x", 0, span))); } const float *at(uint64_t i) const { return &x[i * dim]; } float d(uint64_t a, uint64_t b) const { return l2(at(a), at(b), dim); } };
VC_PROOF(prune_rule) {
  Points p(1, 40); uint32_t self = (uint32_t)vc::in("self", 0, p.n - 1), deg = (uint32_t)vc::in("deg", 1, 12), maxc = (uint32_t)vc::in("maxc", 1, 45); static const float as[] = {1.0f, 1.1f, 1.2f, 1.3f, 1.45f, 2.0f, 3.0f}; float alpha = as[vc::in("alpha", 0, 6)];
  std::vector<Neighbor> pool; for (uint32_t i = 0; i < p.n; ++i) if (i != self && vc::in("take", 0, 4)) pool.emplace_back(i, p.d(self, i)); for (size_t k = pool.size(); k > 1; --k) std::swap(pool[k - 1], pool[vc::in("sh", 0, k - 1)]);
  auto order = pool; std::sort(order.begin(), order.end(), [](auto &a, auto &b) { return a.distance != b.distance ? a.distance < b.distance : a.id < b.id; }); if (order.size() > maxc) order.resize(maxc);
  std::vector<uint32_t> got = {7, 7}, want; std::vector<float> scratch(vc::in("of", 0, 9), 99.0f); prune_neighbors(self, pool, alpha, deg, maxc, got, scratch, [&](uint32_t a, uint32_t b) { return p.d(a, b); });
  std::vector<bool> used(order.size()); for (float t = 1.0f; t <= alpha; t *= 1.2f) for (size_t j = 0; j < order.size() && want.size() < deg; ++j) { if (used[j]) continue; bool hidden = false; for (size_t i = 0; i < j && !hidden; ++i) if (used[i]) { float d = p.d(order[i].id, order[j].id); hidden = d == 0 || order[j].distance / d > t; } if (!hidden) { used[j] = true; want.push_back(order[j].id); } }
  vc::check(got == want, "the kept neighbors are those no nearer kept neighbor hides"); vc::check(order.empty() || (!got.empty() && got[0] == order[0].id), "the nearest candidate is kept");
  std::set<uint32_t> s(got.begin(), got.end()); vc::check(s.size() == got.size() && !s.count(self) && got.size() <= deg, "distinct neighbors, not the point, within the bound");
}
static void graph_ok(const std::vector<std::vector<uint32_t>> &g, uint64_t n, uint64_t R) {
  vc::check(g.size() == n, "one neighbor list per point");
  for (uint64_t i = 0; i < n; ++i) { vc::check(g[i].size() <= R, "no list is longer than the degree bound"); std::set<uint32_t> s(g[i].begin(), g[i].end()); vc::check(s.size() == g[i].size() && !s.count((uint32_t)i), "lists name distinct other points"); for (uint32_t m : g[i]) vc::check(m < n, "lists name existing points"); vc::check(n < 2 || !g[i].empty(), "every point has a neighbor"); }
}
VC_PROOF(build) {
  quiet(); Points p(1, vc::in("large", 0, 4) == 0 ? 160 : 40); VamanaBuildParams q; q.R = (uint32_t)vc::in("R", 1, 12); q.L = (uint32_t)vc::in("L", 2, 30); q.alpha = vc::b("a") ? 1.2f : 1.0f; q.num_threads = (uint32_t)vc::in("th", 1, 3); q.maxc = (uint32_t)vc::in("maxc", 1, 60);
  VamanaBuilder b(p.x.data(), p.n, (uint32_t)p.dim, q); b.build(); graph_ok(b.graph(), p.n, q.R);
  std::vector<double> c(p.dim); for (uint64_t i = 0; i < p.n; ++i) for (uint64_t d = 0; d < p.dim; ++d) c[d] += p.at(i)[d]; auto far = [&](uint64_t i) { double s = 0; for (uint64_t d = 0; d < p.dim; ++d) { double e = p.at(i)[d] - (float)(c[d] / p.n); s += e * e; } return s; };
  vc::check(b.medoid() < p.n, "the entry point exists"); double own = far(b.medoid()); for (uint64_t i = 0; i < p.n; ++i) vc::check(far(i) >= own - 1e-6 * own - 1e-9, "the entry point is the point nearest to the mean");
  if (q.num_threads == 1) { VamanaBuilder b2(p.x.data(), p.n, (uint32_t)p.dim, q); b2.build(); vc::check(b2.graph() == b.graph() && b2.medoid() == b.medoid(), "construction with one thread is deterministic");
    std::vector<bool> seen(p.n); std::vector<uint32_t> st{b.medoid()}; seen[b.medoid()] = true; while (!st.empty()) { uint32_t u = st.back(); st.pop_back(); for (uint32_t m : b.graph()[u]) if (!seen[m]) { seen[m] = true; st.push_back(m); } } }
}
static std::vector<std::vector<uint32_t>> random_graph(uint64_t n, uint64_t deg) { std::vector<std::vector<uint32_t>> g(n); for (uint64_t i = 0; i < n; ++i) { std::set<uint32_t> s; uint64_t k = vc::in("k", 1, deg); for (uint64_t j = 0; j < k; ++j) { uint32_t m = (uint32_t)vc::in("m", 0, n - 1); if (m != i) s.insert(m); } if (s.empty()) s.insert((uint32_t)((i + 1) % n)); g[i].assign(s.begin(), s.end()); for (size_t a = g[i].size(); a > 1; --a) std::swap(g[i][a - 1], g[i][vc::in("sh", 0, a - 1)]); } return g; }
static uint32_t widest(const std::vector<std::vector<uint32_t>> &g) { size_t m = 0; for (auto &a : g) m = std::max(m, a.size()); return (uint32_t)m; }
static bool loads(const char *p) { try { VamanaReader r(p); (void)r; return true; } catch (const std::runtime_error &) { return false; } }
VC_PROOF(graph_file) {
  uint64_t n = vc::in("n", 2, 30); auto g = random_graph(n, 6); uint32_t start = (uint32_t)vc::in("start", 0, n - 1), md = widest(g) + (uint32_t)vc::in("spare", 0, 2); save_graph(g, "graph.bin", md, start); { VamanaReader r("graph.bin"); vc::check(r.graph() == g && r.start() == start && r.max_degree() == md && r.num_nodes() == n && r.frozen_pts() == 0, "a saved graph reads back"); }
  std::string t; { std::ifstream f("graph.bin", std::ios::binary); t.assign(std::istreambuf_iterator<char>(f), {}); } auto put = [](const std::string &s) { std::ofstream f("bad.bin", std::ios::binary); f << s; }; auto p32 = [](std::string &s, size_t o, uint32_t v) { memcpy(&s[o], &v, 4); }; auto p64 = [](std::string &s, size_t o, uint64_t v) { memcpy(&s[o], &v, 8); };
  std::string b = t; uint64_t node = vc::in("node", 0, n - 1), off = 24; for (uint64_t i = 0; i < node; ++i) off += 4 + 4 * g[i].size(); uint64_t slot = vc::in("slot", 0, g[node].size() - 1);
  switch (vc::in("bad", 0, 10)) {
    case 0: b = t.substr(0, vc::in("cut", 0, t.size() - 1)); break;
    case 1: b = t + std::string(vc::in("more", 1, 9), 'x'); break;
    case 2: b = t.substr(0, vc::in("cut", 24, t.size() - 1)); p64(b, 0, b.size()); { uint64_t o = 24, i = 0; while (i < n && o + 4 + 4 * g[i].size() <= b.size()) { o += 4 + 4 * g[i].size(); ++i; } if (o == b.size()) { bool ok = i > 0 && start < i; for (uint64_t j = 0; j < i; ++j) for (uint32_t m : g[j]) ok &= m < i; put(b); vc::check(loads("bad.bin") == ok, "a shorter graph loads exactly when its ids exist"); return; } } break;
    case 3: p32(b, off + 4 + 4 * slot, (uint32_t)(n + vc::in("beyond", 0, 3))); break;
    case 4: p32(b, off + 4 + 4 * slot, (uint32_t)node); break;
    case 5: p32(b, 12, (uint32_t)(n + vc::in("beyond", 0, 3))); break;
    case 6: p32(b, 8, 0); break;
    case 7: p64(b, 16, vc::in("frozen", 1, 3)); break;
    case 8: p32(b, 8, widest(g) - 1); break;
    case 9: p32(b, off, vc::b("huge") ? 0xFFFFFFFFu : 0); break;
    default: b.insert(off, std::string(4, '\0')); p64(b, 0, b.size()); break;
  }
  put(b); vc::check(!loads("bad.bin"), "a malformed graph is rejected"); vc::check(!loads("absent.bin"), "a missing file is rejected");
}
VC_PROOF(search) {
  quiet(); Points p(2, 50); auto g = random_graph(p.n, 4); uint32_t start = (uint32_t)vc::in("start", 0, p.n - 1); save_graph(g, "graph.bin", widest(g), start); VamanaReader r("graph.bin"); VamanaGreedySearch s(r, p.x.data(), (uint32_t)p.dim); vc::check(s.medoid() == start, "the search starts at the entry point");
  std::set<uint32_t> reach{start}; std::vector<uint32_t> st{start}; while (!st.empty()) { uint32_t u = st.back(); st.pop_back(); for (uint32_t m : g[u]) if (reach.insert(m).second) st.push_back(m); }
  for (uint64_t q = vc::in("queries", 1, 4); q > 0; --q) {
    std::vector<float> x; for (uint64_t d = 0; d < p.dim; ++d) x.push_back((float)(int)vc::in("q", 0, 40)); uint32_t k = (uint32_t)vc::in("k", 1, 12), L = k + (uint32_t)vc::in("L", 0, 60); auto h = s.search(x.data(), k, L); std::set<uint32_t> ids;
    for (size_t i = 0; i < h.size(); ++i) { vc::check(reach.count(h[i].id) && ids.insert(h[i].id).second, "hits are distinct reachable points"); vc::check(h[i].distance == l2(x.data(), p.at(h[i].id), p.dim), "with their own distances"); vc::check(i == 0 || h[i - 1].distance <= h[i].distance, "in order of distance"); }
    vc::check(h.size() == std::min<size_t>(k, std::min<size_t>(reach.size(), h.size() < k ? reach.size() : k)), "as many as asked for, or all that are reachable");
    // the list never drops a reachable point when it is long enough for all of them
    if (L >= reach.size()) { std::vector<std::pair<float, uint32_t>> all; for (uint32_t i : reach) all.push_back({l2(x.data(), p.at(i), p.dim), i}); std::sort(all.begin(), all.end()); vc::check(h.size() == std::min<size_t>(k, all.size()), "nothing reachable is missing"); for (size_t i = 0; i < h.size(); ++i) vc::check(h[i].id == all[i].second, "a list as long as the reachable set gives the exact nearest points"); vc::check(s.last_visited_order().size() == reach.size(), "every reachable point is visited once"); }
    std::set<uint32_t> vis(s.last_visited_order().begin(), s.last_visited_order().end()); vc::check(vis.size() == s.last_visited_order().size() && s.last_visited_order()[0] == start, "points are visited once, starting at the entry point"); for (auto &e : h) { vc::check(vis.count(e.id), "hits were visited"); for (uint32_t m : g[e.id]) vc::check(vis.count(m), "the neighbors of every hit were visited"); }
  }
  for (int z = 0; z < 3; ++z) { bool threw = false; try { float o[16] = {}; (void)s.search(o, z == 0 ? 0 : 5, z == 1 ? 0 : z == 2 ? 4 : 5); } catch (const std::runtime_error &) { threw = true; } vc::check(threw, "impossible parameters are rejected"); }
}
