// bounded stand-in: product quantization tables: training, encoding, tables, persistence
#include "vc.h"
// @natlibs -lspdlog -lfmt
// @flags -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL
#include <cmath>
#include <cstring>
#include <fstream>
#include <set>
#include "index/graph/diskann/pq_table.hpp"
using namespace alaya::diskann;
static double l2(const float *a, const float *b, size_t n) { double s = 0; for (size_t k = 0; k < n; ++k) s += ((double)a[k] - b[k]) * ((double)a[k] - b[k]); return s; }
static bool close(double a, double b, double mag) { return std::fabs(a - b) <= 2e-5 * (std::fabs(a) + std::fabs(b) + mag) + 1e-30; }
struct Case {
  uint64_t nc, cd, dim, n; std::vector<float> x; bool ints;
  Case(uint64_t lo, uint64_t hi, uint64_t maxnc = 5) { nc = vc::in("nc", 1, maxnc); cd = vc::in("cd", 1, 9); dim = nc * cd; n = vc::in("n", lo, hi); ints = vc::b("ints"); x = points(n); }
  std::vector<float> points(uint64_t m) const { std::vector<float> v(m * dim); double sc = ints ? 1 : vc::in("sc", 0, 1) ? 1e-2 : 1e2; for (auto &f : v) f = ints ? (float)((int)vc::in("v", 0, 12) - 6) : (float)(((int)vc::in("v", 0, 20000) - 10000) * sc / 1000); return v; }
};
static double mag(const std::vector<float> &v) { double m = 0; for (float f : v) m = std::max(m, (double)f * f); return m; }
// ---- an arbitrary codebook
static PQTable arbitrary(const Case &c) {
  std::vector<float> gc = c.points(1), cb; for (uint64_t k = 0; k < c.nc * 256; ++k) { if (k && vc::in("dup", 0, 5) == 0) { std::vector<float> last(cb.end() - c.cd, cb.end()); cb.insert(cb.end(), last.begin(), last.end()); } else for (uint64_t d = 0; d < c.cd; ++d) cb.push_back((float)((int)(vc::u8("cb") % 41) - 20) * (c.ints ? 1.0f : 0.37f)); }
  return PQTable::from_codebook(c.dim, (uint32_t)c.nc, gc, cb);
}
static void check_code(const PQTable &t, const float *x, const uint8_t *code) {
  uint64_t cd = t.chunk_dim(), nc = t.n_chunks(); std::vector<float> r(t.dim()); for (uint64_t d = 0; d < t.dim(); ++d) r[d] = x[d] - t.global_centroid()[d];
  for (uint64_t c = 0; c < nc; ++c) {
    const float *cb = t.codebook().data() + c * 256 * cd; double own = l2(&r[c * cd], cb + code[c] * cd, cd);
    for (uint64_t k = 0; k < 256; ++k) { double o = l2(&r[c * cd], cb + k * cd, cd); vc::check(own <= o || close(own, o, o), "each code is a nearest centroid of its chunk"); if (k < code[c] && !memcmp(cb + k * cd, cb + code[c] * cd, 4 * cd)) vc::check(false, "the first of equal centroids is chosen"); }
  }
}
static void check_tables(PQTable &t, const Case &c) {
  uint64_t cd = t.chunk_dim(), nc = t.n_chunks(), n = t.num_points(); auto q = c.points(1); std::vector<float> tab(nc * 256 + 1, -7.5f), scr(t.dim() + 1, -7.5f); t.preprocess_query(q.data(), tab.data(), scr.data());
  vc::check(tab.back() == -7.5f && scr.back() == -7.5f, "the query table is exactly as large as announced");
  for (uint64_t k = 0; k < nc; ++k) for (uint64_t j = 0; j < 256; ++j) { std::vector<float> r(cd); double m = 0; for (uint64_t d = 0; d < cd; ++d) { r[d] = q[k * cd + d] - t.global_centroid()[k * cd + d]; m = std::max(m, (double)r[d] * r[d]); } double want = l2(r.data(), t.codebook().data() + (k * 256 + j) * cd, cd); vc::check(close(tab[k * 256 + j], want, m), "each table entry is the distance of the query's chunk to the centroid"); }
  uint32_t m = (uint32_t)vc::in("m", 0, 250); std::vector<uint32_t> ids(m); for (auto &i : ids) i = (uint32_t)vc::in("id", 0, n - 1); std::vector<float> out(m + 1, -7.5f); t.pq_distance_batch(ids.data(), m, tab.data(), out.data()); vc::check(out.back() == -7.5f, "the batch writes one distance per id");
  for (uint32_t k = 0; k < m; ++k) { double s = 0; for (uint64_t j = 0; j < nc; ++j) s += tab[j * 256 + t.codes()[ids[k] * nc + j]]; vc::check(close(t.pq_distance(ids[k], tab.data()), s, s), "a point's distance is the sum of its codes' entries"); vc::check(close(out[k], t.pq_distance(ids[k], tab.data()), s), "the batch gives the single distances"); }
  for (int z = 0; z < 20; ++z) { uint64_t a = vc::in("a", 0, n - 1), b = vc::in("b", 0, n - 1); double s = 0, mm = 0; for (uint64_t j = 0; j < nc; ++j) { const float *x = t.codebook().data() + (j * 256 + t.codes()[a * nc + j]) * cd, *y = t.codebook().data() + (j * 256 + t.codes()[b * nc + j]) * cd; s += l2(x, y, cd); for (uint64_t d = 0; d < cd; ++d) mm = std::max(mm, (double)x[d] * x[d]); }
    vc::check(close(t.pq_symmetric_distance(a, b), s, mm), "the symmetric distance is that of the two points' centroids"); vc::check(t.pq_symmetric_distance(t.codes().data() + a * nc, b) == t.pq_symmetric_distance(a, b), "a caller's code gives the same distance"); }
  for (int z = 0; z < 2; ++z) { bool threw = false; try { (void)(z ? t.pq_symmetric_distance(n, (uint64_t)0) : t.pq_symmetric_distance((uint64_t)0, n)); } catch (const std::out_of_range &) { threw = true; } vc::check(threw, "points that do not exist are rejected"); }
}
VC_PROOF(pq_tables) {
  Case c(1, 40, vc::in("wide", 0, 6) == 0 ? 66 : 6); PQTable t = arbitrary(c); t.encode(c.x.data(), c.n, (uint32_t)vc::in("th", 1, 3)); vc::check(t.num_points() == c.n && t.codes().size() == c.n * c.nc, "one code row per point");
  for (uint64_t i = 0; i < c.n; ++i) check_code(t, &c.x[i * c.dim], &t.codes()[i * c.nc]);
  check_tables(t, c);
  uint64_t ops = vc::in("ops", 0, 5); auto before = t.codes();
  for (uint64_t o = 0; o < ops; ++o) {
    auto x = c.points(1); uint64_t at = vc::in("at", 0, t.num_points() + 3), n0 = t.num_points(); before = t.codes(); std::vector<uint8_t> own(c.nc + 1, 0xEE); t.encode_to_code(x.data(), own.data()); vc::check(t.codes() == before && own.back() == 0xEE, "encoding into a caller's row leaves the table alone"); t.encode_one(x.data(), at);
    vc::check(t.num_points() == std::max(n0, at + 1) && t.codes().size() == t.num_points() * c.nc, "encoding beyond the end grows the table"); check_code(t, x.data(), &t.codes()[at * c.nc]); vc::check(!memcmp(own.data(), &t.codes()[at * c.nc], c.nc), "both encoders give the same code");
    for (uint64_t k = 0; k < before.size(); ++k) if (k / c.nc != at) vc::check(before[k] == t.codes()[k], "other points keep their codes");
  }
  check_tables(t, c);
}
static std::string slurp(const char *p) { std::ifstream f(p, std::ios::binary); return std::string(std::istreambuf_iterator<char>(f), {}); }
VC_PROOF(pq_files) {
  Case c(1, 30); PQTable t = arbitrary(c); t.encode(c.x.data(), c.n, 1); t.save("piv", "cod"); std::string piv = slurp("piv"), cod = slurp("cod");
  vc::check(piv.size() == 4 * (t.dim() + t.codebook().size()) && cod.size() == t.codes().size(), "the files hold the centroids, the codebook and the codes");
  PQTable u; if (vc::b("used")) { Case d(1, 5); u = arbitrary(d); u.encode(d.x.data(), d.n, 1); } u.load("piv", "cod", c.n, c.dim, (uint32_t)c.nc);
  vc::check(u.num_points() == c.n && u.dim() == c.dim && u.n_chunks() == c.nc && u.chunk_dim() == c.cd && u.codes() == t.codes() && u.codebook() == t.codebook() && u.global_centroid() == t.global_centroid(), "a saved table loads unchanged");
  check_tables(u, c); { auto x = c.points(1); std::vector<uint8_t> a(c.nc), b(c.nc); t.encode_to_code(x.data(), a.data()); u.encode_to_code(x.data(), b.data()); vc::check(a == b, "a loaded table encodes alike"); }
  uint64_t k = vc::in("bad", 0, 5); auto put = [](const char *p, const std::string &s) { std::ofstream f(p, std::ios::binary); f << s; }; uint64_t n = c.n, dim = c.dim, nc = c.nc;
  if (k == 0) put("piv", piv.substr(0, vc::in("cut", 0, piv.size() - 1))); else if (k == 1) put("cod", cod.substr(0, vc::in("cut", 0, cod.size() - 1))); else if (k == 2) put("piv", piv + "x"); else if (k == 3) put("cod", cod + "x"); else if (k == 4) n += vc::b("up") || n == 1 ? 1 : -1; else { nc = dim + 1; }
  bool threw = false; PQTable v; try { v.load("piv", "cod", n, dim, (uint32_t)nc); } catch (const std::exception &) { threw = true; } vc::check(threw, "files of the wrong size are rejected"); unlink("piv"); unlink("cod");
}
VC_PROOF(pq_train) {
  bool big = vc::in("big", 0, 3) == 0; Case c(big ? 257 : 1, big ? 330 : 256, 3); uint64_t seed = vc::u64("seed"); uint32_t it = (uint32_t)vc::in("it", 0, 4); PQTable t, u; t.train(c.x.data(), c.n, c.dim, (uint32_t)c.nc, it, seed, 1); u.train(c.x.data(), c.n, c.dim, (uint32_t)c.nc, it, seed, (uint32_t)vc::in("th", 2, 4));
  vc::check(t.codebook() == u.codebook() && t.global_centroid() == u.global_centroid(), "training does not depend on the number of threads"); vc::check(t.codebook().size() == c.nc * 256 * c.cd && t.dim() == c.dim && t.chunk_dim() == c.cd && t.n_chunks() == c.nc, "the codebook has 256 centroids per chunk");
  for (uint64_t d = 0; d < c.dim; ++d) { double s = 0, a = 0; for (uint64_t i = 0; i < c.n; ++i) { s += c.x[i * c.dim + d]; a += std::fabs(c.x[i * c.dim + d]); } vc::check(std::fabs(t.global_centroid()[d] - s / c.n) <= 1e-4 * a / c.n + 1e-6 * a, "the global centroid is the mean"); }
  for (uint64_t q = 0; q < c.nc; ++q) for (uint64_t d = 0; d < c.cd; ++d) { uint64_t g = q * c.cd + d; float lo = INFINITY, hi = -INFINITY; for (uint64_t i = 0; i < c.n; ++i) { float r = c.x[i * c.dim + g] - t.global_centroid()[g]; lo = std::min(lo, r); hi = std::max(hi, r); }
    for (uint64_t k = 0; k < 256; ++k) { float v = t.codebook()[(q * 256 + k) * c.cd + d]; vc::check(v >= lo && v <= hi, "centroids lie within the training data of their chunk"); if (c.n <= 256) { uint64_t i = std::min(k, c.n - 1); vc::check(v == c.x[i * c.dim + g] - t.global_centroid()[g], "few points are their own centroids"); } } }
  t.encode(c.x.data(), c.n, (uint32_t)vc::in("eth", 1, 3)); for (uint64_t z = 0; z < 20; ++z) { uint64_t i = vc::in("pt", 0, c.n - 1); check_code(t, &c.x[i * c.dim], &t.codes()[i * c.nc]); }
  check_tables(t, c);
  if (c.n <= 256) { uint64_t i = vc::in("self", 0, c.n - 1); std::vector<float> tab(c.nc * 256), scr(c.dim); t.preprocess_query(&c.x[i * c.dim], tab.data(), scr.data()); vc::check(t.pq_distance(i, tab.data()) == 0, "a training point encodes exactly"); }
  auto bad = [&](auto f) { bool th = false; try { f(); } catch (const std::invalid_argument &) { th = true; } catch (const std::logic_error &) { th = true; } vc::check(th, "bad arguments are rejected"); }; PQTable e; std::vector<uint8_t> cc(4); std::vector<float> ff(4);
  bad([&] { e.encode(c.x.data(), 1); }); bad([&] { e.encode_one(c.x.data(), 0); }); bad([&] { e.encode_to_code(c.x.data(), cc.data()); }); bad([&] { e.save("x", "y"); }); bad([&] { e.train(c.x.data(), c.n, c.dim, (uint32_t)c.dim + 1); }); bad([&] { e.train(nullptr, 1, 1, 1); }); bad([&] { e.train(c.x.data(), 0, c.dim, 1); }); bad([&] { t.encode(c.x.data(), 0); });
}
