// bounded stand-in: whole disk graph files: written, read back, cut, corrupted, failing writes
#include "vc.h"
#include <signal.h>
#include <sys/resource.h>
#include <cstring>
#include <filesystem>
#include <fstream>
#include "index/graph/diskann/disk_layout.hpp"
using namespace alaya::diskann;
using Bytes = std::string;
static Bytes slurp(const std::string &p) { std::ifstream f(p, std::ios::binary); return Bytes(std::istreambuf_iterator<char>(f), {}); }
static void spill(const std::string &p, const Bytes &b) { std::ofstream f(p, std::ios::binary); f << b; }
template <class T> static void put(Bytes &b, size_t o, T v) { memcpy(&b[o], &v, sizeof v); }
template <class T> static T at(const Bytes &b, size_t o) { T v{}; if (o + sizeof v <= b.size()) memcpy(&v, &b[o], sizeof v); return v; }
template <class F> static bool throws(F f) { try { f(); return false; } catch (const std::exception &) { return true; } }
struct Graph { uint64_t n, dim; uint32_t deg, medoid; std::vector<float> x; std::vector<std::vector<uint32_t>> g;
  Graph(uint64_t maxn = 60) { n = 1 + vc::in("n", 0, maxn - 1); dim = 1 + (vc::in("big", 0, 5) ? vc::in("dim", 0, 40) : vc::in("dimb", 900, 2500)); deg = (uint32_t)(vc::in("bigdeg", 0, 6) ? vc::in("deg", 0, 24) : vc::in("degb", 500, 1500)); medoid = (uint32_t)vc::in("medoid", 0, n - 1); if (vc::in("fit", 0, 4) == 0) { dim = 1 + vc::in("fd", 0, 62); static const uint32_t per[] = {1, 2, 4, 8, 16}; uint32_t w = 1024 / per[vc::in("per", 0, 4)]; deg = w > dim + 1 ? (uint32_t)(w - dim - 1) : 0; }
    for (uint64_t k = 0; k < n * dim; ++k) x.push_back((float)(k * 2654435761u % 1000) - 500); for (uint64_t i = 0; i < n; ++i) { std::vector<uint32_t> l; uint64_t d = vc::in("d", 0, 3) ? vc::in("dd", 0, std::min<uint32_t>(deg, 20)) : deg; for (uint64_t j = 0; j < d; ++j) l.push_back((uint32_t)((i * 31 + j * 7 + 1) & 0xFFFFFFFF)); g.push_back(l); } }
  WriteDiskLayoutParams params() const { WriteDiskLayoutParams p; p.num_points = n; p.dim = dim; p.max_degree = deg; p.medoid = medoid; return p; } };
VC_PROOF(whole_file) {
  Graph q; write_disk_layout("g", q.x.data(), q.g, q.params()); Bytes b = slurp("g"); DiskLayoutHeader h = read_disk_layout_header("g"); auto geo = DiskLayoutGeometry::compute(q.dim, q.deg);
  vc::check(h.num_points == q.n && h.dim == q.dim && h.medoid == q.medoid && h.max_degree == q.deg && h.node_len == geo.node_len && h.nodes_per_sector == geo.nodes_per_sector && h.total_file_size == b.size(), "the header reads back");
  uint64_t len = q.dim * 4 + 4 + (uint64_t)q.deg * 4, per = len > 4096 ? 1 : 4096 / len, page = (per * len + 4095) / 4096 * 4096; vc::check(b.size() == 4096 + (q.n + per - 1) / per * page, "the file holds the header and every page");
  Bytes want(b.size(), 0); put<uint64_t>(want, 0, q.n); put<uint64_t>(want, 8, q.dim); put<uint32_t>(want, 16, q.medoid); put<uint32_t>(want, 20, q.deg); put<uint64_t>(want, 24, len); put<uint64_t>(want, 32, per); put<uint64_t>(want, 40, b.size());
  for (uint64_t i = 0; i < q.n; ++i) { uint64_t o = 4096 + i / per * page + i % per * len; memcpy(&want[o], &q.x[i * q.dim], q.dim * 4); put<uint32_t>(want, o + q.dim * 4, (uint32_t)q.g[i].size()); if (!q.g[i].empty()) memcpy(&want[o + q.dim * 4 + 4], q.g[i].data(), q.g[i].size() * 4);
    vc::check(geo.file_offset(i) == o, "a node is read where it is written"); NodeRecordView v{b.data() + o, q.dim}; vc::check(!memcmp(v.coords(), &q.x[i * q.dim], q.dim * 4) && v.n_nbrs() == q.g[i].size() && (q.g[i].empty() || !memcmp(v.nbrs(), q.g[i].data(), q.g[i].size() * 4)), "every node reads back"); }
  vc::check(b == want, "unused slots and padding are zero");
}
VC_PROOF(damaged) {
  Graph q(12); write_disk_layout("g", q.x.data(), q.g, q.params()); Bytes b = slurp("g");
  { Bytes c = b; c.resize(vc::in("cut", 0, b.size() - 1)); spill("c", c); vc::check(throws([&] { read_disk_layout_header("c"); }), "a cut file is rejected"); c = b + Bytes(1 + vc::in("more", 0, 5000), 0); spill("c", c); vc::check(throws([&] { read_disk_layout_header("c"); }), "a file with bytes left over is rejected"); }
  { Bytes c = b; uint64_t f = vc::in("field", 0, 6); static const size_t off[] = {0, 8, 16, 20, 24, 32, 40}; uint64_t v = 0; switch (vc::in("how", 0, 4)) { case 0: v = vc::in("small", 0, 100); break; case 1: v = ~vc::in("huge", 0, 100); break; case 2: v = (1ULL << 62) - vc::in("wrap", 0, 30); break; case 3: v = (1ULL << vc::in("sh", 0, 63)); break; default: v = at<uint64_t>(b, off[f]) ^ (1ULL << vc::in("bit", 0, 63)); }
    if (f == 2 || f == 3) put<uint32_t>(c, off[f], (uint32_t)v); else put<uint64_t>(c, off[f], v); if (f == 1 && vc::in("both", 0, 1)) put<uint32_t>(c, 20, (uint32_t)((1ULL << 62) - 1 - v)); spill("c", c); DiskLayoutHeader h; bool ok = false; try { h = read_disk_layout_header("c"); ok = true; } catch (const std::exception &) {}
    vc::check(!ok || (h.num_points && h.dim && h.medoid < h.num_points && h.total_file_size == c.size() && h.dim < c.size() && h.max_degree < c.size() && DiskLayoutGeometry::compute(h.dim, h.max_degree).file_offset(h.num_points - 1) + h.node_len <= c.size()), "an accepted header describes records inside the file"); }
}
struct Limit { rlimit old; Limit(uint64_t n) { getrlimit(RLIMIT_FSIZE, &old); signal(SIGXFSZ, SIG_IGN); rlimit l{n, old.rlim_max}; setrlimit(RLIMIT_FSIZE, &l); } ~Limit() { setrlimit(RLIMIT_FSIZE, &old); } };
VC_PROOF(rejected) {
  Graph q(8); auto p = q.params(); auto bad = [&](auto f) { auto r = p; auto g = q.g; const float *x = q.x.data(); f(r, g, x); return throws([&] { write_disk_layout("r", x, g, r); }); };
  vc::check(bad([](auto &r, auto &, auto &) { r.dim = 0; }) && bad([](auto &r, auto &g, auto &) { r.num_points = 0; g.clear(); }) && bad([](auto &, auto &, auto &x) { x = nullptr; }), "zero dimension, no points and missing vectors are rejected");
  vc::check(bad([](auto &, auto &g, auto &) { g.emplace_back(); }) && bad([](auto &r, auto &, auto &) { r.num_points++; }), "a graph of another size is rejected"); vc::check(bad([](auto &r, auto &, auto &) { r.medoid = (uint32_t)r.num_points; }), "an entry point out of range is rejected");
  uint64_t i = vc::in("i", 0, q.n - 1); vc::check(bad([&](auto &r, auto &g, auto &) { g[i].assign((uint64_t)r.max_degree + 1, 0); }), "a node with too many neighbours is rejected"); { bool t = false; try { DiskLayoutGeometry::compute(0, q.deg); } catch (const std::invalid_argument &) { t = true; } vc::check(t, "dimension zero is rejected"); }
  write_disk_layout("g", q.x.data(), q.g, p); uint64_t n = slurp("g").size(); { Limit l(vc::in("limit", 0, n - 1)); vc::check(throws([&] { write_disk_layout("f", q.x.data(), q.g, p); }), "a file that cannot be written completely is reported"); }
}
