// bounded stand-in: histories of the vector storage and of the raw and quantized spaces, with save/load
// @natlibs -lrocksdb -lspdlog -lfmt
// @flags -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL
#include "vc.h"
#include <cmath>
#include <fstream>
#include <limits>
#include <memory>
#include <vector>
#include "space/raw_space.hpp"
#include "space/sq4_space.hpp"
#include "space/sq8_space.hpp"
#include "storage/sequential_storage.hpp"
#include <spdlog/spdlog.h>
using namespace alaya;
static const bool quiet = (spdlog::set_level(spdlog::level::off), true);
VC_PROOF(storage_history) {
  using S = SequentialStorage<float, uint32_t>; auto s = std::make_unique<S>();
  uint64_t dim = vc::in("dim", 1, 20), cap = vc::in("cap", 1, 40); char fill = (char)(vc::b("fill") ? 0x3c : 0); s->init(dim * 4, cap, fill, vc::b("a64") ? 64 : 32);
  std::vector<std::vector<float>> m; std::vector<bool> live; uint64_t n = vc::in("ops", 0, 60);
  for (uint64_t k = 0; k < n; ++k) {
    uint64_t op = vc::in("op", 0, 9); std::vector<float> v(dim); for (auto &x : v) x = (float)vc::in("x", 0, 999);
    if (op < 5) { uint32_t id = s->insert(v.data()); if (m.size() >= cap) vc::check(id == ~0u, "a full storage rejects items"); else { vc::check(id == m.size(), "ids are handed out in order"); m.push_back(v); live.push_back(true); } }
    else if (op == 5) { uint32_t id = s->reserve(); if (m.size() >= cap) vc::check(id == ~0u, "a full storage rejects reservations"); else { vc::check(id == m.size(), "reserved ids are in order"); std::memcpy((*s)[id], v.data(), dim * 4); m.push_back(v); live.push_back(true); } }
    else if (op == 6 || op == 7) { uint32_t id = (uint32_t)vc::in("id", 0, cap + 2); bool ok = id < m.size() && live[id]; vc::check(s->remove(id) == (ok ? id : ~0u), "removal reports the id or rejects"); if (ok) live[id] = false; }
    else if (op == 8) { uint32_t id = (uint32_t)vc::in("id", 0, cap + 2); bool ok = id < m.size() && live[id]; vc::check(s->update(id, v.data()) == (ok ? id : ~0u), "update reports the id or rejects"); if (ok) m[id] = v; }
    else { { std::ofstream o("st", std::ios::binary); s->save(o); } s = std::make_unique<S>(); if (vc::b("used")) s->init(8, 3); std::ifstream i("st", std::ios::binary); s->load(i); }
    for (uint32_t id = 0; id < cap + 3; ++id) vc::check(s->is_valid(id) == (id < m.size() && live[id]), "exactly the live ids are valid");
    for (uint32_t id = 0; id < m.size(); ++id) vc::check(std::memcmp((*s)[id], m[id].data(), dim * 4) == 0, "items keep their bytes");
  }
}
static float value() { return (float)(int64_t)vc::in("x", 0, 2000) / 8 - 125; }
template <class Sp> static std::unique_ptr<Sp> make(uint32_t cap, uint32_t dim, MetricType m) { return std::make_unique<Sp>(cap, dim, m); }
static double ref(MetricType m, const std::vector<float> &a, const std::vector<float> &b) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s += m == MetricType::L2 ? ((double)a[i] - b[i]) * ((double)a[i] - b[i]) : -(double)a[i] * b[i]; return s; }
static double mag(MetricType m, const std::vector<float> &a, const std::vector<float> &b) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s += m == MetricType::L2 ? ((double)a[i] - b[i]) * ((double)a[i] - b[i]) : std::fabs((double)a[i] * b[i]); return s; }
static bool near(double x, double y, double scale) { return std::fabs(x - y) <= 2e-5 * scale + 1e-6; }
template <class Sp, bool Raw, bool Quant8> static void history() {
  uint32_t dim = (uint32_t)vc::in("dim", 1, 40), cap = (uint32_t)vc::in("cap", 1, 24); MetricType met = vc::b("ip") ? MetricType::IP : MetricType::L2;
  auto s = make<Sp>(cap, dim, met); std::vector<std::vector<float>> m; std::vector<bool> live; uint32_t gone = 0;
  uint32_t n0 = (uint32_t)vc::in("fit", 0, cap + 1); std::vector<float> all; 
  for (uint32_t i = 0; i < n0; ++i) { std::vector<float> v(dim); for (auto &x : v) x = value(); m.push_back(v); live.push_back(true); all.insert(all.end(), v.begin(), v.end()); }
  all.reserve(1); bool threw = false;
  try { s->fit(all.data(), n0); } catch (const std::length_error &) { threw = true; }
  vc::check(threw == (n0 > cap), "fitting more items than the capacity is rejected, fitting fewer is not"); if (threw) return;
  std::vector<float> lo(dim, std::numeric_limits<float>::max()), hi(dim, std::numeric_limits<float>::lowest());
  for (auto &v : m) for (uint32_t d = 0; d < dim; ++d) { lo[d] = std::min(lo[d], v[d]); hi[d] = std::max(hi[d], v[d]); }
  auto code = [&](const std::vector<float> &v, uint32_t d) -> int { if (hi[d] == lo[d] || v[d] <= lo[d]) return v[d] >= hi[d] && hi[d] != lo[d] ? 255 : 0; if (v[d] >= hi[d]) return 255; return (int)((v[d] - lo[d]) / (hi[d] - lo[d]) * 255); };
  auto dec = [&](const std::vector<float> &v) { std::vector<float> r(dim); for (uint32_t d = 0; d < dim; ++d) r[d] = lo[d] + code(v, d) / 255.0f * (hi[d] - lo[d]); return r; };
  uint64_t n = vc::in("ops", 0, 16);
  for (uint64_t k = 0; k <= n; ++k) {
    uint64_t op = k == 0 ? 99 : vc::in("op", 0, 7); std::vector<float> v(dim);
    if (op < 4) { for (auto &x : v) x = value(); if (Quant8 && n0 == 0) continue;
      uint32_t id = s->insert(v.data()); if (m.size() >= cap) vc::check(id == ~0u, "a full space rejects items"); else { vc::check(id == m.size(), "ids are handed out in order"); m.push_back(v); live.push_back(true); } }
    else if (op < 7) { uint32_t id = (uint32_t)vc::in("id", 0, cap + 2); bool ok = id < m.size() && live[id]; vc::check(s->remove(id) == (ok ? id : ~0u), "removal reports the id or rejects"); if (ok) { live[id] = false; ++gone; } }
    else if (op == 7) { s->save("sp"); s = std::make_unique<Sp>(); s->load("sp"); s->set_metric_function(); }
    vc::check(s->get_data_num() == m.size(), "item count"); vc::check(s->get_capacity() == cap && s->get_dim() == dim, "capacity and dimension");
    if constexpr (Raw) vc::check(s->get_avl_data_num() == m.size() - gone, "available count");
    if constexpr (Raw) for (uint32_t i = 0; i < m.size(); ++i) vc::check(std::memcmp(s->get_data_by_id(i), m[i].data(), dim * 4) == 0, "vectors are kept");
    if constexpr (Quant8) for (uint32_t i = 0; i < m.size(); ++i) for (uint32_t d = 0; d < dim; ++d) { int c = s->get_data_by_id(i)[d]; vc::check(std::abs(c - code(m[i], d)) <= 1, "codes are the quantized coordinates"); }
  }
  if (m.empty()) return;
  std::vector<float> q(dim); for (auto &x : q) x = value();
  if constexpr (Raw) {
    auto c = s->get_query_computer(q.data());
    for (uint32_t i = 0; i < m.size(); ++i) { float d = c(i); if (!live[i]) vc::check(d == std::numeric_limits<float>::max(), "deleted items are infinitely far"); else vc::check(near(d, ref(met, q, m[i]), mag(met, q, m[i])), "the query distance is the distance to the stored vector"); }
    vc::check(c(cap) == std::numeric_limits<float>::max(), "absent items are infinitely far");
    uint32_t a = (uint32_t)vc::in("a", 0, m.size() - 1), b = (uint32_t)vc::in("b", 0, m.size() - 1);
    vc::check(near(s->get_distance(a, b), ref(met, m[a], m[b]), mag(met, m[a], m[b])), "pair distance");
    auto c2 = s->get_query_computer(a); if (live[b]) vc::check(near(c2(b), ref(met, m[a], m[b]), mag(met, m[a], m[b])), "query by id");
  }
  if constexpr (Quant8) {
    auto stored = [&](uint32_t i) { std::vector<float> r(dim); for (uint32_t d = 0; d < dim; ++d) r[d] = lo[d] + s->get_data_by_id(i)[d] / 255.0f * (hi[d] - lo[d]); return r; };
    uint32_t a = (uint32_t)vc::in("a", 0, m.size() - 1), b = (uint32_t)vc::in("b", 0, m.size() - 1); auto x = stored(a), y = stored(b);
    vc::check(near(s->get_distance(a, b), ref(met, x, y), 4 * mag(met, x, y) + 1), "the pair distance is the distance of the decoded vectors");
    auto c2 = s->get_query_computer(a); vc::check(near(c2(b), ref(met, x, y), 4 * mag(met, x, y) + 1), "query by id");
    auto cq = s->get_query_computer(m[a].data()); vc::check(near(cq(b), ref(met, x, y), 4 * mag(met, x, y) + 1), "a stored vector as query has its stored codes");
  }
}
VC_PROOF(raw_history) { history<RawSpace<float, float, uint32_t>, true, false>(); }
VC_PROOF(sq8_history) { history<SQ8Space<float, float, uint32_t>, false, true>(); }
VC_PROOF(sq4_history) { history<SQ4Space<float, float, uint32_t>, false, false>(); }
