// bounded stand-in: disk collection manifests, flat segments, collection histories with crashes and failed writes
#include "vc.h"
// @natlibs -lspdlog -lfmt -ldl -fopenmp
// @flags -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -fopenmp
#include <dlfcn.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstring>
#include <fstream>
#include <map>
#include <set>
#include "index/disk/disk_collection.hpp"
using namespace alaya; using namespace alaya::disk; namespace fs = std::filesystem;
static long g_crash = -1;
static void step() { if (g_crash >= 0 && g_crash-- == 0) _exit(77); }
#define REAL(f) ((decltype(&f))dlsym(RTLD_NEXT, #f))
extern "C" int rename(const char *a, const char *b) noexcept { step(); static auto r = REAL(rename); return r(a, b); }
extern "C" int renameat2(int d, const char *a, int e, const char *b, unsigned f) noexcept { step(); static auto r = REAL(renameat2); return r(d, a, e, b, f); }
extern "C" int unlinkat(int d, const char *a, int f) noexcept { step(); static auto r = REAL(unlinkat); return r(d, a, f); }
extern "C" int remove(const char *a) noexcept { step(); static auto r = REAL(remove); return r(a); }
extern "C" int mkdir(const char *a, mode_t m) noexcept { step(); static auto r = REAL(mkdir); return r(a, m); }
extern "C" int fsync(int fd) { step(); (void)fd; return 0; }
extern "C" ssize_t write(int fd, const void *p, size_t n) { if (g_crash == 0 && n > 1) { static auto r = REAL(write); r(fd, p, n / 2); } step(); static auto r = REAL(write); return r(fd, p, n); }
struct Limit { rlimit old; Limit(uint64_t n) { getrlimit(RLIMIT_FSIZE, &old); signal(SIGXFSZ, SIG_IGN); rlimit l{n, old.rlim_max}; setrlimit(RLIMIT_FSIZE, &l); } ~Limit() { setrlimit(RLIMIT_FSIZE, &old); } };
static void quiet() { spdlog::set_level(spdlog::level::off); }
using S = std::string; using Strs = std::vector<S>;
static S slurp(const fs::path &p) { std::ifstream f(p, std::ios::binary); return S(std::istreambuf_iterator<char>(f), {}); }
static void spill(const fs::path &p, const S &b) { std::ofstream f(p, std::ios::binary); f << b; }
template <class F> static bool throws(F f) { try { f(); return false; } catch (const std::exception &) { return true; } }
// every file below a directory with its contents
static std::map<S, S> tree(const fs::path &d) { std::map<S, S> m; if (fs::exists(d)) for (auto &e : fs::recursive_directory_iterator(d)) m[e.path().string()] = e.is_regular_file() ? slurp(e.path()) : "dir"; return m; }
// ---------------------------------------------------------------- manifests: an independent reading
static S trim(S s) { while (!s.empty() && strchr(" \t\r\n", s.back()) && s.back()) s.pop_back(); size_t k = 0; while (k < s.size() && s[k] && strchr(" \t\r\n", s[k])) ++k; return s.substr(k); }
static bool num(const S &s, uint64_t &v) { if (s.empty()) return false; unsigned __int128 x = 0; for (char c : s) { if (c < '0' || c > '9') return false; x = x * 10 + (c - '0'); if (x > UINT64_MAX) return false; } v = (uint64_t)x; return true; }
static bool segid(const S &s) { if (s.size() != 12 || s.compare(0, 4, "seg_")) return false; for (int k = 4; k < 12; ++k) if (s[k] < '0' || s[k] > '9') return false; return true; }
static bool base(const S &s) { return !s.empty() && s != "." && s != ".." && s.find('/') == S::npos && s.find('\0') == S::npos; }
struct Ref { bool ok = false; std::map<S, S> kv; Strs segs; uint64_t dim = 0, count = 0, next = 0; std::map<S, S> extra; };
static Ref reading(const S &body, bool col) {
  Ref r; if (body.size() > (1u << 20) || body.compare(0, 3, "\xEF\xBB\xBF") == 0) return r; size_t p = 0; bool rep = false, csv = false; S csvv;
  while (p <= body.size()) { size_t q = body.find('\n', p); if (q == S::npos) q = body.size(); S l = trim(body.substr(p, q - p)); p = q + 1; if (l.empty() || l[0] == '#') continue; size_t e = l.find('='); if (e == S::npos) return r; S k = trim(l.substr(0, e)), v = trim(l.substr(e + 1));
    if (col && k == "segment") { rep = true; r.segs.push_back(v); continue; } if (col && k == "segments") { if (csv) return r; csv = true; csvv = v; continue; } if (!r.kv.emplace(k, v).second) return r; }
  if (rep && csv) return r; if (csv) { S t = csvv + ","; size_t a = 0; while (a < t.size()) { size_t b = t.find(',', a); S x = t.substr(a, b - a); if (x.empty()) return r; r.segs.push_back(x); a = b + 1; } }
  Strs req = col ? Strs{"version", "dim", "metric", "index_type", "next_segment_id"} : Strs{"version", "segment_id", "index_type", "metric", "dim", "count", "ids_file", "vectors_file"};
  for (auto &k : req) { if (!r.kv.count(k)) return r; if (r.kv[k].empty() && k != "vectors_file") return r; }
  uint64_t v = 0; if (!num(r.kv["version"], v) || v != 1) return r; if (!num(r.kv["dim"], r.dim) || !r.dim) return r; S m = r.kv["metric"], t = r.kv["index_type"]; if (m != "L2" && m != "IP" && m != "COS") return r; if (t != "disk_flat" && t != "disk_vamana" && t != "disk_laser") return r;
  if (col) { if (!num(r.kv["next_segment_id"], r.next)) return r; for (auto &s : r.segs) if (!segid(s)) return r; } else { if (!segid(r.kv["segment_id"]) || !num(r.kv["count"], r.count) || !r.count || !base(r.kv["ids_file"]) || (!r.kv["vectors_file"].empty() && !base(r.kv["vectors_file"]))) return r; }
  for (auto &[k, x] : r.kv) { bool known = false; for (auto &q : req) known |= q == k; if (known) continue; if (k.compare(0, 2, "x_")) return r; r.extra[k] = x; }
  r.ok = true; return r;
}
static S pick(const Strs &v) { return v[vc::in("pick", 0, v.size() - 1)]; }
static S oddval() { return pick({"", "0", "1", "2", "00001", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "-1", "+1", "1 2", "0x10", "7", "seg_00000001", "seg_0000001", "seg_000000011", "SEG_00000001", "seg_0000000a", "L2", "IP", "COS", "l2", "NONE", "disk_flat", "disk_vamana", "disk_laser", "disk_hnsw", "a/b", "../x", "..", ".", "...", "a..b", S("a\0b", 3), "x=y", "=", "#", "seg_00000001,seg_00000002", ",seg_00000001", "seg_00000001,", "seg_00000001,,seg_00000002"}); }
static S document(bool col) {
  Strs l = col ? Strs{"version=1", "dim=4", "metric=L2", "index_type=disk_flat", "next_segment_id=3"} : Strs{"version=1", "segment_id=seg_00000007", "index_type=disk_flat", "metric=COS", "dim=4", "count=9", "ids_file=i.bin", "vectors_file=v.bin"};
  if (col) { uint64_t f = vc::in("form", 0, 3); if (f == 1) { for (uint64_t k = vc::in("ns", 1, 4); k > 0; --k) l.push_back("segment=seg_0000000" + std::to_string(k)); } if (f == 2) l.push_back("segments=seg_00000001,seg_00000004"); if (f == 3) l.push_back("segments=" + oddval()); }
  for (uint64_t k = vc::in("nx", 0, 2); k > 0; --k) l.push_back("x_" + pick({"a", "b", "", "R"}) + "=" + oddval());
  for (uint64_t m = vc::in("muts", 0, 2); m > 0; --m) { uint64_t k = vc::in("mut", 0, 9), at = vc::in("at", 0, l.size() - 1); S key = l[at].substr(0, l[at].find('='));
    if (k == 0) l.erase(l.begin() + (long)at); else if (k == 1) l.push_back(l[at]); else if (k == 2) l.push_back(key + "=" + oddval()); else if (k <= 6) l[at] = key + "=" + oddval(); else if (k == 7) l.push_back(pick({"y_a=1", "foo", "=", "=1", "X_a=1", "versions=1", "segment=seg_00000003", "segments=seg_00000003", " x_q = 1 "})); else if (k == 8) l[at] = " \t" + key + " = " + l[at].substr(std::min(l[at].size(), l[at].find('=') == S::npos ? l[at].size() : l[at].find('=') + 1)) + "\r"; else l.insert(l.begin() + (long)at, pick({"# comment", "", "   ", "\t#x=1"})); if (l.empty()) l.push_back("#"); }
  if (vc::b("shuffle")) for (size_t k = l.size(); k > 1; --k) std::swap(l[k - 1], l[vc::in("sh", 0, k - 1)]);
  S o; for (auto &x : l) o += x + "\n"; if (vc::in("nonl", 0, 3) == 0) o.pop_back(); if (vc::in("bom", 0, 30) == 0) o = "\xEF\xBB\xBF" + o; if (o.back() == '\n' && vc::in("huge", 0, 200) == 0) o += "#" + S((1u << 20) - o.size() - vc::in("below", 0, 2) + 1, 'z'); return o;
}
static S metric_name(MetricType m) { return m == MetricType::L2 ? "L2" : m == MetricType::IP ? "IP" : m == MetricType::COS ? "COS" : "?"; }
VC_PROOF(segment_manifest) {
  quiet(); S d = document(false); spill("m.txt", d); Ref r = reading(d, false); SegmentManifest m; bool ok = !throws([&] { m = SegmentManifest::load("m.txt"); });
  vc::check(ok == r.ok, "a segment manifest is accepted exactly when it is complete and well formed"); if (!ok) return;
  vc::check(m.version == 1 && m.segment_id == r.kv["segment_id"] && S(index_type_to_string(m.index_type)) == r.kv["index_type"] && metric_name(m.metric) == r.kv["metric"] && m.dim == r.dim && m.count == r.count && m.ids_file == r.kv["ids_file"] && m.vectors_file == r.kv["vectors_file"] && m.x_extras == r.extra, "the fields are those of the file");
  if (m.x_extras.count("x_")) m.x_extras.erase("x_"); m.save("n.txt"); auto n = SegmentManifest::load("n.txt"); vc::check(n.version == m.version && n.segment_id == m.segment_id && n.index_type == m.index_type && n.metric == m.metric && n.dim == m.dim && n.count == m.count && n.ids_file == m.ids_file && n.vectors_file == m.vectors_file && n.x_extras == m.x_extras, "a saved segment manifest reads back");
}
VC_PROOF(collection_manifest) {
  quiet(); S d = document(true); spill("m.txt", d); Ref r = reading(d, true); CollectionManifest m; bool ok = !throws([&] { m = CollectionManifest::load("m.txt"); });
  vc::check(ok == r.ok, "a collection manifest is accepted exactly when it is complete and well formed");
  if (ok) { vc::check(m.version == 1 && S(index_type_to_string(m.index_type)) == r.kv["index_type"] && metric_name(m.metric) == r.kv["metric"] && m.dim == r.dim && m.next_segment_id == r.next && m.segment_ids == r.segs && m.x_extras == r.extra, "the fields are those of the file");
    m.save("n.txt"); auto n = CollectionManifest::load("n.txt"); vc::check(n.index_type == m.index_type && n.metric == m.metric && n.dim == m.dim && n.next_segment_id == m.next_segment_id && n.segment_ids == m.segment_ids && n.x_extras == m.x_extras, "a saved collection manifest reads back"); }
  fs::remove("l.txt"); fs::create_symlink("m.txt", "l.txt"); vc::check(throws([] { CollectionManifest::load("l.txt"); }) && throws([] { SegmentManifest::load("l.txt"); }), "a symlinked manifest is rejected"); vc::check(throws([] { CollectionManifest::load("none.txt"); }) && throws([] { SegmentManifest::load("."); }), "absent files and directories are rejected");
}
// ---------------------------------------------------------------- segments
struct Rows { uint32_t dim; std::vector<float> x; std::vector<uint64_t> l; };
static float coord(int span) { return (float)((int)vc::in("x", 0, 2 * (uint64_t)span) - span); }
static MetricType metric() { return (MetricType)vc::in("metric", 0, 2); }
static double dist(MetricType m, const float *q, const float *v, uint32_t dim) {
  double s = 0, a = 0, b = 0; for (uint32_t k = 0; k < dim; ++k) { s += m == MetricType::L2 ? ((double)q[k] - v[k]) * ((double)q[k] - v[k]) : -(double)q[k] * v[k]; a += (double)q[k] * q[k]; b += (double)v[k] * v[k]; }
  return m == MetricType::COS ? s / std::sqrt(a) / std::sqrt(b) : s;
}
struct Ent { double d; uint64_t l; };
static std::vector<Ent> ranked(MetricType m, const float *q, const Rows &r) { std::vector<Ent> e; for (size_t i = 0; i < r.l.size(); ++i) e.push_back({dist(m, q, &r.x[i * r.dim], r.dim), r.l[i]}); std::sort(e.begin(), e.end(), [](auto &a, auto &b) { return a.d != b.d ? a.d < b.d : a.l < b.l; }); return e; }
static void exact(MetricType m, const float *q, const Rows &r, uint64_t k, const std::vector<DiskSearchHit> &h) {
  auto e = ranked(m, q, r); vc::check(h.size() == std::min<size_t>(k, e.size()), "as many hits as rows, at most top_k"); std::map<uint64_t, double> by; for (auto &x : e) by[x.l] = x.d; std::set<uint64_t> seen;
  for (size_t i = 0; i < h.size(); ++i) { vc::check(by.count(h[i].label) && seen.insert(h[i].label).second, "hits are distinct stored labels"); double tol = m == MetricType::COS ? 1e-5 : 0; vc::check(std::fabs(h[i].distance - by[h[i].label]) <= tol && std::fabs(h[i].distance - e[i].d) <= tol, "the hits are the nearest rows with their distances");
    if (tol == 0) vc::check(h[i].label == e[i].l, "ties come by label"); if (i) vc::check(h[i - 1].distance < h[i].distance || (h[i - 1].distance == h[i].distance && h[i - 1].label < h[i].label), "hits come by distance, then label"); }
}
static std::vector<float> query(uint32_t dim, MetricType m) { std::vector<float> q; for (uint32_t k = 0; k < dim; ++k) q.push_back(coord(9)); if (m == MetricType::COS && std::all_of(q.begin(), q.end(), [](float f) { return f == 0; })) q[0] = 1; return q; }
static void row(Rows &r, uint64_t label, MetricType m) { for (uint32_t k = 0; k < r.dim; ++k) r.x.push_back(coord(m == MetricType::COS ? 50 : 3)); if (m == MetricType::COS && std::all_of(r.x.end() - r.dim, r.x.end(), [](float f) { return f == 0; })) r.x.back() = 2; r.l.push_back(label); }
static float bad() { return pick({"n", "i", "m"}) == "n" ? NAN : vc::b("neg") ? -INFINITY : INFINITY; }
VC_PROOF(flat_segment) {
  quiet(); fs::remove_all("s"); fs::create_directories("s"); MetricType m = metric(); Rows r{(uint32_t)vc::in("dim", 1, 20), {}, {}}; uint64_t n = vc::in("n", 1, 30); std::set<uint64_t> ls; while (ls.size() < n) ls.insert(vc::in("hi", 0, 9) ? vc::in("label", 0, 500) : UINT64_MAX - vc::in("off", 0, 99)); Strs order; std::vector<uint64_t> lv(ls.begin(), ls.end()); for (size_t k = lv.size(); k > 1; --k) std::swap(lv[k - 1], lv[vc::in("sh", 0, k - 1)]); for (auto l : lv) row(r, l, m);
  DiskFlatBuilder b(r.dim, m); uint64_t cut = vc::in("cut", 0, n); b.add_batch(r.x.data(), r.l.data(), cut);
  { auto x = r.x; x[vc::in("badat", 0, x.size() - 1)] = bad(); vc::check(throws([&] { b.add_batch(x.data(), r.l.data(), n); }), "non-finite components are rejected"); }
  b.add_batch(r.x.data() + cut * r.dim, r.l.data() + cut, n - cut); fs::path d = "s/seg_00000004"; auto sm = b.finish(d); vc::check(sm.count == n && sm.dim == r.dim && sm.metric == m && sm.segment_id == "seg_00000004", "the manifest describes the segment");
  vc::check(fs::file_size(d / "ids.u64.bin") == n * 8 && !memcmp(slurp(d / "ids.u64.bin").data(), r.l.data(), n * 8), "labels are stored in order"); if (m != MetricType::COS) vc::check(slurp(d / "vectors.f32.bin") == S((char *)r.x.data(), r.x.size() * 4), "vectors are stored in order"); vc::check(std::distance(fs::directory_iterator("s"), fs::directory_iterator()) == 1, "no temporary files remain");
  DiskFlatSegmentSearcher s(d); vc::check(s.size() == n && s.dim() == r.dim, "size and dimension");
  for (int t = 0; t < 3; ++t) { auto q = query(r.dim, m); DiskSearchOptions o; o.top_k = (uint32_t)(vc::in("bigk", 0, 5) ? vc::in("k", 1, n + 3) : UINT32_MAX); exact(m, q.data(), r, o.top_k, s.search(q.data(), o)); }
  { auto q = query(r.dim, m); DiskSearchOptions o; o.top_k = 1; q[vc::in("qb", 0, r.dim - 1)] = bad(); vc::check(throws([&] { s.search(q.data(), o); }) && throws([&] { s.search(nullptr, o); }), "non-finite queries are rejected"); o.top_k = 0; q = query(r.dim, m); vc::check(throws([&] { s.search(q.data(), o); }), "top_k 0 is rejected"); std::vector<float> z(r.dim, 0.0f); o.top_k = 1; vc::check(throws([&] { s.search(z.data(), o); }) == (m == MetricType::COS), "the zero query has no direction"); }
  auto was = tree("s"); vc::check(throws([&] { b.finish("s/seg_00000005"); }) && throws([&] { b.add_batch(r.x.data(), r.l.data(), 1); }), "a finished builder is closed"); { DiskFlatBuilder c(r.dim, m); vc::check(throws([&] { c.finish("s/seg_00000006"); }), "an empty segment is rejected"); c.add_batch(r.x.data(), r.l.data(), 1); vc::check(throws([&] { c.finish(d); }) && throws([&] { c.finish("s/segment"); }), "an existing segment is not overwritten"); }
  if (m == MetricType::COS) { DiskFlatBuilder c(r.dim, m); std::vector<float> z(r.dim, 0.0f); c.add_batch(r.x.data(), r.l.data(), n); c.add_batch(z.data(), r.l.data(), 1); vc::check(throws([&] { c.finish("s/seg_00000007"); }), "a vector without direction is rejected"); }
  vc::check(tree("s") == was, "rejected operations leave the files alone");
  const char *f = vc::b("which") ? "ids.u64.bin" : "vectors.f32.bin"; S body = slurp(d / f); uint64_t how = vc::in("how", 0, 3); if (how == 0) body.resize(vc::in("short", 0, body.size() - 1)); else if (how == 1) body += S(vc::in("long", 1, 9), 'x'); if (how < 2) spill(d / f, body); else if (how == 2) fs::remove(d / f); else { fs::rename(d / f, "s/elsewhere"); fs::create_symlink(fs::absolute("s/elsewhere"), d / f); }
  vc::check(throws([&] { DiskFlatSegmentSearcher t(d); }), "a segment with a missing, mis-sized or symlinked file is rejected");
}
// ---------------------------------------------------------------- collections
static void same(const DiskCollection &c, const Rows &r, MetricType m, bool flat) {
  vc::check(c.size() == r.l.size() && c.dim() == r.dim, "size counts the flushed rows");
  for (int t = 0; t < 2; ++t) { auto q = query(r.dim, m); DiskSearchOptions o; o.top_k = (uint32_t)(vc::in("bigk", 0, 9) ? vc::in("k", 1, r.l.size() + 2) : UINT32_MAX); o.ef = (uint32_t)vc::in("ef", 1, 80); auto h = c.search(q.data(), o);
    if (flat) exact(m, q.data(), r, o.top_k, h); else { std::map<uint64_t, double> by; for (size_t i = 0; i < r.l.size(); ++i) by[r.l[i]] = dist(m, q.data(), &r.x[i * r.dim], r.dim); std::set<uint64_t> seen; vc::check(h.size() <= o.top_k && (r.l.empty() == h.empty()), "hits whenever there are rows"); for (size_t i = 0; i < h.size(); ++i) { vc::check(by.count(h[i].label) && seen.insert(h[i].label).second && h[i].distance == by[h[i].label], "hits are distinct stored rows with their distances"); if (i) vc::check(h[i - 1].distance < h[i].distance || (h[i - 1].distance == h[i].distance && h[i - 1].label < h[i].label), "hits come by distance, then label"); } } }
}
static void batches(const DiskCollection &c, const Rows &r, MetricType m) {
  uint64_t nq = vc::in("nq", 0, 6), k = vc::in("bk", 1, 6); std::vector<float> q; for (uint64_t i = 0; i < nq; ++i) { auto x = query(r.dim, m); q.insert(q.end(), x.begin(), x.end()); } DiskSearchOptions o; o.top_k = (uint32_t)k; std::vector<uint64_t> l(nq * k + 1, UINT64_MAX); std::vector<float> d(nq * k + 1, -7.5f); bool nod = vc::in("nod", 0, 4) == 0; q.push_back(0);
  bool poison = nq && vc::in("poison", 0, 4) == 0; if (poison) q[vc::in("pa", 0, nq * r.dim - 1)] = NAN; uint32_t th = (uint32_t)vc::in("threads", 1, 5); bool threw = throws([&] { c.batch_search(q.data(), nq, o, th, l.data(), nod ? nullptr : d.data()); }); vc::check(threw == (poison && !r.l.empty()), "a failing query fails the batch"); if (threw) return;
  for (uint64_t i = 0; i < nq; ++i) { if (r.l.empty()) { for (uint64_t j = 0; j < k; ++j) vc::check(l[i * k + j] == UINT64_MAX, "an empty collection writes nothing"); continue; } auto h = c.search(&q[i * r.dim], o); for (uint64_t j = 0; j < k; ++j) { vc::check(l[i * k + j] == (j < h.size() ? h[j].label : UINT64_MAX), "batch search gives every query its own hits"); vc::check(d[i * k + j] == (j < h.size() && !nod ? h[j].distance : -7.5f), "and distances"); } } vc::check(l[nq * k] == UINT64_MAX && d[nq * k] == -7.5f, "nothing is written behind the results"); vc::check(throws([&] { c.batch_search(q.data(), nq, o, 0, l.data(), nullptr); }), "no threads");
}
static void append(Rows &to, const Rows &from) { to.x.insert(to.x.end(), from.x.begin(), from.x.end()); to.l.insert(to.l.end(), from.l.begin(), from.l.end()); }
static VamanaSegmentBuildParams vparams() { VamanaSegmentBuildParams p; p.R = (uint32_t)vc::in("R", 2, 12); p.L = p.R + (uint32_t)vc::in("L", 0, 20); p.alpha = pick({"1", "a", "b", "c"}) == "1" ? 1.0f : 1.0f + (float)vc::in("alpha", 0, 1u << 23) / (float)(1u << 23); p.seed = vc::b("sb") ? UINT64_MAX - vc::in("s1", 0, 9) : vc::in("s2", 0, 99); p.num_threads = 1; return p; }
VC_PROOF(history) {
  quiet(); fs::remove_all("c"); bool flat = vc::in("engine", 0, 3) != 0; MetricType m = flat ? metric() : MetricType::L2; Rows fl{(uint32_t)vc::in("dim", 1, 12), {}, {}}, pend{fl.dim, {}, {}}; uint64_t per = 8 + 4ull * fl.dim, cap = 2 * per * vc::in("caprows", 1, 30) + vc::in("slack", 0, 5); auto vp = vparams();
  vc::check(throws([&] { DiskCollection x("c", 0, m, DiskIndexType::Flat); }) && throws([&] { DiskCollection x("c", 4, MetricType::NONE, DiskIndexType::Flat); }) && throws([&] { DiskCollection x("c", 4, m, DiskIndexType::Laser); }) && throws([&] { DiskCollection::open("c"); }) && !fs::exists("c"), "impossible collections are not created");
  auto c = std::make_unique<DiskCollection>("c", fl.dim, m, flat ? DiskIndexType::Flat : DiskIndexType::Vamana, cap, vp); std::set<uint64_t> used; uint64_t segs = 0;
  for (uint64_t ops = vc::in("ops", 1, 25); ops > 0; --ops) {
    uint64_t k = vc::in("op", 0, 15);
    if (k < 6) { Rows a{fl.dim, {}, {}}; for (uint64_t n = vc::in("n", 0, 8); n > 0; --n) row(a, vc::in("dup", 0, 7) ? vc::in("label", 0, 3000) : vc::in("few", 0, 9), m); bool poison = !a.x.empty() && vc::in("poison", 0, 30) == 0; if (poison) { a.x[vc::in("pa", 0, a.x.size() - 1)] = bad(); }
      bool fits = 2 * per * (pend.l.size() + a.l.size()) <= cap; bool ok = !throws([&] { c->add_batch(a.x.data(), a.l.data(), a.l.size()); }); vc::check(ok == (fits || a.l.empty()), "a batch is accepted exactly when the pending limit allows"); if (ok) append(pend, a); }
    else if (k < 10) {
      bool nf = false; for (float f : pend.x) nf |= !std::isfinite(f); std::set<uint64_t> s(pend.l.begin(), pend.l.end()); bool dup = s.size() != pend.l.size(); for (auto l : s) dup |= used.count(l) > 0; bool few = !flat && pend.l.size() == 1;
      auto was = slurp("c/collection_manifest.txt"); bool ok = !throws([&] { c->flush(); }); vc::check(ok == (pend.l.empty() || (!dup && !nf && !few)), "a flush is accepted exactly when its labels are new and its vectors finite");
      if (ok) { if (!pend.l.empty()) ++segs; append(fl, pend); used.insert(s.begin(), s.end()); pend = Rows{fl.dim, {}, {}}; } else { vc::check(slurp("c/collection_manifest.txt") == was, "a rejected flush leaves the collection alone"); c.reset(); c = std::make_unique<DiskCollection>(DiskCollection::open("c")); pend = Rows{fl.dim, {}, {}}; } }
    else if (k < 12) { vc::check(throws([&] { DiskCollection::open("c"); }) && throws([&] { DiskCollection x("c", fl.dim, m, DiskIndexType::Flat); }), "an open collection cannot be opened or created again"); if (k == 11) { c.reset(); vc::check(throws([&] { DiskCollection x("c", fl.dim, m, DiskIndexType::Flat); }), "creating over an existing collection is rejected"); c = std::make_unique<DiskCollection>(DiskCollection::open("c")); pend = Rows{fl.dim, {}, {}}; vc::check(c->max_pending_bytes_ == cap, "the pending limit survives"); if (!flat) vc::check(c->vamana_params_.R == vp.R && c->vamana_params_.L == vp.L && c->vamana_params_.alpha == vp.alpha && c->vamana_params_.seed == vp.seed, "the graph parameters survive"); } }
    else if (k == 12) {   // leftovers of interrupted flushes
      c.reset(); pend = Rows{fl.dim, {}, {}}; uint64_t w = vc::in("left", 0, 2); if (w == 0) { fs::create_directories("c/segments/.tmp_seg_00000001_1_1"); spill("c/segments/.tmp_seg_00000001_1_1/ids.u64.bin", "x"); } else { uint64_t id = segs + vc::in("gap", 1, 6); S nm = detail::format_segment_id(id); if (!fs::exists("c/segments/" + nm)) { fs::create_directories("c/segments/" + nm); if (w == 2) spill("c/segments/" + nm + "/manifest.txt", document(false)); spill("c/segments/" + nm + "/ids.u64.bin", "abc"); } }
      c = std::make_unique<DiskCollection>(DiskCollection::open("c")); }
    else if (k == 13) { DiskCollection d(std::move(*c)); c = std::make_unique<DiskCollection>(std::move(d)); }
    else if (k == 14) batches(*c, fl, m);
    else same(*c, fl, m, flat);
  }
  same(*c, fl, m, flat); batches(*c, fl, m); c.reset(); c = std::make_unique<DiskCollection>(DiskCollection::open("c")); same(*c, fl, m, flat);
  if (segs) { c.reset(); fs::path seg; for (auto &e : fs::directory_iterator("c/segments")) if (slurp("c/collection_manifest.txt").find(e.path().filename().string()) != S::npos) seg = e.path(); fs::rename(seg, "c/moved"); vc::check(throws([] { DiskCollection::open("c"); }), "a missing segment is reported"); fs::create_symlink(fs::absolute("c/moved"), seg); vc::check(throws([] { DiskCollection::open("c"); }), "a symlinked segment directory is rejected"); fs::remove(seg); fs::rename("c/moved", seg); c = std::make_unique<DiskCollection>(DiskCollection::open("c")); same(*c, fl, m, flat); }
}
// the process ends at any file-changing call of a flush (or of the creation): afterwards the collection holds the rows before or after it
VC_PROOF(crash) {
  quiet(); fs::remove_all("c"); bool flat = vc::in("engine", 0, 2) != 0; MetricType m = flat ? metric() : MetricType::L2; Rows fl{(uint32_t)vc::in("dim", 1, 6), {}, {}}; VamanaSegmentBuildParams vp; vp.R = 4; vp.L = 8; vp.num_threads = 1; uint64_t next = 0;
  auto more = [&](Rows &to, uint64_t n) { for (; n > 0; --n) row(to, next++, m); };
  { DiskCollection c("c", fl.dim, m, flat ? DiskIndexType::Flat : DiskIndexType::Vamana, 1 << 20, vp); for (uint64_t s = vc::in("segs", 0, 2); s > 0; --s) { Rows a{fl.dim, {}, {}}; more(a, vc::in("n", 2, 5)); c.add_batch(a.x.data(), a.l.data(), a.l.size()); c.flush(); append(fl, a); } }
  for (int round = 0; round < 3; ++round) {
    Rows a{fl.dim, {}, {}}; more(a, vc::in("n2", 2, 5)); long at = (long)vc::in("crash", 0, 28); bool full = vc::in("full", 0, 3) == 0; uint64_t lim = vc::in("limit", 0, 400);
    pid_t p = fork(); if (!p) { { DiskCollection c = DiskCollection::open("c"); c.add_batch(a.x.data(), a.l.data(), a.l.size()); if (full) { bool ok; { Limit l(lim); ok = !throws([&] { c.flush(); }); } if (ok) _exit(1); if (c.size() != fl.l.size()) _exit(50); if (throws([&] { c.flush(); })) _exit(51); if (c.size() != fl.l.size() + a.l.size()) _exit(52); _exit(1); } g_crash = at; c.flush(); g_crash = -1; } _exit(1); }
    int st = 0; waitpid(p, &st, 0); vc::check(WIFEXITED(st) && (WEXITSTATUS(st) == 1 || WEXITSTATUS(st) == 77), "a flush whose writes fail throws, keeps the pending rows, and can be repeated"); bool done = WIFEXITED(st) && WEXITSTATUS(st) == 1;
    DiskCollection c = DiskCollection::open("c"); vc::check(c.size() == fl.l.size() + a.l.size() || (!done && c.size() == fl.l.size()), "after a crash the collection holds the rows before or after the flush"); if (c.size() != fl.l.size()) append(fl, a); same(c, fl, m, flat);
  }
  { DiskCollection c = DiskCollection::open("c"); Rows a{fl.dim, {}, {}}; more(a, 3); c.add_batch(a.x.data(), a.l.data(), 3); c.flush(); append(fl, a); same(c, fl, m, flat); }
  fs::remove_all("d"); pid_t p = fork(); if (!p) { g_crash = (long)vc::in("crash2", 0, 8); { DiskCollection c("d", 3, m, DiskIndexType::Flat); } g_crash = -1; _exit(1); } int st = 0; waitpid(p, &st, 0); bool ok = !throws([] { DiskCollection c = DiskCollection::open("d"); vc::check(c.size() == 0 && c.dim() == 3, "a created collection is empty"); }); vc::check(ok || WEXITSTATUS(st) == 77, "a created collection can be opened");
}
// merging the hits of several segments, not-a-number distances included
struct Fake : SegmentSearcher { std::vector<DiskSearchHit> h; auto search(const float *, const DiskSearchOptions &) const -> std::vector<DiskSearchHit> override { return h; } auto size() const -> uint64_t override { return h.size(); } auto dim() const -> uint32_t override { return 1; } auto type() const -> DiskIndexType override { return DiskIndexType::Flat; } };
VC_PROOF(merge) {
  quiet(); DiskCollection c; c.manifest_.dim = 1; std::vector<DiskSearchHit> all; uint64_t lab = 0; for (uint64_t s = vc::in("segs", 1, 5); s > 0; --s) { auto f = std::make_shared<Fake>(); for (uint64_t n = vc::in("n", 0, 30); n > 0; --n) { uint64_t t = vc::in("d", 0, 7); DiskSearchHit h{(lab++ * 7919) % 4096, t == 0 ? NAN : t == 1 ? -INFINITY : t == 2 ? -0.0f : (float)((int)t - 4)}; f->h.push_back(h); all.push_back(h); } c.segments_.push_back(f); }
  DiskSearchOptions o; o.top_k = (uint32_t)(vc::in("bigk", 0, 4) ? vc::in("k", 1, 60) : UINT32_MAX); float q = 0; auto h = c.search(&q, o); auto key = [](const DiskSearchHit &x) { uint32_t b; memcpy(&b, &x.distance, 4); bool nan = (b & 0x7FFFFFFF) > 0x7F800000; return std::tuple<bool, double, uint64_t>(nan, nan ? 0 : (double)x.distance + 0.0, x.label); }; std::sort(all.begin(), all.end(), [&](auto &a, auto &b) { return key(a) < key(b); });
  vc::check(h.size() == std::min<size_t>(all.size(), o.top_k), "as many hits as there are, at most top_k"); for (size_t k = 0; k < h.size(); ++k) vc::check(h[k].label == all[k].label, "hits of all segments come by distance, then label, without a distance last");
}
