// bounded stand-in: scalar storage histories (RocksDB) and filtered lookups through the secondary indexes against a plain map
#include "vc.h"
// @natlibs -lrocksdb -lspdlog -lfmt
// @flags -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL
#include <map>
#include <set>
#include <unistd.h>
#include "storage/rocksdb_storage.hpp"
#include "utils/metadata_filter_matcher.hpp"
#include "filter_gen.h"
using namespace alaya; using namespace fg;
using ID = uint32_t; using St = RocksDBStorage<ID>;
static const char *F[] = {"a", "tag", "score", "plain"};
static bool same(const MetadataMap &x, const MetadataMap &y) {
  if (x.size() != y.size()) return false;
  for (auto &[k, v] : x) { auto it = y.find(k); if (it == y.end() || cmp(v, it->second) != 0) return false; }
  return true;
}
static bool same(const ScalarData &x, const ScalarData &y) { return x.item_id == y.item_id && x.document == y.document && same(x.metadata, y.metadata); }
static ScalarData record() {
  ScalarData s; static const char *ids[] = {"", "x", "y", "x_1", "1", "d_00001", "item-7"}; s.item_id = ids[vc::in("item", 0, 6)];
  s.document = text(); for (int k = 0; k < 4; ++k) if (vc::in("has", 0, 3)) s.metadata[F[k]] = value();
  return s;
}
static RocksDBConfig conf(std::vector<std::string> idx) { RocksDBConfig c; c.db_path_ = "db/one"; c.block_cache_size_mb_ = 1; c.max_background_compactions_ = 1; c.max_background_flushes_ = 1; c.write_buffer_size_ = 1 << 20; c.indexed_fields_ = std::move(idx); return c; }
static void lookups(const St &st, const std::map<ID, ScalarData> &m, const std::vector<std::string> &idx, ID top) {
  MetadataFilter f; bool one = vc::in("one", 0, 3) != 0;
  if (one) { FilterCondition c = condition(F, 4); if (!m.empty() && vc::b("hit")) { auto it = m.begin(); std::advance(it, vc::in("rec", 0, m.size() - 1)); auto h = it->second.metadata.find(c.field); if (h != it->second.metadata.end()) { c.value = h->second; if (!c.values.empty()) c.values[0] = h->second; } } f.conditions.push_back(c); }
  else f = filter(F, 4, 2);
  MetadataFilterExecutor<ID> ex(f, &st, (size_t)top + 1);
  auto want = [&](ID id) { if (f.is_empty()) return true; auto it = m.find(id); return it != m.end() && holds(f, it->second.metadata); };
  auto r = ex.build_blocked_bitset(); size_t cnt = 0;
  for (ID id = 0; id <= top; ++id) { bool w = want(id); cnt += w; vc::check(!r.blocked_.get(id) == w, "the blocked set is exactly the records the filter rejects"); vc::check(ex.match(id) == w, "match agrees with evaluating the filter on the stored record"); }
  vc::check(r.matched_count_ == cnt, "the match count is the number of matching records");
  std::vector<ID> ids; for (uint64_t k = vc::in("batch", 0, 6); k > 0; --k) ids.push_back((ID)vc::in("bid", 0, top));
  std::vector<uint8_t> mk; ex.eval_offsets(ids, mk); auto rb = ex.build_blocked_bitset(ids); size_t bc = 0; vc::check(mk.size() == ids.size(), "one mark per id");
  for (size_t k = 0; k < ids.size(); ++k) { bool w = want(ids[k]); bc += w; vc::check((mk[k] != 0) == w && !rb.blocked_.get(k) == w, "batch marks agree with the filter"); }
  vc::check(rb.matched_count_ == bc, "batch match count");
  for (auto &fd : idx) {   // the index lookups themselves, ids beyond any executor included
    MetadataValue v = value(); std::multiset<ID> got, exp; for (ID x : st.get_ids_by_field_value(fd, v)) got.insert(x);
    for (auto &[id, s] : m) { auto it = s.metadata.find(fd); if (it != s.metadata.end() && cmp(it->second, v) == 0) exp.insert(id); }
    vc::check(got == exp, "an equality lookup returns exactly the records with that value");
    int64_t lo = integer(), hi = integer(); got.clear(); exp.clear(); for (ID x : st.get_ids_by_int_range(fd, lo, hi)) got.insert(x);
    for (auto &[id, s] : m) { auto it = s.metadata.find(fd); if (it != s.metadata.end() && it->second.index() == 0 && std::get<0>(it->second) >= lo && std::get<0>(it->second) <= hi) exp.insert(id); }
    if (lo <= hi) vc::check(got == exp, "an integer range lookup returns exactly the records in the range");
    double a = real(), b = real(); got.clear(); exp.clear(); for (ID x : st.get_ids_by_double_range(fd, a, b)) got.insert(x);
    for (auto &[id, s] : m) { auto it = s.metadata.find(fd); if (it != s.metadata.end() && it->second.index() == 1 && std::get<1>(it->second) >= a && std::get<1>(it->second) <= b) exp.insert(id); }
    if (a <= b) vc::check(got == exp, "a real range lookup returns exactly the records in the range");
  }
}
static void content(const St &st, const std::map<ID, ScalarData> &m, const std::vector<ID> &pool) {
  vc::check(st.count() == m.size(), "the count is the number of records");
  for (ID id : pool) { auto it = m.find(id); vc::check(st.is_valid(id) == (it != m.end()), "exactly the stored ids are valid"); if (it != m.end()) vc::check(same(st[id], it->second), "a record reads back as written"); }
  auto b = st.batch_get(pool); auto bi = st.batch_get_item_id_only(pool); vc::check(b.size() == pool.size() && bi.size() == pool.size(), "batch sizes");
  for (size_t k = 0; k < pool.size(); ++k) { auto it = m.find(pool[k]); ScalarData e; if (it != m.end()) e = it->second; vc::check(same(b[k], e) && bi[k] == e.item_id, "batch reads agree"); }
  std::map<std::string, ID> owner; for (auto &[id, s] : m) if (!s.item_id.empty()) { vc::check(!owner.count(s.item_id), "item ids are unique"); owner[s.item_id] = id; }
  for (const char *i : {"x", "y", "x_1", "1", "d_00001", "item-7"}) { auto f = st.find_by_item_id(i); auto it = owner.find(i); vc::check(f.has_value() == (it != owner.end()) && (!f || *f == it->second), "an item id finds its record"); vc::check(st.item_id_available(i) == !f.has_value(), "item id availability"); }
  auto all = st.scan_with_filter([](const ScalarData &) { return true; }); vc::check(all.size() == m.size(), "a scan sees every record once");
  size_t k = 0; for (auto &[id, s] : m) { vc::check(k < all.size() && all[k].first == id && same(all[k].second, s), "a scan is in id order with the stored content"); ++k; }
  size_t lim = vc::in("lim", 1, 4); auto some = st.scan_with_filter([](const ScalarData &s) { return s.metadata.count("a") != 0; }, lim); std::vector<ID> exp; for (auto &[id, s] : m) if (s.metadata.count("a") && exp.size() < lim) exp.push_back(id);
  vc::check(some.size() == exp.size(), "a limited scan returns the first matches"); for (size_t j = 0; j < exp.size() && j < some.size(); ++j) vc::check(some[j].first == exp[j], "a limited scan returns the first matches");
}
VC_PROOF(index_history) {
  spdlog::set_level(spdlog::level::off);
  std::filesystem::remove_all("db"); std::vector<std::string> idx; for (int k = 0; k < 3; ++k) if (vc::in("idx", 0, 3)) idx.push_back(F[k]);
  std::vector<ID> pool = {0, 1, 2, 3, 9, 10, 11, 19, 100, 101}; ID top = 120;
  auto st = std::make_unique<St>(conf(idx)); std::map<ID, ScalarData> m;
  auto taken = [&](const std::string &item, ID id) { if (item.empty()) return false; for (auto &[k, s] : m) if (s.item_id == item && k != id) return true; return false; };
  uint64_t ops = vc::in("ops", 1, 60);
  for (uint64_t o = 0; o < ops; ++o) {
    uint64_t op = vc::in("op2", 0, 15); ID id = pool[vc::in("id", 0, pool.size() - 1)];
    if (op < 6) { ScalarData s = record(); bool ok = !taken(s.item_id, id); vc::check(st->insert(id, s) == ok, "insert is refused exactly when another record has the item id"); if (ok) m[id] = s; }
    else if (op < 9) { ScalarData s = record(); bool ok = m.count(id) && !taken(s.item_id, id); vc::check(st->update(id, s) == ok, "update is refused exactly for absent records and taken item ids"); if (ok) m[id] = s; }
    else if (op < 12) { vc::check(st->remove(id) == (m.count(id) != 0), "remove reports whether the record was there"); m.erase(id); }
    else if (op == 12) { std::vector<ScalarData> v; for (uint64_t k = vc::in("bn", 0, 4); k > 0; --k) v.push_back(record());
      bool ok = true; std::set<std::string> seen; for (size_t k = 0; k < v.size(); ++k) if (!v[k].item_id.empty()) { if (!seen.insert(v[k].item_id).second || taken(v[k].item_id, id + k)) ok = false; }
      vc::check(st->batch_insert(id, v.begin(), v.end()) == ok, "a batch is refused as a whole when an item id is taken"); if (ok) for (size_t k = 0; k < v.size(); ++k) m[id + k] = v[k]; }
    else if (op == 13 && vc::in("reopen", 0, 2) == 0) { st.reset(); st = std::make_unique<St>(conf(idx)); }
    else lookups(*st, m, idx, top);
  }
  for (int k = 0; k < 3; ++k) lookups(*st, m, idx, top);
  std::vector<ID> look = pool; for (ID x : {4u, 5u, 12u, 13u, 102u, 4294967295u}) look.push_back(x); content(*st, m, look);
  if (vc::in("close", 0, 2) == 0) { std::filesystem::remove_all("copy"); st->save("copy"); st.reset(); auto c = conf(idx); c.db_path_ = "copy"; St cp(c); content(cp, m, look); lookups(cp, m, idx, top); }
}
// scans past a thousand records (the batched fallback) and ids of every length
static void names() {   // the recorded finding: the keys of two indexed fields coincide when one name extends the other by an underscore suffix
  std::filesystem::remove_all("db"); St st(conf({"a", "a_s"})); ScalarData x; x.metadata["a_s"] = std::string("x"); st.insert(5, x);
  if (!st.get_ids_by_field_value("a", std::string("s_x")).empty()) { printf("KNOWN an indexed field named like another plus an underscore suffix shares its keys\n"); fflush(stdout); }
}
VC_PROOF(index_large) {
  spdlog::set_level(spdlog::level::off); static bool once = (names(), true); (void)once;
  std::filesystem::remove_all("db"); auto st = std::make_unique<St>(conf({"a"})); std::map<ID, ScalarData> m; ID n = (ID)vc::in("n", 1020, 2100);
  std::vector<ScalarData> v(n); for (ID k = 0; k < n; ++k) { v[k].metadata["a"] = (int64_t)(k % 7) - 3; v[k].metadata["plain"] = (int64_t)(k % 5); } st->batch_insert(0, v.begin(), v.end());
  for (ID k = 0; k < n; ++k) m[k] = v[k];
  for (int q = 0; q < 4; ++q) { MetadataFilter f; FilterCondition c; c.field = q & 1 ? "plain" : "a"; c.op = (FilterOp)vc::in("op", 0, 5); c.value = (int64_t)vc::in("v", 0, 6) - 3; f.conditions.push_back(c);
    MetadataFilterExecutor<ID> ex(f, st.get(), n); auto r = ex.build_blocked_bitset(); size_t cnt = 0;
    for (ID k = 0; k < n; ++k) { bool w = holds(f, m[k].metadata); cnt += w; vc::check(!r.blocked_.get(k) == w, "the blocked set is exactly the records the filter rejects"); } vc::check(cnt == r.matched_count_, "the match count is the number of matching records"); }
}
